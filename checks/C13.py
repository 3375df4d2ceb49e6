import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild, genana
def fn(c):
    b = vbuild.build('anadrv', vbuild.VERIF + '/drivers/anadrv.cpp', ['snap'], opt=('-O1', '-fpermissive', '-fopenmp'), ldflags=('-fopenmp',))
    c.models_parallel([('MCAna', 'MCAna%s.cfg' % k) for k in 'UDE'] + ([('MCAna', 'MCAna%s.cfg' % k) for k in ('U5', 'D4', 'E4')] if c.thorough else []))
    m = 12 if c.thorough else 1
    S = []
    for k in 'UDE':
        for d in (0, 1):
            r = c.rng(k + str(d))
            S += [('%s%d_%d' % (k, d, i), genana.script(k, r, r.choice([3, 5, 7, 9]), 8, bool(d))) for i in range(130 * m)]
        r = c.rng('big' + k); S += [('big%s%d' % (k, i), genana.big(k, r)) for i in range(3 * m)]
    r = c.rng('gen'); S += [('gen%d' % i, genana.gens(r)) for i in range(25 * m)]
    c.rng('mix').shuffle(S)
    c.bind('analytics', b, S, 'TraceAna.tla', denv={'OMP_NUM_THREADS': '2', 'OMP_WAIT_POLICY': 'passive'},
           sig=lambda e, evs, lines: (evs[0].get('k') or '') + ' ' + e['op'] + ' ' + (e.get('f') or ''))
    c.assumptions += ['TLC and the JSON bridge', 'real-valued answers are compared as scaled integers, within the rounding of the scale',
                      'modularity, CNM and Girvan-Newman are asked on graphs without self loops']
vrun.main('C13', fn)
