import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild, genthr
def fn(c):
    b = vbuild.build('thrdrv', vbuild.VERIF + '/drivers/thrdrv.cpp', ['infra'], libs=('-lpthread', '-ldl'))
    p = vbuild.build('pooldrv', vbuild.VERIF + '/drivers/pooldrv.cpp', ['infra'], opt=('-O1', '-fsanitize=address'), ldflags=('-fsanitize=address',), libs=('-lpthread',))
    c.models_parallel([('MCSched', 'MCSched.cfg'), ('Pool', 'MCPool.cfg')] + ([('MCSched', 'MCSched3.cfg')] if c.thorough else []))
    m = 15 if c.thorough else 1
    r = c.rng('mon'); S = [('m%d' % i, genthr.mon(r)) for i in range(500 * m)]
    r = c.rng('sched'); S += [('s%d' % i, genthr.sched(r)) for i in range(400 * m)]
    r = c.rng('plan')
    for i, g in enumerate(c.behaviours('MCSched', 'GenSched.cfg', num=60 * m, depth=120)):
        S.append(('p%d' % i, ['seed %d 0' % r.randrange(1 << 30), 'max 2', 'plan ' + ' '.join(str(1000 + x) for x in g['plan'] for _ in range(r.randint(1, 2))), 'new'] +
                  ['pt %d %d %d %d %d' % (j + 1, x[0], 4 * x[1], x[2], r.randint(0, 2)) for j, x in enumerate(g['pts'])] + ['exec 1 0', 'del']))
    c.rng('mix').shuffle(S)
    c.bind('threads', b, S, 'TraceThr.tla', sig=lambda e, evs, lines: e['op'])
    r = c.rng('pool'); S = [('q%d' % i, genthr.pool(r)) for i in range(500 * m)]
    S += [('g%d' % i, genthr.poolplan(r, g)) for i, g in enumerate(c.behaviours('Pool', 'GenPool.cfg', num=60 * m, depth=42))]
    c.rng('mix').shuffle(S)
    c.bind('pools', p, S, 'TracePool.tla', denv={'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1'}, sig=lambda e, evs, lines: evs[0].get('k', '') + ' ' + e['op'])
    c.assumptions += ['TLC and the JSON bridge', 'the threads are interleaved at their calls of the thread library (locks, events, sleeps, creation), under a stand-in for it with its own clock; the stand-in wakes no thread without a reason',
                      'memory errors are seen by AddressSanitizer']
vrun.main('C15', fn)
