import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild, genkb
def scenarios(c, count, salt):
    r = c.rng(salt); sc = []
    for i in range(count):
        n = r.randint(2, 12); T = genkb.triples(r, n, r.choice([3, 8, 20, 60]), r.choice(genkb.SHAPES))
        o = genkb.options(r); o.update(nt=n, big=r.randint(0, 1))
        L = genkb.tlines(T) + ['load ' + genkb.opt(o), 'open']
        for idx in range(6):
            L.append('scan %d -1 -1 -1' % idx)
            for _ in range(3): L.append('scan %d %d %d %d' % tuple([idx] + genkb.prefix_pattern(r, n, T, idx)))
        for _ in range(5): L.append('best %d %d %d' % tuple(genkb.pattern(r, n, T)))
        sc.append(('%s%d' % (salt, i), L))
    return sc
def fn(c):
    b = vbuild.build('kbdrv', vbuild.VERIF + '/drivers/kbdrv.cpp', ['core'])
    c.model('MCKB')
    c.bind('load', b, scenarios(c, 12000 if c.thorough else 900, 'k'), 'TraceKB.tla')
    c.assumptions += ['TLC and the JSON bridge', 'shim/ stands in for the KOGNAC library, which is not available offline']
vrun.main('C01', fn)
