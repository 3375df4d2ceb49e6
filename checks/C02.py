import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild, genkb
def scenarios(c, count, salt):
    r = c.rng(salt); sc = []
    for i in range(count):
        n = r.randint(3, 9); x = n + r.randint(0, 3)
        T = genkb.triples(r, n, r.choice([3, 8, 20]), r.choice(genkb.SHAPES)); cur = set(T)
        o = genkb.options(r); o.update(nt=n, big=0, dict=1, terms=x, nind=r.choice([6, 6, 3]))
        L = genkb.tlines(T) + ['load ' + genkb.opt(o)]
        def look(k): L.append('open'); genkb.reads(r, x, sorted(cur) or T, L, k)
        if r.random() < .5: look(1); L.append('close')
        for u in range(r.randint(1, 5)):
            if r.random() < .55:
                A = genkb.triples(r, x, r.choice([1, 2, 5, 12]))
                if r.random() < .3: A = sorted(set(A) | set(r.sample(sorted(cur), min(len(cur), 2))))
                A = genkb.validupd(A); L += genkb.tlines(A) + ['upd add']; cur |= set(A)
            else:
                D = r.sample(sorted(cur), min(len(cur), r.choice([1, 2, 4]))) if cur else []
                if r.random() < .1: D = sorted(cur)
                if r.random() < .3: D = sorted(set(D) | set(genkb.triples(r, x, 2)))
                if not D: continue
                D = genkb.validupd(D); L += genkb.tlines(D) + ['upd rm']; cur -= set(D)
            if r.random() < .5: look(2); L.append('close')
            if r.random() < .25: L.append('merge'); look(2); L.append('close')
        look(4)
        sc.append(('%s%d' % (salt, i), L))
    return sc
def fn(c):
    b = vbuild.build('kbdrv', vbuild.VERIF + '/drivers/kbdrv.cpp', ['core'])
    c.model('MCKB')
    c.bind('updates', b, scenarios(c, 10000 if c.thorough else 600, 'u'), 'TraceKB.tla')
    c.assumptions += ['TLC and the JSON bridge', 'shim/ stands in for the KOGNAC library, which is not available offline', 'update files hold valid N-Triples']
if __name__ == '__main__': vrun.main('C02', fn)
