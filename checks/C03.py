import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild, genkb
KINDS = ['edge', 'pos', 'grp', 'cntgrp', 'count', 'card', 'cardidx', 'cardidxskip', 'exists', 'empty', 'existkey', 'terms', 'scanign', 'kbsize']
def ask(r, n, T, L, kinds, k):
    """k questions to an open store"""
    for _ in range(k):
        kd = r.choice(kinds); p = genkb.pattern(r, n, T); v = genkb.var_pattern(r, n, T)
        if kd == 'edge': L.append('edge %s %d %d %d' % tuple([r.choice(genkb.WORDS3)] + v))
        elif kd == 'pos': L.append('pos %s %d %d %d %d' % tuple([r.choice(genkb.WORDS3)] + v + [r.choice([0, 0, 1, 2, 3, 5, len(T)])]))
        elif kd in ('grp', 'cntgrp'): L.append('%s %s %d %d %d' % tuple([kd, r.choice(genkb.WORDSG)] + v))
        elif kd == 'count': L.append('count %d %d %d' % tuple(v))
        elif kd == 'cardidx': L.append('cardidx %d %d %d %d 0' % tuple([r.randrange(6)] + p))
        elif kd in ('cardidxskip', 'scanign'):
            idx = r.randrange(6); p = genkb.prefix_pattern(r, n, T, idx); p[genkb.IDX[idx][2]] = -1
            L.append(('cardidx %d %d %d %d 1' if kd == 'cardidxskip' else 'scan %d %d %d %d 1') % tuple([idx] + p))
        elif kd == 'existkey': L.append('existkey %d %d' % (r.randrange(6), r.randrange(n + 1)))
        elif kd == 'terms': L.append('terms %d' % r.randrange(6))
        elif kd == 'kbsize': L.append('kbsize')
        else: L.append('%s %d %d %d' % tuple([kd] + p))
def loads(c, count, salt):
    r = c.rng(salt); sc = []
    for i in range(count):
        n = r.randint(2, 9); T = genkb.triples(r, n, r.choice([3, 8, 20, 40]), r.choice(genkb.SHAPES))
        o = genkb.options(r); o.update(nt=n, big=r.randint(0, 1))
        L = genkb.tlines(T) + ['load ' + genkb.opt(o), 'open']
        ask(r, n, T, L, r.sample(KINDS, 5), 14)
        sc.append(('%s%d' % (salt, i), L))
    return sc
def updates(c, count, salt, kinds):
    r = c.rng(salt); sc = []
    for i in range(count):
        n = r.randint(3, 8); x = n + r.randint(0, 2)
        T = genkb.triples(r, n, r.choice([3, 8, 20]), r.choice(genkb.SHAPES)); cur = set(T)
        o = genkb.options(r); o.update(nt=n, big=0, dict=1, terms=x, nind=r.choice([6, 6, 3]))
        L = genkb.tlines(T) + ['load ' + genkb.opt(o)]
        def look(k): L.append('open'); ask(r, x, sorted(cur) or T, L, r.sample(kinds, min(len(kinds), 5)), k)
        if r.random() < .3: look(2); L.append('close')
        for u in range(r.randint(1, 4)):
            if r.random() < .55:
                A = genkb.validupd(genkb.triples(r, x, r.choice([1, 2, 5, 12]))); L += genkb.tlines(A) + ['upd add']; cur |= set(A)
            else:
                D = r.sample(sorted(cur), min(len(cur), r.choice([1, 2, 4]))) if cur else []
                if r.random() < .1: D = sorted(cur)
                if not D: continue
                D = genkb.validupd(D); L += genkb.tlines(D) + ['upd rm']; cur -= set(D)
            if r.random() < .4: look(4); L.append('close')
            if r.random() < .25: L.append('merge'); look(4); L.append('close')
        look(10)
        sc.append(('%s%d' % (salt, i), L))
    return sc
def fn(c):
    b = vbuild.build('kbdrv', vbuild.VERIF + '/drivers/kbdrv.cpp', ['core'])
    c.model('MCKB')
    c.bind('loads', b, loads(c, 10000 if c.thorough else 900, 'l'), 'TraceKB.tla')
    c.bind('updates', b, updates(c, 8000 if c.thorough else 500, 'u', [k for k in KINDS if k != 'scanign']), 'TraceKB.tla')
    c.assumptions += ['TLC and the JSON bridge', 'shim/ stands in for the KOGNAC library, which is not available offline', 'update files hold valid N-Triples']
if __name__ == '__main__': vrun.main('C03', fn)
