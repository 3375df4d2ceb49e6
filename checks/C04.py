import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild, gentree, genkb
def uri(i, w):
    """a valid N-Triples term for update files: the interior of the word without spaces, quotes and angle brackets"""
    bad = b' <>"\\\t\r\n\0'
    f = lambda b: bytes(x for x in b if x not in bad)
    p, pad, n, s = f(w[0]), w[1], w[2], f(w[3])
    return (b'"', pad, n, p + b'_%d' % i + s + b'"') if i % 5 == 4 else (b'<' + p, pad, n, s + b'_%d>' % i)
def stores(c, count):
    r = c.rng('s'); sc = []
    for i in range(count):
        ups = r.random() < .7
        n = r.choice([3, 8, 20, 60, 120]) if ups else r.choice([3, 20, 60, 150, 300]); x = n + (r.choice([0, 2, 6, 15]) if ups else r.randint(0, 5))
        ws = gentree.vocabulary(r, x, r.random() < .15)
        if ups: ws = [uri(k, w) for k, w in enumerate(ws)]
        L = ['V %d %s' % (k, l[2:]) for k, l in enumerate(gentree.wlines(ws))]
        T = genkb.triples(r, n, r.choice([3, 10, 20])); cur = set(T)
        o = genkb.options(r); o.update(nt=n, big=0, dict=1, terms=x, **({'nind': r.choice([6, 6, 3])} if ups else {}))
        L += genkb.tlines(T) + ['load ' + genkb.opt(o), 'open']
        for u in range(r.choice([1, 2, 3, 6]) if ups else 0):
            L.append('close')
            if r.random() < .75 or not cur:
                A = genkb.triples(r, r.choice([x, x, n]), r.choice([1, 3, 10]))
                A = genkb.validupd(A); L += genkb.tlines(A) + ['upd add']; cur |= set(A)
            else:
                D = genkb.validupd(r.sample(sorted(cur), min(len(cur), 3))); L += genkb.tlines(D) + ['upd rm']; cur -= set(D)
            if r.random() < .25: L.append('merge')
            if r.random() < .5: L.append('open')
        if r.random() < .3: L += ['close', 'open']
        L += ['open', 'scan 0 -1 -1 -1']
        sc.append(('s%d' % i, L))
    return sc
def buffers(c, count):
    r = c.rng('b'); return [('b%d' % i, gentree.buffer(r, r.choice([5, 40, 120, 300]), r.random() < .7)) for i in range(count)] + [('x%d' % i, gentree.exact(r)) for i in range(count // 4)]
def dicts(c, count):
    r = c.rng('d'); return [('d%d' % i, gentree.dictionary(r, r.choice([3, 10, 30, 80, 150]), r.random() < .25)) for i in range(count)]
def fn(c):
    b = vbuild.build('treedrv', vbuild.VERIF + '/drivers/treedrv.cpp', ['core'])
    c.model('MCTree')
    k = 10 if c.thorough else 1
    c.bind('buffer', b, buffers(c, 240 * k), 'TraceTree.tla')
    c.bind('words', b, dicts(c, 300 * k), 'TraceTree.tla')
    k2 = vbuild.build('kbdrv', vbuild.VERIF + '/drivers/kbdrv.cpp', ['core'])
    c.model('MCKB')
    c.bind('store', k2, stores(c, 200 * k), 'TraceKB.tla')
    c.assumptions += ['TLC and the JSON bridge', 'shim/ stands in for the KOGNAC library, which is not available offline']
if __name__ == '__main__': vrun.main('C04', fn)
