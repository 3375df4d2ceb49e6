"""Scripts for the driver of batches, embeddings and subgraphs."""
import genkb
def store(r, n, m, big=0, kbmode=False):
    T = genkb.triples(r, n, m, r.choice(genkb.SHAPES))
    o = genkb.options(r, False); o.update(nt=n, big=big)
    if kbmode: o.update(aggr=0, skip=0, lay=r.choice([1, 2]))
    return T, genkb.tlines(T) + ['load ' + genkb.opt(o)]
def pattern(r, n, T):
    t = list(r.choice(T)) if r.random() < .6 else [r.randrange(n + 1) for _ in range(3)]
    if r.random() < .4: u = r.choice(T); k = r.randrange(3); t[k] = u[k]
    for k in range(3):
        if r.random() < .35: t[k] = -1
    return t
def epoch(r, L, n, bs, kinds):
    k = r.random()
    if k < .6:
        q = r.choice(kinds)
        for _ in range(n // bs + 2): L.append('batch %d' % (q if r.random() < .8 else r.choice(kinds)))
    else:
        for _ in range(r.randint(1, n // bs + 2)): L.append(r.choice(['batch %d' % r.choice(kinds), 'batchnr %d' % r.randrange(n // bs + 2)]))
    if r.random() < .3: L += ['batchnr %d' % i for i in range(n // bs + 2)]
def batches(r):
    n = r.randint(2, 9); mode = r.choice(['file', 'file', 'query', 'query', 'held', 'kb'])
    T, L = store(r, n, r.choice([3, 10, 25, 60]) if mode != 'held' else 60, r.randint(0, 1), mode == 'kb')
    v, t = (r.choice([0, 5, 20]), r.choice([0, 5, 20])) if mode == 'held' and len(T) >= 20 else (0, 0)
    for _ in range(r.randint(1, 2)):
        bs = r.choice([1, 2, 3, 7, 10, len(T), len(T) + 1]); L.append('source %d %d %d %d %d' % (bs, v, t, mode != 'kb', r.random() < .3))
        for _ in range(r.randint(1, 4) if mode == 'query' else 1):
            L.append('start %d %d %d' % tuple(pattern(r, n, T) if mode == 'query' else (-1, -1, -1)))
            for e in range(r.randint(1, 3)):
                epoch(r, L, len(T), bs, [0, 1])
                if r.random() < .8: L.append('shuffle')
    return L
def page(r):
    """as many triples as fill whole pages of the file"""
    n = 64; T = [(s, p, o) for s in range(n) for p in range(1) for o in range(n)]
    L = genkb.tlines(T) + ['load nt=%d big=0' % n, 'source 1024 0 0 1 0', 'start -1 -1 -1'] + ['batch 1'] * 5 + ['batchnr 3'] + ['start 63 0 63', 'batch 0', 'start -1 0 63', 'batch 1']
    return L
def embeddings(r):
    n = r.randint(1, 12); d = r.randint(1, 5); L = ['emb %d %d %d %d' % (n, d, r.random() < .7, r.randrange(1000))]
    if r.random() < .4: L.append('einit %d %d' % (r.choice([1, 2, 3, 4, 8, 16]), r.random() < .5))
    def act():
        for _ in range(r.randint(0, 6)): L.append(r.choice(['eset %d %d %d' % (r.randrange(n), r.randrange(d), r.randint(-8, 8)), 'econf %d' % r.randrange(n), 'eupd %d' % r.randrange(n), 'epost']))
    act()
    for _ in range(r.randint(1, 2)): L += ['estore %d %d' % (r.random() < .3, r.choice([1, 2, 4])), 'eload']
    return L
def subgraphs(r):
    n = r.randint(2, 12); T, L = store(r, n, r.choice([3, 10, 30, 60])); L.append('emb %d %d %d %d' % (n + r.randint(0, 2), r.randint(1, 4), r.random() < .8, r.randrange(1000)))
    if r.random() < .3: L += ['estore 0 1', 'eload']
    for _ in range(r.randint(1, 2)):
        L.append('sub %s %d' % (r.choice(['avg', 'var']), r.choice([0, 0, 1, 2, 5])))
        for _ in range(r.choice([0, 1, 1, 2])): L.append('sstore')
    return L
