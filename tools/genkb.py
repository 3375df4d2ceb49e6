"""Scenario generator for the KB driver."""
IDX = {0: (0, 1, 2), 1: (2, 1, 0), 2: (1, 2, 0), 3: (0, 2, 1), 4: (2, 0, 1), 5: (1, 0, 2)}
def unperm(i, abc):
    out = [0, 0, 0]
    for k, p in enumerate(IDX[i]): out[p] = abc[k]
    return out
def triples(r, n, m, shape='uniform', np=None):
    """m triples over identifiers 0..n-1; predicates from the first np ones."""
    np = np or n
    T = set()
    for _ in range(m):
        if shape == 'uniform': t = (r.randrange(n), r.randrange(np), r.randrange(n))
        elif shape == 'star':      # one subject with many edges, few others
            t = (0 if r.random() < .7 else r.randrange(n), r.randrange(np), r.randrange(n))
        elif shape == 'onepred': t = (r.randrange(n), 0 if r.random() < .8 else r.randrange(np), r.randrange(n))
        elif shape == 'func':      # functional: each subject one object per predicate
            s = r.randrange(n); p = r.randrange(np); t = (s, p, (s * 7 + p * 3) % n)
        elif shape == 'loop': s = r.randrange(n); t = (s, s % np if r.random() < .5 else r.randrange(np), s if r.random() < .6 else r.randrange(n))
        T.add(t)
    return sorted(T)
SHAPES = ['uniform', 'star', 'onepred', 'func', 'loop']
def options(r, full=True):
    o = {'nind': r.choice([6, 6, 6, 4, 3, 1] if full else [6]), 'aggr': r.choice([0, 1]), 'skip': r.choice([0, 1]), 'thr': r.choice([1, 2, 3, 5, 20]),
         'fixed': r.choice([-1, -1, -1, -1] + list(FIXED)), 'threads': r.choice([1, 2, 4]), 'rthreads': r.choice([1, 1, 2]), 'plain': 0}
    if o['nind'] in (1, 4): o['aggr'] = 0     # aggregated POS needs the permutations it refers to
    return o
FIXED = ()
def tlines(T):
    L = []
    for i in range(0, len(T), 12): L.append('T ' + ' '.join('%d %d %d' % tuple(t) for t in T[i:i + 12]))
    return L
def opt(o): return ' '.join('%s=%d' % kv for kv in sorted(o.items()))
def pattern(r, n, T, nv=None):
    """constants drawn from the data most of the time"""
    t = r.choice(T) if T and r.random() < .8 else (r.randrange(n + 1), r.randrange(n + 1), r.randrange(n + 1))
    t = list(t)
    if r.random() < .15: t[r.randrange(3)] = r.randrange(n + 2)
    for k in range(3):
        if r.random() < .5: t[k] = -1
    return t
def var_pattern(r, n, T):
    """a pattern of the graph primitives: different negative numbers for different variables"""
    p = pattern(r, n, T); names = r.sample([-1, -2, -3], 3)
    if r.random() < .3: names[r.randrange(3)] = names[r.randrange(3)]
    return [names[k] if p[k] < 0 else p[k] for k in range(3)]
def prefix_pattern(r, n, T, idx):
    t = list(r.choice(T)) if T and r.random() < .85 else [r.randrange(n + 1) for _ in range(3)]
    if r.random() < .1: t[r.randrange(3)] = r.randrange(n + 2)
    k = r.choice([0, 1, 1, 2, 2, 3])
    for p in IDX[idx][k:]: t[p] = -1
    return t
WORDS3 = ['srd', 'sdr', 'drs', 'dsr', 'rsd', 'rds']
WORDSG = ['s', 'r', 'd', 'sr', 'sd', 'rs', 'rd', 'ds', 'dr']
def edge_ok(w, c): return True
def cursor(r, n, T, depth=8, allow_mark=True, ign=None):
    idx = r.randrange(6); t = r.choice(T) if T else (0, 0, 0)
    key = t[IDX[idx][0]]
    ig = r.random() < .4 if ign is None else ign
    L = ['copen %d %d %d %d %d' % (idx, key, -1, -1, ig)]
    at = False; marked = False
    for _ in range(depth):
        x = r.random()
        if at and x < .45:
            u = r.choice([y for y in T if y[IDX[idx][0]] == key] or T)
            a, b = u[IDX[idx][1]], u[IDX[idx][2]]
            if r.random() < .3: a = min(n, a + 1)
            if r.random() < .3: b = min(n, b + 1)
            L.append('moveto %d %d' % (a, 0 if ig else b)); at = False
            continue
        L.append('hasnext'); L.append('next'); at = True
        if ig and r.random() < .6: L.append('ccount')
    return L
def reads(r, n, T, L, k=4):
    for idx in r.sample(range(6), 3):
        L.append('scan %d -1 -1 -1' % idx)
        for _ in range(2): L.append('scan %d %d %d %d' % tuple([idx] + prefix_pattern(r, n, T, idx)))
    for _ in range(k): L.append('best %d %d %d' % tuple(pattern(r, n, T)))
    L.append('terms %d' % r.randrange(6))
def validupd(T):
    """terms t % 5 == 4 are literals in the driver: only objects"""
    return sorted(set((s - 1 if s % 5 == 4 else s, p - 1 if p % 5 == 4 else p, o) for s, p, o in T))
