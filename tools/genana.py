"""Graphs and questions for anadrv."""
def shape(r, n):
    """edges over 0..n-1, without regard to direction"""
    k = r.choice(['gnp', 'gnp', 'gnp', 'tree', 'forest', 'cycle', 'cliques', 'chain', 'star', 'bip', 'dense', 'layers', 'few'])
    P = [(i, j) for i in range(n) for j in range(n) if i != j]
    if k == 'gnp': return [p for p in P if r.random() < r.choice([.1, .2, .35])]
    if k == 'dense': return [p for p in P if r.random() < .7]
    if k == 'few': return r.sample(P, min(len(P), r.randint(0, 3)))
    if k == 'tree': E = [(i, r.randrange(i)) for i in range(1, n)]
    elif k == 'forest': E = [(i, r.randrange(i)) for i in range(1, n) if r.random() < .75]
    elif k == 'cycle': E = [(i, (i + 1) % n) for i in range(n)] if n > 2 else []
    elif k == 'cliques':
        E = []; c = [r.randrange(max(1, n // 3)) for _ in range(n)]
        E = [(i, j) for i, j in P if i < j and c[i] == c[j]]
    elif k == 'chain': E = [(i, i + 1) for i in range(n - 1)]
    elif k == 'star': E = [(0, i) for i in range(1, n)]
    elif k == 'bip': E = [(i, j) for i, j in P if i % 2 < j % 2 and r.random() < .6]
    else: E = [(i, j) for i, j in P if j // 2 == i // 2 + 1 and r.random() < .7]
    if r.random() < .6: E = [p if r.random() < .6 else (p[1], p[0]) for p in E]
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        if P: E.append(r.choice(P))
    return E
UN = ['bicon', 'biconsz', 'art', 'bridges', 'one', 'onesz', 'mxbicon']
def script(kind, r, size, nq, dense=False):
    n = r.randint(1, size)
    E = shape(r, n)
    if r.random() < .4: E += [(i, i) for i in range(n) if r.random() < .25]
    elif r.random() < .5: E = [p for p in E if p[0] != p[1]]
    ids = list(range(n))
    if not dense:
        ids = r.sample(range(r.choice([n, n + 3, 3 * n, 60])), n)
    elif r.random() < .5: r.shuffle(ids)
    if kind == 'E':
        if r.random() < .7: E += [e for e in E if r.random() < .2]
    else:
        s, F = set(), []
        for a, b in E:
            k = (min(a, b), max(a, b)) if kind == 'U' else (a, b)
            if k not in s: s.add(k); F.append((a, b))
        E = F
    r.shuffle(E)
    N = [ids[i] for i in range(n)]
    order = N[:]; r.shuffle(order)
    loops = any(a == b for a, b in E)
    L = ['new ' + kind] + ['n %d' % i for i in order] + ['e %d %d %d' % (ids[a], ids[b], r.choice([1, 1, 2, 3, 5])) for a, b in E]
    m = len(E); b = lambda: r.randint(0, 1); v = lambda: r.choice(N)
    fof = lambda: r.choice([(1, 0), (1, 0), (0, 1), (1, 1)])
    def q():
        f = r.choice(pool)
        if f == 'bfs':
            fo, fi = fof(); s = v(); t = r.choice([-1, -1, v()]); hyb = b()
            if t == s: t = -1
            # a limit together with a target is only asked when it cannot cut the search short of it
            mx = -1 if t != -1 or r.random() < .5 else r.randint(0, 4)
            return 'bfs %d %d %d %d %d %d %s' % (s, fo, fi, t, mx, hyb, ' '.join(str(v()) for _ in range(3)) if t == -1 else '')
        if f == 'path': return 'path %d %d %d %d' % ((v(), v()) + fof())
        if f in ('bfstree', 'subtree'): return '%s %d %d %d' % ((f, v()) + fof())
        if f == 'athop': return 'athop %d %d %d' % (v(), r.randint(0, 4), b())
        if f in ('athops', 'ecc'): return '%s %d %d' % (f, v(), b())
        if f == 'sp': return 'sp %d %d %d' % (v(), v(), b())
        if f == 'spall': return 'spall %d %d %d' % (v(), b(), r.choice([-1, -1, 0, 1, 2]))
        if f == 'dists': return 'dists %d %d' % (v(), b())
        if f in ('diam', 'diamv'): return '%s %d' % (f, b())
        if f == 'diamsub': return 'diamsub %d %s' % (b(), ' '.join(str(x) for x in r.sample(N, r.randint(1, n))))
        if f in ('wcc', 'ncc', 'degc'): return '%s %d' % (f, v())
        if f == 'ntri': return 'ntri %d' % v()
        if f == 'kcore': return 'kcore %d' % r.randint(0, 5)
        if f == 'nccs': return 'nccs %d' % b()
        if f == 'triv': return 'triv %d' % r.randint(0, 2)
        if f == 'ngrp': return 'ngrp %d %s' % (v(), ' '.join(str(x) for x in r.sample(N, r.randint(0, n))))
        if f in ('len2', 'cmn'): return '%s %d %d' % (f, v(), v())
        if f == 'uniq': return 'uniq %d %d' % (v(), b())
        if f == 'walk':
            mu = b(); return 'walk %d %d %d %s' % (v(), r.randint(1, 9), mu, ' '.join(str(v()) for _ in range(r.randint(0, 3))) if mu else '')
        if f == 'spv': return 'spv ' + ' '.join(str(v()) for _ in range(2 * r.randint(1, 4)))
        if f in ('far', 'clo'): return '%s %d %d %d %d' % (f, v(), b(), b(), b())
        if f in ('wfar', 'wclo'): return '%s %d %d' % (f, v(), b())
        if f == 'btw': return 'btw %d %d' % (0 if kind == 'U' else 1, r.choice([0, 0, 1, 2]))
        if f == 'btwv': return 'btwv %d' % (0 if kind == 'U' else 1)
        if f == 'pr': return 'pr %d %d' % (r.choice([1, 2, 3, 200]), r.randint(0, 2))
        if f in ('prv',): return 'prv %d' % r.choice([1, 2, 3, 200])
        if f == 'wpr': return 'wpr %d %d' % (r.choice([1, 2, 3, 200]), b())
        if f in ('hits',): return 'hits %d %d' % (r.randint(1, 3), b())
        if f == 'hitsv': return 'hitsv %d' % r.randint(1, 3)
        if f == 'eig': return 'eig %d' % r.randint(1, 3)
        if f in ('gdeg', 'gclo', 'inout'): return '%s %s' % (f, ' '.join(str(x) for x in r.sample(N, r.randint(1, n))))
        if f == 'mod':
            c = [r.randrange(3) for _ in N]
            return 'mod ' + ' '.join(' '.join([str(x) for x, y in zip(N, c) if y == z] + ['-1']) for z in set(c))
        if f == 'flow':
            s = v(); t = v()
            return 'flow %d %d %d' % (s, t, b()) if s != t else None
        if f == 'wsp': return 'wsp %d' % v()
        return f
    pool = ['bfs', 'bfs', 'path', 'bfstree', 'subtree', 'athop', 'athops', 'sp', 'spall', 'dists', 'diam', 'diamsub', 'wcc', 'conn', 'wccs', 'sccs', 'wccsz', 'sccsz',
            'mxsz', 'mxwcc', 'mxscc', 'kcore', 'kcores', 'cmn', 'far', 'clo', 'ecc', 'btw', 'btw', 'pr', 'inout', 'walk', 'spv'] + (['hits'] if m else [])
    if kind != 'E':
        pool += ['cc', 'ccd', 'cct', 'ncc', 'nccs', 'tri', 'tri1', 'triv', 'tedges', 'ntri', 'ngrp', 'part', 'len2', 'ctri', 'gtri', 'uniq']
        if dense: pool += ['nccv', 'diamv', 'prv', 'btwv', 'nccv', 'triv'] + (['hitsv'] if m else [])
    if kind == 'U':
        if all(a == b for a, b in E): pool += [x for x in UN if x != 'mxbicon']
        else: pool += UN
        pool += ['degc', 'gdeg', 'gclo']
        if m and not loops: pool += ['mod', 'cnm', 'gn']
        if m: pool += ['eig']
    if kind == 'D': pool += ['tree?']
    if kind == 'E': pool += ['flow', 'flow', 'wsp', 'wsp', 'wfar', 'wclo', 'wbtw', 'wbtwn', 'wbtwe', 'wpr']
    for f in ('walk', 'spv'):
        if kind == 'E': pool = [x for x in pool if x != f]
    out = []
    while len(out) < nq:
        x = q()
        if x: out.append(x)
    return L + out
def gens(r):
    D = lambda: r.choice('UD')
    L = []
    for _ in range(3):
        k = D(); b = lambda: r.randint(0, 1)
        L.append('gen %s grid %d %d %d' % (D(), r.randint(1, 4), r.randint(1, 4), b()))
        L.append('gen %s star %d %d' % (D(), r.randint(1, 6), b()))
        n = r.randint(2, 7); L.append('gen %s circle %d %d %d' % (D(), n, r.randint(1, n - 1), b()))
        L.append('gen %s full %d' % (D(), r.randint(1, 6)))
        d = b(); L.append('gen %s gentree %d %d %d %d' % (D(), r.randint(2, 3), r.randint(1, 3), d, b() if d else 0))
        n = r.randint(2, 7); k = D(); d = b(); m = n * (n - 1) // (1 if d and k == 'D' else 2)
        L.append('gen %s gnm %d %d %d %d' % (k, n, r.randint(1, max(1, m // 2)), d, r.randint(1, 999)))
        a, c = r.randint(1, 4), r.randint(1, 4); L.append('gen X bip %d %d %d %d' % (r.randint(1, 999), a, c, r.randint(0, a * c)))
        L.append('gen X conf %d %s' % (r.randint(1, 999), ' '.join(str(r.randint(0, 4)) for _ in range(r.randint(1, 7)))))
        L.append('gen X pref %d %d %d' % (r.randint(1, 999), r.randint(2, 9), r.randint(1, 3)))
    return L
def big(kind, r):
    """A graph large enough for the bottom-up stages of the hybrid breadth-first search, and few questions about it."""
    n = r.randint(110, 190)
    sh = r.choice(['path', 'tree', 'sparse', 'star', 'two'])
    if sh == 'path': E = [(i, i + 1) for i in range(n - 1)]
    elif sh == 'tree': E = [(r.randrange(i), i) for i in range(1, n)]
    elif sh == 'sparse': E = [(r.randrange(n), r.randrange(n)) for _ in range(int(n * r.choice([.8, 1.3, 2.5])))]
    elif sh == 'star': E = [(0, i) for i in range(1, n - 10)] + [(i, i + 1) for i in range(n - 11, n - 1)]
    else: E = [(0, i) for i in range(1, n // 2)] + [(n // 2, i) for i in range(n // 2 + 1, n)] + [(1, n // 2 + 1)]
    ids = r.sample(range(r.choice([n, 3 * n])), n)
    s, F = set(), []
    for a, b in E:
        k = (min(a, b), max(a, b)) if kind == 'U' else (a, b)
        if a != b and k not in s: s.add(k); F.append((a, b))
    N = ids[:]; order = N[:]; r.shuffle(order)
    L = ['new ' + kind] + ['n %d' % i for i in order] + ['e %d %d 1' % (ids[a], ids[b]) for a, b in F]
    for _ in range(3):
        fo, fi = r.choice([(1, 0), (0, 1), (1, 1)]); t = r.choice([-1, -1, r.choice(N)]); st = r.choice([ids[0], r.choice(N)])
        if t == st: t = -1
        L.append('bfs %d %d %d %d %d %d %s' % (st, fo, fi, t, -1, r.choice([1, 1, 0]), ' '.join(str(r.choice(N)) for _ in range(3)) if t == -1 else ''))
    return L
