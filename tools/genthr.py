"""Programs for threads on locks and events, and sets of execution points, for thrdrv."""
def mon(r):
    L = ['seed %d %d' % (r.randrange(1 << 30), r.choice([0, 0, 50, 80])), 'clock %d' % r.randrange(2000000)]
    nt = r.randint(2, 5); nm = r.choice([1, 1, 2]); kind = r.choice(['free', 'free', 'pc', 'ping', 'timed', 'try'])
    if kind == 'ping':
        # everyone waits once; a notifier or several see to some of them
        w = r.randint(1, 3)
        for _ in range(w): L.append('prog ' + ' '.join(['L0'] + [r.choice(['W0.0', 'W0.0', 'D0.0.%d' % r.choice([1, 20, 300])]) for _ in range(r.randint(1, 2))] + ['U0']))
        for _ in range(r.randint(1, 2)):
            o = []
            for _ in range(r.randint(1, 4)):
                o += r.choice([['L0', 'N0.0', 'U0'], ['A0', 'N0.0', 'Z0'], ['L0', 'B0.0', 'U0'], ['Y'], ['S%d' % r.choice([0, 1, 7, 1500])], ['L0', 'N0.0', 'N0.0', 'U0']])
            L.append('prog ' + ' '.join(o))
        return L + ['mon']
    for _ in range(nt):
        o = []
        for _ in range(r.randint(1, 5)):
            m = r.randrange(nm); c = m + 2 * r.randrange(2) if r.random() < .3 else m      # an event belongs to one lock
            c = m if c >= 4 else c
            body = []
            for _ in range(r.choice([0, 1, 1, 2])):
                body.append(r.choice(['N%d.%d' % (m, c), 'B%d.%d' % (m, c), 'Y', 'S%d' % r.choice([0, 3, 999, 2500]), 'I', 'G'] +
                                     (['W%d.%d' % (m, c)] if kind in ('pc', 'free') else []) + ['D%d.%d.%d' % (m, c, r.choice([0, 1, 10, 250, 999, 1000, 5000]))] * (4 if kind == 'timed' else 1)))
            w = r.random()
            if kind == 'try' or w < .2: o += ['T%d' % m] + body + ['U%d' % m]
            elif w < .4: o += ['A%d' % m] + body + ['Z%d' % m]
            elif w < .5: o += [r.choice(['G', 'I', 'Y', 'S5', 'N%d.%d' % (m, m)])]
            else: o += ['L%d' % m] + body + ['U%d' % m]
        L.append('prog ' + ' '.join(o))
    return L + ['mon']
def points(r, n):
    return ['pt %d %d %d %d %d' % (i + 1, r.choice([0, 0, 1, 1, 2]), r.choice([-4, 0, 4, 4, 8, 9]), r.randint(0, i) if r.random() < .6 else i, r.randint(0, 4)) for i in range(n)]
def sched(r):
    L = ['seed %d %d' % (r.randrange(1 << 30), r.choice([0, 0, 0, 60, 90])), 'max %d' % r.choice([2, 2, 2, 3, 4, 0, 1, 6]), 'new']
    if r.random() < .5: L.append('pause %d' % r.randint(0, 6))
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        L += points(r, r.choice([0, 1, 2, 3, 4, 5]))
        L.append('exec %d %d' % (r.randint(0, 2), r.random() < .1))
        if r.random() < .3: L.append('pause %d' % r.randint(0, 5))
    return L + ['del']
def kind(r):
    k = r.choice('SSZPPV')
    a = {'S': [1, 8, 12, 100, 3], 'Z': [1, 12, 3], 'P': [1, 12, 40], 'V': [0, 1, 3, 4, 8, 13, 50]}[k]
    return k, r.choice(a)
def pool(r):
    k, a = kind(r); L = ['new %s %d %d' % (k, a, r.choice([1, 2, 3, 8, 32]))]
    grow = r.choice([.4, .5, .65])
    for _ in range(r.randint(5, 60)):
        w = r.random()
        if w < grow: L.append('alloc %d %d' % (r.randint(0, 1), k == 'P' and r.random() < .12))
        elif w < .85: L.append('free %d' % r.randint(0, 40))
        elif w < .87: L.append('null')
        elif w < .92: L.append('enum')
        elif w < .98: L.append('check')
        else: L.append('freeall')
    if r.random() < .3:
        n = r.choice([0, 1, 2, 3, 5, 8, 17, 33]); p = list(range(n)); r.shuffle(p)
        L.append('sort ' + ' '.join(map(str, p)))
    L += ['enum', 'check'] if r.random() < .7 else []
    return L + ['del']
def poolplan(r, b):
    k, a = kind(r); L = ['new %s %d %d' % (k, a, r.choice([1, 2, 3]))]
    for o in b: L.append({'alloc': lambda: 'alloc %d 0' % r.randint(0, 1), 'free': lambda: 'free %d' % (o[1] - 1), 'enum': lambda: 'enum', 'freeall': lambda: 'freeall'}[o[0]]())
    return L + ['check', 'enum', 'del']
