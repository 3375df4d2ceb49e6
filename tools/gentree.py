"""Scripts for the tree driver."""
def hx(b): return 'x' + b.hex()
def wlines(ws): return ['W %s %d %d %s' % (hx(p), pad, n, hx(s)) for p, pad, n, s in ws]
def vocabulary(r, n, big=False):
    """words with long common prefixes, of every length, with any bytes but the end of line"""
    out, seen = [], set()
    pre = [b'', b'<http://example.org/', b'<http://example.org/a/very/long/path/that/repeats#', b'"\xc3\xa9\xff ', bytes([1, 2, 3, 4, 5, 6]), b'\xff\xfe\xfd\xfc\xfb\xfa']
    while len(out) < n:
        p = r.choice(pre); s = b''
        if r.random() < .3 and out: p = r.choice(out)[0]
        k = r.choice([0, 0, 1, 2, 5, 20, 120, 127, 128, 300] + ([1500, 3000, 8000] if big else []))
        if r.random() < .1: k = r.choice([126, 127, 128, 129, 255, 256])
        s = r.choice([b'', b'%d' % r.randrange(40), b'%d' % r.randrange(100000), b'>', b' x', bytes([r.choice([1, 31, 127, 128, 200, 255])])])
        w = (p, r.choice([97, 98, 120, 201, 254]), k, s)
        body = p + bytes((w[1] + (0 if w[1] > 200 else i % 3)) & 255 for i in range(k)) + s
        if body in seen or (b'\n' in body) or not body: continue
        seen.add(body); out.append(w)
    return out
def text(w): return w[0] + bytes((w[1] + (0 if w[1] > 200 else i % 3)) & 255 for i in range(w[2])) + w[3]
def numbers(r, n):
    k = r.random(); S = set()
    if k < .25: a = r.choice([0, 1, 250, 2 ** 31, 2 ** 32 - 3, 2 ** 39]); S = set(range(a, a + n))
    elif k < .45: st = r.choice([2, 3, 16, 255, 256, 257, 1000]); a = r.randrange(1000); S = set(a + st * i for i in range(n))
    elif k < .65:
        while len(S) < n: a = r.randrange(10 ** 6); S |= set(range(a, a + r.randint(1, 8)))
    else:
        while len(S) < n: S.add(r.randrange(r.choice([100 + 2 * n, 70000, 2 ** 33])))
    return sorted(S)[:n]
def config(r, kind):
    o = {}
    if r.random() < .85: o['el'] = r.choice([4, 4, 6, 8, 10, 16, 32])
    if r.random() < .8: o['nodes'] = r.choice([4, 5, 8, 50, 1000])
    if r.random() < .3: o['minb'] = r.choice([1, 64, 512])
    if r.random() < .4: o['fmax'] = r.choice([300, 1000, 10000])
    if r.random() < .3: o['nf'] = r.choice([2, 3, 10])
    if r.random() < .2: o['comp'] = 1
    if r.random() < .3: o['sbc'] = r.choice([5, 6, 20])
    return o
def opt(o): return ' '.join('%s=%d' % x for x in sorted(o.items()))
def order(r, n):
    q = list(range(n)); k = r.random()
    if k < .25: pass
    elif k < .35: q.reverse()
    elif k < .55: q = q[::2] + q[1::2]
    elif k < .75:
        c = r.randint(2, 9); bl = [q[i:i + c] for i in range(0, n, c)]; r.shuffle(bl); q = [x for b in bl for x in b]
    else: r.shuffle(q)
    return q
def maps(r, kind, n):
    N = numbers(r, n + 6); o = config(r, kind); o['nc'] = 40
    L = ['N ' + ' '.join(map(str, N)), 'cfg %s %s' % (kind, opt(o)), 'open rw']
    q = order(r, len(N)); absent = set(r.sample(q, 6)); q = [x for x in q if x not in absent]
    mono = q == sorted(q); val = lambda: r.randrange(len(N)) if kind == 'num' else r.randrange(40)
    for j, k in enumerate(q):
        L.append('%s %d %d' % ('app' if mono and r.random() < .5 else 'put', k, val()))
        if r.random() < .08: L.append('get %d' % r.choice(q[:j + 1] if r.random() < .8 else sorted(absent)))
        if not mono and r.random() < .05: L.append('put %d %d' % (r.choice(q[:j + 1]), val()))
    if r.random() < .3: L.append('iter')
    L += ['close', 'open ro']
    for _ in range(r.randint(1, 3)): L.append(r.choice(['iter', 'get %d' % r.choice(q)]))
    L += ['get %d' % k for k in r.sample(range(len(N)), min(len(N), 60))] + ['get %d' % k for k in sorted(absent)]
    L.append('iter')
    if r.random() < .3: L += ['close', 'open ro', 'iter']
    return L
def dictionary(r, n, big=False):
    ws = vocabulary(r, n + 5, big); N = numbers(r, n); o = config(r, 'dict')
    L = wlines(ws) + ['N ' + ' '.join(map(str, N)), 'cfg dict ' + opt(o), 'open rw']
    wq = list(range(len(ws))); r.shuffle(wq); absent = sorted(wq[:5]); wq = wq[5:]
    srt = sorted(wq, key=lambda i: text(ws[i])); k = r.random()
    if k < .5: wq = srt
    elif k < .6: wq = srt[::-1]
    elif k < .8: wq = srt[::2] + srt[1::2]
    iq = order(r, len(wq)); appd = wq == srt and r.random() < .4
    ups = r.random() < .4
    for j, (w, i) in enumerate(zip(wq, iq)):
        L.append('%s %d %d' % ('dapp' if appd else 'dset' if ups else 'dput', w, i))
        if r.random() < .06 and not appd: L.append('dput %d %d' % (r.choice(wq[:j + 1]), r.randrange(n)))
        if r.random() < .08: L.append('dget %d' % r.choice(wq[:j + 1] + absent))
        if r.random() < .05: L.append('dtext %d' % r.choice(iq[:j + 1]))
    L += ['close', 'open ro']
    L += ['dget %d' % w for w in wq + absent] + ['iter'] + ['dtext %d' % i for i in r.sample(range(n), min(n, 60))]
    if r.random() < .3: L += ['close', 'open ro', 'iter', 'dget %d' % wq[0]]
    return L
def buffer(r, n, big=True):
    ws = vocabulary(r, r.randint(5, 40), big); o = {'sbc': r.choice([5, 6, 64]), 'sbf': r.choice([1, 2, 10])}
    fit = r.random() < .4
    srt = sorted(range(len(ws)), key=lambda i: text(ws[i]))
    L = []; seq = []; body = []
    for j in range(n):
        w = srt[(j * len(srt)) // n] if r.random() < .5 else r.randrange(len(ws))
        if fit and j == n - 1: break
        body.append('sapp %d' % w); seq.append(w)
        if r.random() < .1: body.append('sget %d' % r.randrange(len(seq)))
        if r.random() < .1: body.append('scmp %d %d' % (r.randrange(len(seq)), r.randrange(len(ws))))
    tail = ['close', 'open ro']
    for _ in range(min(200, 2 * len(seq))):
        if r.random() < .6: tail.append('sget %d' % r.randrange(len(seq)))
        else:
            k = r.randrange(len(seq)); tail.append('scmp %d %d' % (k, seq[k] if r.random() < .5 else r.randrange(len(ws))))
    tail.append('sget %d' % (len(seq) - 1))
    return wlines(ws) + ['cfg sb ' + opt(o), 'open rw'] + body + tail
def exact(r):
    """words that fill a block of 65536 bytes to the byte, or miss it by little"""
    short = [(b'a', 98, 0, b''), (b'b', 98, 3, b''), (b'c', 99, 1, b'')]
    L = []; used = 0; ws = []; seq = []; blocks = r.choice([1, 1, 2])
    size = lambda n: (1 if n < 128 else 2 if n < 16384 else 3) + 1 + n
    target = 65536 * blocks + r.choice([0, 0, 0, -1, 1, -2, 2, 3])
    k = 0
    while target - used > 16000:
        n = r.randint(7000, 9000); p = bytes([200 - k % 100, 33 + k % 90]) ; ws.append((p, 97, n - 2, b'')); used += size(n); k += 1
    rest = target - used; n = rest - 3
    ws.append((b'\x01\x02', 97, n - 2, b''))
    for i in range(len(ws)): seq.append(i)
    if r.random() < .3: ws += short; seq += [len(ws) - 1, len(ws) - 3]
    L = wlines(ws) + ['cfg sb sbc=%d' % r.choice([5, 64]), 'open rw'] + ['sapp %d' % w for w in seq] + ['close', 'open ro'] + ['sget %d' % i for i in range(len(seq))] + ['scmp %d %d' % (i, seq[i]) for i in range(len(seq))]
    return L
