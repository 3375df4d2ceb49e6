import os, sys, json as pj
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild
R = vbuild.REPO
def hx(b):
    b = b.encode('utf8') if isinstance(b, str) else bytes(b)
    return b.hex() or '-'
# ---- configuration maps
INTS = ['0', '1', '-1', '7', '2147483647', '-2147483648', '2147483646', '100', '-99']
LONGS = INTS + ['2147483648', '-2147483649', '9223372036854775807', '-9223372036854775808', '4294967296', '5000000000', '1099511627776']
TEXTS = LONGS + ['', 'x', ' 5', '+5', '\t-3', '007', '-0', '000', '12abc', '- 3', '--3', '+', '0x10', '1e3', '3.9', '9223372036854775808', '99999999999999999999', 'true', 'false', '0;1;2', '10 20', '\u00e9', '-00012 ', '00000000000000000000012']
def conf(r):
    L = []; n = r.choice([1, 2, 2, 3])
    kinds = [r.choice(['kb', 'pm']) for _ in range(n)]
    for i, k in enumerate(kinds): L.append('cnew %d %s' % (i, k))
    keys = {'kb': r.sample(range(58), 6), 'pm': r.sample([0, 1, -1, 57, 99, 2147483647, -2147483648, 12], 5)}
    def key(o): return r.choice(keys[kinds[o]]) if r.random() < .9 else (r.randrange(40) if kinds[o] == 'kb' else 5)
    for _ in range(r.choice([5, 20, 45])):
        o = r.randrange(len(kinds)); x = r.random()
        if x < .04: L.append('ccopy %d %d' % (o, len(kinds))); kinds.append(kinds[o])
        elif x < .5:
            how = r.choice(['str', 'str', 'int', 'long', 'bool'])
            L.append('cset %d %s %d %s' % (o, how, key(o), hx({'str': r.choice(TEXTS), 'int': r.choice(INTS), 'long': r.choice(LONGS), 'bool': r.choice('01')}[how])))
        else:
            how = r.choice(['str', 'int', 'long', 'bool']); d = ' ' + hx({'int': r.choice(INTS), 'long': r.choice(LONGS), 'bool': r.choice('01'), 'str': '-'}[how]) if r.random() < .4 and how != 'str' else ''
            L.append('cget %d %s %d%s' % (o, how, key(o), d))
    for o in range(len(kinds)):
        if kinds[o] == 'kb' and r.random() < .3:
            for k in range(58): L.append('cget %d %s %d' % (o, r.choice(['str', 'long', 'int']), k))
    return L
# ---- URLs
def ub(r, n, no0=False): return bytes(r.choice([r.randrange(1, 256), r.choice(b'%%%+ aF09/&=?~-_.zZgG:')]) for _ in range(n))
def texts(r):
    L = []
    for _ in range(12):
        k = r.random(); b = ub(r, r.choice([0, 1, 2, 3, 5, 12, 40]))
        if k < .35: L.append('esc ' + hx(b + (b'\0x' if r.random() < .1 else b'')))
        elif k < .7: L.append('une ' + hx(b if r.random() < .4 else ''.join(r.choice(['%', '+', '%41', '%2B', '%7e', '%2', '%g1', '%1g', '%%41', 'a', 'Z', '%c3%a9', '%00', '%FF', '%aF', '']) for _ in range(r.choice([1, 3, 8])))))
        else:
            h = r.choice(['example.org', 'LOCALHOST', 'a', '127.0.0.1', 'Sub.Domain.NET', '']); p = r.choice(['', '', ':8080', ':80', ':1', ':65535']); q = r.choice(['', '/', '/a/b', '/A:B/c', '/sparql', '/x%20y', '/a//b', '/a:80/']); s = r.choice(['', '', '?', '?q=1', '?a=b&c=d', '?u=http://h:1/p?z', '?A:b'])
            L.append('url ' + hx(r.choice(['http', 'HTTPS', 'ftp', '']) + '://' + h + p + q + s if r.random() < .9 else r.choice(['nothing', 'A/b:c', 'http:/x', '', 'x:80'])))
    return L
# ---- JSON
STR = ['', 'a', 'name', 'value x', '"', '\\', '\\u0041', '\n\t\r', '\x01\x1f', '\u00e9\u20ac\U0001F600', '</script>', '{}', '[1]', "it's", '\x7f', 'x' * 70, '0', 'true', '"quoted"', 'a/b']
def tree(r, d, kind):
    if kind == 's': return 's ' + hx(r.choice(STR))
    if kind == 'o':
        names = r.sample([x for x in STR if x], r.choice([0, 1, 2, 3])); out = []
        for n in names:
            k = r.choice(['s', 's', 'o', 'a']) if d > 0 else 's'
            out.append(hx(n) + ' ' + tree(r, d - 1, k))
        return 'o %d %s' % (len(out), ' '.join(out))
    n = r.choice([0, 1, 2, 4]); k = r.choice(['s', 'o', 'a']) if d > 0 else 's'
    return 'a %d %s' % (n, ' '.join(tree(r, d - 1, r.choice(['o', 'a']) if k != 's' else 's') for _ in range(n)))
def val(r, d, objs=False):
    k = 'o' if objs else r.choice(['s', 's', 'n', 'n', 'o', 'a']) if d > 0 else r.choice(['s', 'n'])
    if k == 's': return r.choice(STR)
    if k == 'n': return r.choice([0, 1, -1, 42, 2147483647, -2147483648, 2147483648, 4294967295, 4294967296, 9223372036854775807, -9223372036854775808, 18446744073709551615, True, False, None])
    if k == 'o': return {n: val(r, d - 1) for n in r.sample([x for x in STR if x], r.choice([0, 1, 3]))}
    o = d > 1 and r.random() < .5
    return [val(r, d - 1 if o else 0, o) for _ in range(r.choice([0, 1, 3]))]
def jtext(r, v, top=True):
    w = lambda: r.choice(['', '', '', ' ', '\n', '\t '])
    if isinstance(v, dict): return w() + '{' + ','.join(w() + jstr(r, k) + w() + ':' + w() + jtext(r, x) for k, x in v.items()) + w() + '}' + w()
    if isinstance(v, list): return w() + '[' + ','.join(jtext(r, x) for x in v) + w() + ']' + w()
    if isinstance(v, str): return w() + jstr(r, v) + w()
    if v is None or isinstance(v, bool): return w() + pj.dumps(v) + w()
    return w() + str(v) + w()
def jstr(r, s):
    o = '"'
    for c in s:
        k = ord(c); x = r.random()
        if c in '"\\': o += '\\' + c if x < .7 else '\\u%04x' % k
        elif c in '\n\t\r' and x < .6: o += {'\n': '\\n', '\t': '\\t', '\r': '\\r'}[c]
        elif k < 32: o += '\\u%04X' % k
        elif c == '/' and x < .5: o += '\\/'
        elif k > 65535 and x < .5: o += '\\u%04x\\u%04x' % (0xd800 + ((k - 65536) >> 10), 0xdc00 + ((k - 65536) & 1023))
        elif (k > 126 and x < .4 and k < 65536) or x < .03 and k < 65536: o += '\\u%04x' % k
        else: o += c
    return o + '"'
def jsons(r):
    L = []
    for _ in range(8):
        if r.random() < .5: L.append('jw ' + tree(r, r.choice([0, 1, 2, 3]), r.choice(['o', 'o', 'a'])))
        else:
            v = {n: val(r, 2) for n in r.sample([x for x in STR if x], r.choice([0, 1, 2, 4]))} if r.random() < .7 else val(r, 2, True) if r.random() < .5 else [val(r, 0) for _ in range(3)]
            t = jtext(r, v)
            if r.random() < .25 and len(t) > 2:
                i = r.randrange(len(t)); t = r.choice([t[:i], t[:i] + t[i + 1:], t + r.choice(['x', '}', ']', ',']), t[:i] + r.choice(',:]}{["') + t[i:]])
                if not safe(t): continue
            L.append('jr ' + hx(t))
    for _ in range(3):
        op = r.choice(['lf', 'lp']); sep = r.choice(',;\t')
        n = lambda: r.choice(LONGS + (['x', ''] if r.random() < .03 else []))
        L.append(op + (' %d ' % ord(sep) if op == 'lp' else ' ') + ' '.join(hx(n() if op == 'lf' else n() + sep + n()) for _ in range(r.choice([1, 2, 6]))))
    return L
def safe(t):
    """a mutated text is used when it is no JSON at all, or still an object or a list of one kind"""
    try: t.encode('utf8')
    except UnicodeError: return False
    try: v = pj.loads(t)
    except ValueError: return True
    def ok(v, top=False):
        if isinstance(v, float): return False
        if isinstance(v, dict): return all(k and ok(x) for k, x in v.items())
        if isinstance(v, list): return all(isinstance(x, dict) and ok(x) for x in v) or not any(isinstance(x, (dict, list)) for x in v) and all(ok(x) for x in v)
        return True
    def dup(pairs):
        if len(set(k for k, _ in pairs)) < len(pairs): raise KeyError
        return dict(pairs)
    try: pj.loads(t, object_pairs_hook=dup)
    except KeyError: return False
    return isinstance(v, (dict, list)) and ok(v) and not pj.dumps(v).count('-0')
# ---- HTTP
def cut(r, b):
    k = r.random()
    if k < .25: return [b]
    n = r.choice([1, 1, 2, 4]); at = sorted(set(r.randrange(1, len(b)) for _ in range(n)))
    i = b.find(b'\r\n\r\n')
    if k < .7: at = sorted(set(at + [x for x in [r.choice([i, i + 1, i + 2, i + 3, i + 4])] if 0 < x < len(b)]))
    o = []; p = 0
    for x in at + [len(b)]: o.append(b[p:x]); p = x
    return [x for x in o if x]
def blob(r, n): return bytes(r.choice(b'abcdefgh =&+%\r\n') for _ in range(n))
SIZES = [0, 1, 3, 4, 5, 20, 100, 900, 1000, 1023, 1024, 1025, 2000, 2047, 2048]
def reqs(r):
    L = []
    for _ in range(3):
        head = b'X-Pad: ' + b'p' * r.choice([0, 1, 50, 700, 900, 960, 1000, 1300]) + b'\r\n' if r.random() < .6 else b''
        cl = r.choice([b'Content-Length: %d', b'Content-Length: %d', b'content-length: %d', b'Content-Length:%d'])
        if r.random() < .75:
            body = blob(r, r.choice(SIZES) if r.random() < .7 else r.randrange(1200))
            m = b'POST /sparql HTTP/1.1\r\nHost: h\r\n' + head + cl % len(body) + b'\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\n' + body
        else: m = b'GET /' + b'u' * r.choice([0, 5, 300, 1000, 1100]) + b' HTTP/1.1\r\n' + head + b'Host: h\r\n\r\n'
        if r.random() < .3:         # the end of the head or the body at the end of a buffer
            i = m.find(b'\r\n\r\n') + r.choice([0, 1, 2, 3, 4]); want = 1024
            if i < want - 9: m = m.replace(b' HTTP/1.1\r\n', b' HTTP/1.1\r\nX: ' + b'y' * (want - i - 5) + b'\r\n', 1)
        s = cut(r, m); L.append('srv %s %d %s' % (hx(b'HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok' if r.random() < .8 else b'r' * r.choice([1, 3000])), len(s), ' '.join(hx(x) for x in s)))
    return L
def clis(r):
    L = []
    for _ in range(3):
        body = blob(r, r.choice(SIZES) if r.random() < .7 else r.randrange(1200)); st = b'200 OK' if r.random() < .9 else r.choice([b'404 Not Found', b'500 Oops', b'204 None'])
        pad = b'X-Pad: ' + b'p' * r.choice([0, 40, 900, 1000, 1500]) + b'\r\n' if r.random() < .5 else b''
        if r.random() < .5:
            m = b'HTTP/1.1 ' + st + b'\r\n' + pad + r.choice([b'Content-Length: %d', b'content-length: %d', b'CONTENT-LENGTH:%d']) % len(body) + b'\r\nServer: x\r\n\r\n' + body
        else:
            ch = b''; p = 0
            while p < len(body): n = r.choice([1, 7, 64, 300, 1024]); ch += (b'%x' if r.random() < .7 else b'%X') % len(body[p:p + n]) + b'\r\n' + body[p:p + n] + b'\r\n'; p += n
            m = b'HTTP/1.1 ' + st + b'\r\n' + pad + r.choice([b'Transfer-Encoding: chunked', b'transfer-encoding: chunked']) + b'\r\n\r\n' + ch + b'0\r\n\r\n'
        s = cut(r, m); k = r.choice(['get', 'get', 'post', 'raw']); ps = {r.choice(['', 'q', 'query', 'a']): blob(r, r.choice([0, 3, 30, 1500])) for _ in range(r.choice([0, 1, 2]))} if k == 'post' else {'': blob(r, r.choice([0, 5, 1500]))} if k == 'raw' else {}
        acc = r.choice(['', 'application/json']) if k == 'get' else r.choice(['application/x-www-form-urlencoded', 'text/plain'])
        L.append('cli %s %s %s %d %s %d %s' % (k, hx(r.choice(['/', '/a?b=c', '/x%20'])), hx(acc), len(ps), ' '.join(hx(a) + ' ' + hx(b) for a, b in ps.items()), len(s), ' '.join(hx(x) for x in s)))
    return L
# ---- files and tasks
def files(r):
    L = []; big = r.random() < .3; n = 4096 + r.choice([1, 50, 4096, 5000]) if big else r.choice([1, 2, 40, 300])
    L.append('fnew 0 ' + hx(blob(r, n)))
    for _ in range(r.choice([2, 5, 9])):
        st = r.choice([-1, 0] + ([1] if n > 4096 else []))
        if r.random() < .5:
            at = r.randrange(max(0, st) * 4096, n); k = min(n - at, r.choice([1, 3, 30])); L.append('fput 0 %d %s %d %d' % (at, hx(blob(r, k)), st, r.choice([0, 1, 2])))
        else: L.append('fget 0 %d %d' % ((max(st, 0), r.choice([2, 3])) if r.random() < .6 else (0, r.choice([0, 1]))))
    return L + ['fget 0 0 0']
def tasks(r):
    L = []
    for _ in range(3): L.append('sort %d %d %d %d %d' % (r.choice([1, 2, 3, 4, 8, -1][:5]), r.choice([0, 1]), r.choice([0, 1, 2, 100, 1024, 1025, 1026, 2500]), r.choice([2, 50, 100000]), r.randrange(1 << 30)))
    for _ in range(6):
        b = r.choice([0, 0, 0, 1, 5, 100]); L.append('pfor %d %d %d %d' % (b, b + r.choice([0, 1, 2, 3, 7, 8, 9, 64, 100, 1000]), r.choice([1, 1, 2, 10, 100]), r.choice([1, 2, 3, 4, 7, 16])))
    L.append('queue %d %d %d' % (r.choice([1, 2, 4]), r.choice([1, 2, 4]), r.choice([1, 10, 60])))
    return L
def fn(c):
    b = vbuild.build('utildrv', vbuild.VERIF + '/drivers/utildrv.cpp', [], extra=vbuild.g('src/trident/utils/*.cpp', 'src/trident/kb/kbconfig.cpp') + [vbuild.VERIF + '/shim/shim.cpp'])
    c.model('MCUtil')
    m = 8 if c.thorough else 1
    S = []
    for nm, f, n in (('conf', conf, 260), ('text', texts, 200), ('json', jsons, 260), ('req', reqs, 60), ('cli', clis, 60), ('file', files, 50), ('task', tasks, 60)):
        r = c.rng(nm); S += [('%s%d' % (nm, i), f(r)) for i in range(n * m)]
    c.rng('mix').shuffle(S)
    c.bind('utils', b, S, 'TraceUtil.tla', sig=lambda e, evs, lines: e['op'])
    c.assumptions += ['TLC and the JSON bridge', 'one HTTP request per connection at a time', 'JSON texts without duplicate names, mixed lists and fractions', 'shim/ stands in for the KOGNAC library']
vrun.main('C17', fn)
