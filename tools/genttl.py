"""Turtle documents: TLC's token sequences laid out as text.  Nothing here knows what a document means; the specification reads
the text itself."""
NAMES = ['p', 'ex', 'rdf', 'x1', 'a1', 'tr', 'truex', 'falsey', 'A', 'e', 'n-1', 'Zz_9', 'aa', '_p']
LOCALS = ['x', 'a', 'true', 'false', 'b', 'Node_1', 'x-y', '_', '_0', 'prefix', 'e10', 'T', 'q' * 40]
URIS = ['http://ex.org/', 'http://a/b#', 'https://x.y/z?q=1', 'u', 'r/1', '', '#f', 'urn://x', 'http://www.w3.org/2001/XMLSchema#', 'http://www.w3.org/1999/02/22-rdf-syntax-ns#', 'http://\u00e9/\U0001F600', 'a b', 'x>y']
TYPES = ['string', 'integer', 'decimal', 'double', 'boolean', 'date', 'int']
STRS = ['', 's', 'hello world', 'a"b', 'a""b', '\\', 'tab\tnl\nend', 'cr\rx', '\u00e9\u20ac\U0001F600', '# no comment', '<x>', '. ; ,', '@en', '^^', "it's", 'x' * 60, '"x', '\u07ff\u0800\uffff\U00010000\U0010FFFF', '\x7f\x80']
def esc(r, s, end, multi):
    o = ''
    for i, c in enumerate(s):
        k = ord(c)
        if c == '\\' or c == end or (c == '\n' and not multi) or (c == '\r'):
            if c == '"' and multi and s[i + 1:i + 2] not in ('', '"') and s[max(0, i - 1):i] != '"' and r.random() < .7: o += c
            elif r.random() < .3: o += '\\u%04X' % k
            else: o += {'\\': '\\\\', '"': '\\"', '>': '\\>', '\n': '\\n', '\r': '\\r'}[c]
        elif c == '\t' and r.random() < .5: o += '\\t'
        elif k > 127 and r.random() < .5: o += ('\\u%04x' if r.random() < .5 else '\\u%04X') % k if k < 65536 else '\\U%08X' % k
        elif r.random() < .03: o += '\\u%04X' % k if r.random() < .5 else '\\U%08x' % k
        elif c == '"' and end == '>' and r.random() < .3: o += '\\"'
        else: o += c
    return o
def word(b): return bytes(b).decode('latin1')
class Doc:
    def __init__(self, r):
        self.r = r; self.m = {}
    def name(self, kind, v, pool):
        k = (kind, v)
        if k not in self.m: self.m[k] = self.r.choice(pool)
        return self.m[k]
    def text(self, t):
        r = self.r; k = t['t']; v = word(t['v']); p = word(t['p'])
        if k == 'uri':
            c = '|' + v + (r.choice('123') if r.random() < .5 else '')
            return '<' + esc(r, self.name('u', c, URIS + ['http://www.w3.org/2001/XMLSchema#' + x for x in r.sample(TYPES, 2)]), '>', False) + '>'
        if k == 'pn':
            pre = '' if p == '' else {'p': self.name('n', 'p', NAMES[:7]), 'q': self.name('n', 'q', NAMES[7:])}[p]
            return pre + ':' + (v and self.name('l', v + r.choice('12'), LOCALS + TYPES))
        if k == 'bl': return '_:' + self.name('b', v, LOCALS[:10] + ['_1', '_2', 'genid'])
        if k == 'at': return '@' + (v if v in ('prefix', 'base') else r.choice(['en', 'en-US', 'de', 'x-1', 'nl', 'prefix']))
        if k == 'str':
            s = self.name('s', v + r.choice('123'), STRS) if v or r.random() < .5 else ''
            return '"""' + esc(r, s, '"', True) + '"""' if r.random() < .35 else '"' + esc(r, s, '"', r.random() < 0) + '"'
        if k == 'int': return r.choice(['0', '1', '42', '-7', '+5', '007', '123456789012345678901234567890'])
        if k == 'dec': return r.choice(['1.5', '-0.5', '.5', '+1.25', '10.00', '3.14159'])
        if k == 'dbl': return r.choice(['1e5', '1.5E-3', '-2e+10', '1e0', '.5e1', '4.E2'])
        if k == 'bool': return r.choice(['true', 'false'])
        return k
WORDY = {'pn', 'bl', 'a', 'bool', 'at', 'int', 'dec', 'dbl'}
NUM = {'int', 'dec', 'dbl'}
def needsep(a, at, b, bt):
    x = bt[0]
    if a['t'] in WORDY and (x.isalnum() or x in '_+-:@^'): return True
    if a['t'] in WORDY and x == '.' and len(bt) > 1: return True
    if a['t'] == '.' and x.isdigit(): return True
    if a['t'] == 'str' and b['t'] == 'str': return True
    if a['t'] == 'pn' and a['v'] == [] and x.isalnum(): return True
    return False
SEPS = [' ', ' ', ' ', '\n', '\t', '\r\n', '  ', ' # c\n', '#\n', '#"<\r', '\n\n', '# a ex:b "c" .\n', '#' + 'x' * 50 + '\n']
def layout(r, toks, glue):
    d = Doc(r); out = r.choice(['', '', ' ', '\n', '# first\n']); prev = None; dotted = False
    for t in toks:
        x = d.text(t)
        if prev is not None and not (r.random() < glue and not needsep(prev[0], prev[1], t, x)) or dotted: out += r.choice(SEPS)
        dotted = x == '.' and prev is not None and prev[0]['t'] in NUM
        out += x; prev = (t, x)
    return out + r.choice(['', '', '\n', ' ', '# end', '#end\n', '\n\n'])
BAD = [b'"', b'"x', b'"""x""', b'<x', b'^', b'!', b'"\\q"', b'"\\u12g4"', b'<\\x>', b'"\\U0001"', b'1e', b'+', b'-x', b'{', b'nope nope', b'"a\\']
def mutate(r, toks):
    toks = list(toks); k = r.random(); i = r.randrange(len(toks))
    if k < .35: del toks[i]
    elif k < .55: toks.insert(i, r.choice(toks))
    elif k < .8: toks[i] = {'t': r.choice(['.', ',', ';', '[', ']', '(', ')', '^^', 'a', 'int', 'str', 'bool']), 'v': [], 'p': []}
    else: j = r.randrange(len(toks)); toks[i], toks[j] = toks[j], toks[i]
    return toks
def doc(r, toks):
    k = r.random()
    if k > .7: toks = mutate(r, toks)
    s = layout(r, toks, r.choice([0, .5, .9, 1])).encode('utf8')
    if .6 < k < .65: s = s[:r.randrange(len(s) + 1)]
    elif .65 < k < .7:
        b = r.choice(BAD); i = r.choice([j for j in range(len(s) + 1) if j == 0 or s[j - 1:j] in (b' ', b'\n')]) if 1 else 0
        s = s[:i] + b + b' ' + s[i:]
    if r.random() < .12:          # across the ends of the reader's buffer
        want = 1024 * r.choice([1, 1, 2]); cut = len(s) if r.random() < .4 else r.randrange(len(s) + 1)
        n = want - cut
        if n > 1: s = (b'#' + bytes(r.choice(b'ab .') for _ in range(n - 2)) + b'\n' if r.random() < .5 else b' ' * n) + s
    return s
