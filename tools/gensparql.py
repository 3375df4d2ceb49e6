"""Query texts: from a grammar, with tokens dropped, doubled, swapped and replaced, laid out at random; and texts that are
just pieces of tokens.  Nothing here knows what a text means; the specification reads the text itself."""
hexs = lambda s: s.encode('latin1').hex()
KWS = ['select', 'prefix', 'where', 'distinct', 'optional', 'filter', 'union', 'minus', 'bind', 'values', 'as', 'group', 'by', 'having', 'order', 'limit', 'offset', 'asc', 'desc', 'not', 'in', 'exists',
       'count', 'min', 'max', 'sum', 'avg', 'sample', 'group_concat', 'separator', 'str', 'lang', 'datatype', 'bound', 'regex', 'replace', 'contains', 'true', 'false', 'construct', 'reduced', 'duplicates', 'a',
       'isiri', 'isuri', 'isblank', 'isliteral', 'langmatches', 'sameterm', 'xsd', 'decimal', 'string', 'double', 'float']
IRIS = ['<http://ex.org/a>', '<u>', '<http://a/b#c>', '<>', '<select>', '<optional>', '<a\\>b>', '<x\\\\y>', '<urn:x?q=1&r=2>', '<filter>', '<http://e/\\u00e9>', "<it's>", '<a,b;c.d>']
VARS = ['?x', '?y', '?z', '$x', '?s', '?p', '?o', '?select', '?optional', '$where', '?filter', '?Filter', '?_1', '?9', '?union', '?a_b', '?X', '?as', '?limit', '?order', '?not', '?in']
STRS = ['"s"', "'s'", '""', "''", '"a\\"b"', '"\\t\\n\\r\\b\\f"', '"\\\\"', '"\\\\n"', "'it\\'s'", '"it\'s"', '"two\nlines"', '"# no comment"', '"<x>"', '"?x"', '"select"', "'optional'", '"\\\\\\t"', '"\\x\\\'"', '"{ } ."', '"\xe9\xff"', '"\\u0041"', '"a.b"', '"..."', '"\\.\\n\\\\"']
INTS = ['0', '1', '42', '007', '10', '3', '99999999999', '214748364']
DECS = ['1.5', '0.0', '5.', '3.14159']
NAMES = ['ex', 'p', 'e-x', 'a.b', 'Ex', 'aa', 'order', 'p2', 'q_', 'o']
LOCALS = ['x', 'y', 'n1', 'x-y', 'a.b', 'a', 'select', 'Optional', 'x_1', 'filter', 'q-1.2']
class Q:
    def __init__(s, r): s.r = r; s.t = []; s.pre = []; s.left = r.choice([6, 14, 30, 60]); s.wild = r.random() < .3
    def kw(s, *ws):
        for w in ws:
            x = s.r.random()
            s.t.append(w if x < .5 else w.upper() if x < .75 else w.capitalize() if x < .9 else ''.join(s.r.choice((c, c.upper())) for c in w))
    def put(s, *ts): s.t += ts
    def chance(s, p): return s.r.random() < p
    def var(s): return s.r.choice(VARS[:7] if s.chance(.7) else VARS)
    def pname(s):
        if not s.pre: return [s.r.choice(IRIS)]
        return [s.r.choice(s.pre), ':', s.r.choice(LOCALS)]
    def lit(s):
        s.put(s.r.choice(STRS)); x = s.r.random()
        if x < .2: s.put('@', s.r.choice(['en', 'de', 'en-US', 'select']))
        elif x < .4: s.put('^^', s.r.choice(IRIS)) if s.chance(.5) or not s.pre else s.put('^^', *s.pname())
    def iri(s): s.put(*(s.pname() if s.chance(.5) else [s.r.choice(IRIS)]))
    def blank(s):
        x = s.r.random()
        if x < .4 or s.left <= 0: s.put('_', ':', s.r.choice(['b', 'c', 'b-1']))
        elif x < .6: s.put(s.r.choice(['[]', '[ ]', '[\n]']))
        else:
            s.left -= 1; s.put('['); s.verb(); s.obj(); s.rest(); s.put(']')
    def verb(s):
        x = s.r.random()
        if x < .35: s.put(s.var())
        elif x < .5: s.put('a')
        elif x < .98: s.iri()
        else: s.blank()
    def subj(s):
        x = s.r.random()
        if x < .6: s.put(s.var())
        elif x < .8: s.iri()
        elif x < .96: s.blank()
        else: s.lit()
    def obj(s):
        x = s.r.random()
        if x < .45: s.put(s.var())
        elif x < .6: s.iri()
        elif x < .75: s.blank()
        else: s.lit()
    def rest(s):
        while s.left > 0 and s.chance(.3):
            s.left -= 1
            if s.chance(.5): s.put(';'); s.verb(); s.obj()
            else: s.put(','); s.obj()
    def triples(s):
        s.left -= 1; s.subj(); s.verb(); s.obj(); s.rest()
    def expr(s, d=0):
        s.left -= 1; x = s.r.random()
        if s.left < 0 or d > 5 or x < .3: return s.atom(d)
        if x < .62:
            op = s.r.choice(['||', '&&', '=', '!=', '<', '<=', '>', '>=', '+', '-', '*', '/'])
            f = s.side if op[0] in '=!<>' and s.chance(.9) else s.expr
            f(d + 1); s.put(op); f(d + 1)
        elif x < .72: s.put(s.r.choice('!+-')); s.atom(d)
        elif x < .78:
            s.side(d + 1); s.kw('not', 'in'); s.put('(')
            for i in range(s.r.randint(1, 3)):
                if i: s.put(',')
                s.lit() if s.chance(.5) else s.iri()
            s.put(')')
        elif x < .9: s.put('('); s.expr(d + 1); s.put(')')
        else: s.call(d)
    def side(s, d):
        x = s.r.random()
        if x < .3 and s.left > 0: s.put('('); s.expr(d); s.put(')')
        elif x < .5: s.atom(d); s.put(s.r.choice('+-*/')); s.atom(d)
        else: s.atom(d)
    def atom(s, d):
        x = s.r.random()
        if x < .35: s.put(s.var())
        elif x < .5: s.lit()
        elif x < .6: s.iri()
        elif x < .68: s.put(s.r.choice(INTS))
        elif x < .72: s.put(s.r.choice(DECS))
        elif x < .78: s.kw(s.r.choice(['true', 'false']))
        elif d > 5 or s.left < 0: s.put(s.var())
        else: s.call(d)
    def args(s, d, n):
        s.put('(')
        for i in range(n):
            if i: s.put(',')
            s.expr(d + 1)
        s.put(')')
    def call(s, d):
        x = s.r.random(); r = s.r
        if x < .25: s.kw(r.choice(['str', 'lang', 'datatype', 'isiri', 'isuri', 'isblank', 'isliteral'])); s.args(d, 1)
        elif x < .33: s.put('xsd' if s.chance(.8) else 'XSD', ':'); s.kw(r.choice(['decimal', 'double', 'float', 'string', 'string'])); s.args(d, 1)
        elif x < .55: f, n = r.choice([('contains', 2), ('langmatches', 2), ('sameterm', 2), ('regex', 2), ('regex', 3), ('replace', 2), ('replace', 3), ('replace', 4)]); s.kw(f); s.args(d, n if s.chance(.9) else r.randint(1, 5))
        elif x < .63: s.kw('bound'); s.put('(', s.var(), ')')
        elif x < .70: s.put(r.choice(IRIS)); s.args(d, r.randint(0, 3))
        elif x < .92: s.aggr(d)
        elif d <= 2: s.kw('not', 'exists'); s.put('{'); s.query() if s.chance(.2) else s.items(); s.put('}')
        else: s.put(s.var())
    def aggr(s, d):
        f = s.r.choice(['min', 'max', 'sum', 'avg', 'sample', 'count', 'group_concat', 'count']); s.kw(f); s.put('(')
        if s.chance(.3): s.kw('distinct')
        if f == 'count' and s.chance(.4): s.put('*')
        else: s.expr(d + 1)
        if f == 'group_concat' and s.chance(.6): s.put(';'); s.kw('separator'); s.put('=', s.r.choice(STRS))
        s.put(')')
    def constraint(s):
        x = s.r.random()
        if x < .6: s.put('('); s.expr(); s.put(')')
        elif x < .9: s.call(0)
        else: s.put(s.r.choice(IRIS)); s.args(0, s.r.randint(0, 2))
    def values(s):
        n = s.r.choice([1, 1, 2, 2, 3]); v = [s.var() for _ in range(n)]
        single = n == 1 and s.chance(.7)
        s.put(*(v if single else ['('] + v + [')'])); s.put('{')
        for _ in range(s.r.randint(0, 3)):
            if not single: s.put('(')
            for _ in range(n if s.chance(.96) else s.r.randint(0, 4)): s.lit() if s.chance(.5) else s.iri() if s.chance(.97) else s.put(s.var())
            if not single: s.put(')')
        s.put('}')
    def group(s): s.put('{'); s.items(); s.put('}')
    def items(s):
        n = s.r.choice([0, 1, 1, 2, 2, 3, 4]); first = True
        if s.left > 3 and s.chance(.06): return s.query()
        while n > 0:
            n -= 1; s.left -= 1; x = s.r.random()
            if s.left < 0 and not first: return
            if x < .5 or s.left < 0:
                s.triples()
                if n or s.chance(.4): s.put('.')
            else:
                if x < .57: s.kw('optional'); s.group()
                elif x < .62: s.kw('minus'); s.group()
                elif x < .75: s.kw('filter'); s.constraint()
                elif x < .82: s.kw('bind'); s.put('('); s.expr(); s.kw('as'); s.put(s.var(), ')')
                elif x < .88: s.kw('values'); s.values()
                else:
                    s.group()
                    while s.chance(.5): s.kw('union'); s.group()
                if s.chance(.3): s.put('.')
            first = False
    def query(s):
        r = s.r; s.left -= 1
        if s.chance(.05):
            s.kw('construct'); s.put('{'); s.left = min(s.left, 5)
            for _ in range(r.randint(1, 2)): s.triples(); s.put('.')
            s.put('}')
        else:
            s.kw('select')
            if s.chance(.25): s.kw(r.choice(['distinct', 'distinct', 'reduced', 'count', 'duplicates']))
            if s.chance(.35): s.put('*')
            else:
                for _ in range(r.randint(1, 3)):
                    if s.chance(.25): s.put('('); (s.aggr(0) if s.chance(.6) else s.expr(2)); s.kw('as'); s.put(s.var(), ')')
                    else: s.put(s.var())
        if s.chance(.8): s.kw('where')
        s.group()
        if s.chance(.2):
            s.kw('group', 'by')
            for _ in range(r.randint(1, 2)):
                x = r.random()
                if x < .5: s.put(s.var())
                elif x < .65: s.call(3)
                elif x < .75: s.put(r.choice(IRIS)); s.chance(.5) and s.args(4, 1)
                else:
                    s.put('('); s.expr(3)
                    if s.chance(.6): s.kw('as'); s.put(s.var())
                    s.put(')')
        if s.chance(.12):
            s.kw('having')
            for _ in range(r.randint(1, 2)): s.constraint()
        if s.chance(.25):
            s.kw('order', 'by')
            for _ in range(r.randint(1, 3)):
                x = r.random()
                if x < .4: s.put(s.var())
                elif x < .7: s.kw(r.choice(['asc', 'desc'])); s.put('('); s.expr(3); s.put(')')
                else: s.constraint()
        ls = [x for x in ['limit', 'offset'] if s.chance(.2)]; r.shuffle(ls)
        if ls and s.chance(.05): ls.append(ls[0])
        for l in ls: s.kw(l); s.put(r.choice(INTS + ['5', '7', '20']))
    def whole(s):
        for n in s.r.sample(NAMES, s.r.choice([0, 1, 1, 2, 3])):
            s.kw('prefix'); s.put(n, ':', s.r.choice(IRIS)); s.pre.append(n)
        if s.chance(.15): s.kw('prefix'); s.put('xsd', ':', '<http://www.w3.org/2001/XMLSchema#>'); s.pre.append('xsd')
        s.query()
        return s.t
PIECES = ['?', '$', '"', "'", '<', '>', '\\', '^', '^^', '|', '||', '&', '&&', '!', '!=', '=', '<=', '>=', '.', '..', '-', '_', ':', ';', ',', '{', '}', '(', ')', '[', ']', '[ ]', '@', '+', '*', '/', '#', '#c\n', '\n', '\r', '\t', ' ', '\f', '1', '12', '1.', '1.5.', '5', 'a', 'ab.', 'a..', 'a.b', 'a-', 'a-.', 'x_1', 'Select', '\xe9', '\x01', '\x7f', '~', '%', '\\"', "\\'", '\\\\', '\\n', '\\t', '\\>', '`']
def layout(r, toks):
    o = r.choice(['', '', ' ', '\n', '# c\n']); glue = r.choice([0, .1, .5, 1])
    for i, t in enumerate(toks):
        if i:
            a, b = toks[i - 1][-1], t[0]
            wordy = lambda c: c.isalnum() or c in '_-.?$'
            close = not (wordy(a) and wordy(b)) and not (a in '<>=!|&^' or b == '<' or (a.isdigit() and b == '.') or (b == '#'))
            if (close and r.random() < glue) or r.random() < .002: pass
            else: o += r.choice([' ', ' ', ' ', '\n', '\t', '\r\n', '  ', ' #c ?x }\r', '#\n', ' # "\n\n', '\f'])
        o += t
    return o + r.choice(['', '', ' ', '\n', '#', ' # end'])
def mutate(r, t):
    t = list(t)
    for _ in range(r.choice([1, 1, 2, 3])):
        if not t: break
        i = r.randrange(len(t)); x = r.random()
        if x < .3: del t[i]
        elif x < .45: t.insert(i, t[i])
        elif x < .55: j = r.randrange(len(t)); t[i], t[j] = t[j], t[i]
        elif x < .7: t.insert(i, r.choice(['.', ';', ',', '{', '}', '(', ')', '[', ']', '?x', '"', 'optional', 'filter', 'select', '*', 'a', '1', '<u>', '"s"', '_', ':', 'not', 'in', 'union', 'minus', 'values', 'group', 'by', 'order', 'limit', 'where', 'as']))
        elif x < .8: t[i] = r.choice(t)
        elif x < .9: t = t[:i]
        else: t[i] = r.choice(['?' + r.choice(KWS), r.choice(KWS), '<' + r.choice(KWS) + '>', '"' + r.choice(KWS) + '"', "'", '$', r.choice(IRIS), r.choice(STRS), r.choice(VARS)])
    return t
def lexops(r, text):
    S = ['text ' + hexs(text)]
    def inspect():
        S.append('value')
        if r.random() < .3: S.append('iri')
        if r.random() < .4: S.append('lit')
        if r.random() < .3:
            k = r.choice(KWS); S.append('kw ' + hexs(k if r.random() < .7 else k.upper()))
    for _ in range(r.randint(3, 14)):
        x = r.random()
        if x < .75:
            S.append('next'); inspect()
            if r.random() < .2: S.append('unget')
            for k in KWS:
                if k in text.lower() and r.random() < .3: S.append('kw ' + hexs(k))
        else: S.append('has ' + r.choice(['Eof', 'Identifier', 'Colon', 'Dot', 'Variable', 'IRI', 'String', 'Integer', 'LCurly', 'RCurly', 'Anon', 'Error', 'Less', 'At', 'Type'])); (r.random() < .5 and inspect())
    return S
def pieces(r):
    pool = PIECES if r.random() < .7 else r.sample(PIECES, 6)
    extra = IRIS + VARS + STRS + INTS + DECS + LOCALS + KWS + ['?' + k for k in KWS] + ['<%s>' % k for k in KWS] + ['"%s"' % k for k in KWS]
    return ''.join(r.choice(pool) if r.random() < .7 else r.choice(extra) for _ in range(r.randint(1, 12)))
def lex(r):
    if r.random() < .25: return lexops(r, layout(r, mutate(r, Q(r).whole()[:10])))
    return lexops(r, pieces(r))
def query(r):
    t = Q(r).whole()
    if r.random() < .35: t = mutate(r, t)
    S = ['text ' + hexs(layout(r, t)[:1500]), 'parse']
    return S
