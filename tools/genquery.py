"""Stores and queries over them.  Nothing here knows the answers: a query is written as a text for the engine and as a tree
for the specification."""
import json
from genkb import FIXED
Z = {'v': '', 'c': -9}
def el(k, **kw):
    d = {'k': k, 's': Z, 'p': Z, 'o': Z, 'g': [], 'vs': [], 'rows': [], 'e': [], 'q': []}; d.update(kw); return d
def ex(f, a=(), v='', c=-1, g=()): return {'f': f, 'a': list(a), 'v': v, 'c': c, 'g': list(g)}
TERMS = ['<a>', '<b>', '<c>', '<http://ex.org/d>', '<http://ex.org/e>', '<p>', '<q>', '<r>', '"l"', '"m n"', '"lit with \'quotes\'"', '"z"']
MISSING = 900
class G:
    """feat: a set of feature names; see query()."""
    def __init__(s, r, feat):
        s.r, s.f = r, set(feat)
        n = r.randint(3, 5); m = r.randint(1, 3); k = r.randint(0, 3)
        s.subj = list(range(n)); s.pred = list(range(n, n + m)); s.lits = list(range(n + m, n + m + k))
        iris = ['<%s>' % c for c in 'abcde'][:n - 1] + ['<http://ex.org/d>']
        s.terms = iris + ['<p>', '<q>', '<r>'][:m] + ['"l"', '"m n"', '"ab"'][:k]
        if r.random() < .3: s.pred.append(s.subj[0])       # a term that is a predicate as well
        t = set()
        for _ in range(r.choice([1, 3, 6, 10, 14])): t.add((r.choice(s.subj), r.choice(s.pred), r.choice(s.subj + s.lits)))
        s.triples = sorted(t)
        s.small = len(t) <= 6
        s.left = 0
    def chance(s, p): return s.r.random() < p
    def has(s, x): return x in s.f
    def store(s):
        r = s.r; o = {'nind': r.choice([6, 6, 6, 4, 3, 1]) if s.has('layouts') else 6, 'aggr': r.choice([0, 1]) if s.has('layouts') else 0, 'skip': r.choice([0, 1]) if s.has('layouts') else 0, 'thr': r.choice([1, 20]), 'fixed': r.choice([-1, -1] + list(FIXED)) if s.has('layouts') else -1}
        if o['nind'] != 6: o['aggr'] = o['skip'] = 0
        return ['D ' + t for t in s.terms] + ['T ' + ' '.join('%d %d %d' % t for t in s.triples), 'store ' + ' '.join('%s=%d' % k for k in o.items())]
    # texts
    def text(s, c):
        if c >= MISSING: return '<nowhere%d>' % c
        return s.terms[c]
    def tx(s, p): return '?' + p['v'] if p['v'] else s.text(p['c'])
    def ptext(s, e): return '%s %s %s' % (s.tx(e['s']), s.tx(e['p']), s.tx(e['o']))
    def etext(s, e):
        f, a = e['f'], e['a']
        if f == 'var': return '?' + e['v']
        if f == 'const': return s.text(e['c'])
        ops = {'and': '&&', 'or': '||', 'eq': '=', 'ne': '!=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}
        if f in ops: return '(%s %s %s)' % (s.etext(a[0]), ops[f], s.etext(a[1]))
        if f == 'not': return '(!%s)' % s.etext(a[0])
        if f == 'notin': return '(%s NOT IN (%s))' % (s.etext(a[0]), ', '.join(s.etext(x) for x in a[1:]))
        if f == 'notexists': return 'NOT EXISTS ' + s.gtext(e['g'][0])
        return '%s(%s)' % ({'sameterm': 'sameTerm', 'isiri': 'isIRI', 'isliteral': 'isLiteral', 'bound': 'BOUND'}[f], ', '.join(s.etext(x) for x in a))
    def gtext(s, g):
        o = []
        for e in g:
            k = e['k']
            if k == 't': o.append(s.ptext(e) + ' .')
            elif k == 'opt': o.append('OPTIONAL ' + s.gtext(e['g'][0]))
            elif k == 'uni': o.append(' UNION '.join(s.gtext(x) for x in e['g']))
            elif k == 'minus': o.append('MINUS ' + s.gtext(e['g'][0]))
            elif k == 'filter':
                t = s.etext(e['e'][0]); o.append('FILTER ' + (t if t[0] == '(' or t.startswith('NOT EX') else '(%s)' % t))
            elif k == 'values':
                if len(e['vs']) == 1: o.append('VALUES ?%s { %s }' % (e['vs'][0], ' '.join(s.text(x[0]) for x in e['rows'])))
                else: o.append('VALUES (%s) { %s }' % (' '.join('?' + v for v in e['vs']), ' '.join('(' + ' '.join(s.text(c) for c in x) + ')' for x in e['rows'])))
            elif k == 'bind': o.append('BIND (%s AS ?%s)' % (s.etext(e['e'][0]), e['vs'][0]))
            elif k == 'sub': o.append('{ ' + s.qtext(e['q'][0]) + ' }')
        return '{ ' + ' '.join(o) + ' }'
    def qtext(s, q):
        ag = dict((a['as'], '(COUNT(%s%s) AS ?%s)' % ('DISTINCT ' if a['d'] else '', '?' + a['v'] if a['v'] else '*', a['as'])) for a in q['agg'])
        t = 'SELECT ' + ('DISTINCT ' if q['distinct'] else '') + ' '.join(ag.get(v, '?' + v) for v in q['proj']) + ' WHERE ' + s.gtext(q['g'][0])
        if q['group']: t += ' GROUP BY ' + ' '.join('?' + v for v in q['group'])
        if q['order']: t += ' ORDER BY ' + ' '.join(('DESC(?%s)' if o['d'] else 'ASC(?%s)' if o['d'] is None else '?%s') % q['proj'][o['i'] - 1] for o in q['order'])
        if q['limit'] >= 0: t += ' LIMIT %d' % q['limit']
        if q['offset']: t += ' OFFSET %d' % q['offset']
        return t
    # parts
    def pos(s, pool, consts, pv):
        if s.chance(pv): return {'v': s.r.choice(pool), 'c': -9}
        if s.has('unknown') and s.chance(.06): return {'v': '', 'c': MISSING}
        return {'v': '', 'c': s.r.choice(consts)}
    def triple(s, pool, predvars=True):
        return el('t', s=s.pos(pool, s.subj, .8), p=s.pos(pool, s.pred, .25 if predvars else 0), o=s.pos(pool, s.subj + s.lits, .7))
    def bgp(s, n, pool, conn=True):
        """n patterns, each sharing a variable with those before (mostly)"""
        out, seen = [], set()
        for i in range(n):
            for _ in range(12):
                t = s.triple(pool)
                vs = set(x['v'] for x in (t['s'], t['p'], t['o'])) - {''}
                if len(vs) < 3 - 0 or s.chance(.5):
                    if (vs or s.has('ground')) and (not seen or vs & seen or (s.has('cross') and s.chance(.2)) or not conn): break
            out.append(t); seen |= vs
        return out
    def vars(s, g):
        """the variables that a group surely binds, and those it may bind"""
        sure, may = set(), set()
        for e in g:
            k = e['k']
            if k == 't': v = set(x['v'] for x in (e['s'], e['p'], e['o'])) - {''}; sure |= v; may |= v
            elif k == 'opt': may |= s.vars(e['g'][0])[1]
            elif k == 'uni':
                xs = [s.vars(x) for x in e['g']]; sure |= set.intersection(*[x[0] for x in xs]); may |= set.union(*[x[1] for x in xs])
            elif k == 'values': sure |= set(e['vs']); may |= set(e['vs'])
            elif k == 'bind': sure |= set(e['vs']); may |= set(e['vs'])
            elif k == 'sub':
                a, b = s.vars(e['q'][0]['g'][0]); p = set(e['q'][0]['proj']); sure |= a & p; may |= b & p
        return sure, may
    def cond(s, vs, d=0):
        r = s.r; x = r.random(); vs = sorted(vs)
        V = lambda: ex('var', v=r.choice(vs))
        def C(): return ex('const', c=MISSING if s.has('unknown') and s.chance(.1) else r.choice(s.subj + s.lits + s.pred))
        if d < 2 and x < .3: return ex(r.choice(['and', 'or']), [s.cond(vs, d + 1), s.cond(vs, d + 1)])
        if d < 2 and x < .4 and s.has('not'): return ex('not', [s.cond(vs, d + 1)])
        if x < .7: return ex(r.choice(['eq', 'ne']), [V(), V() if s.chance(.5) else C()])
        k = [f for f in ('cmp', 'sameterm', 'isiri', 'isliteral', 'bound', 'notin') if s.has('f_' + f)]
        if not k: return ex('ne', [V(), C()])
        f = r.choice(k)
        if f == 'cmp': return ex(r.choice(['lt', 'gt', 'le', 'ge']), [V(), V() if s.chance(.5) or not s.lits else ex('const', c=r.choice(s.lits))])
        if f == 'notin': return ex('notin', [V()] + [C() for _ in range(r.randint(1, 3))])
        if f == 'sameterm': return ex(f, [V(), V() if s.chance(.5) else C()])
        return ex(f, [V()])
    def group(s, d=0, pool=('x', 'y', 'z', 'w'), want=None):
        r = s.r; pool = list(pool)
        g = s.bgp(r.choice([1, 1, 2, 2, 3] if d == 0 else [1, 1, 1, 2]), pool) if not (s.has('nobgp') and s.chance(.1)) else []
        sure, may = s.vars(g)
        def link(f):        # a part that shares a surely bound variable with what is there
            for _ in range(20):
                e = f(); a, b = s.vars(e if isinstance(e, list) else [e])
                if not s.has('part') and ((b - a) & may or (may - sure) & b): continue       # nothing joins on a variable that may be unbound
                if not sure or a & sure: return e
            return None
        def add(e):
            nonlocal sure, may
            if e: g.append(e); sure, may = s.vars(g)
        if s.has('uni') and s.chance(.35): add(link(lambda: el('uni', g=[s.group(d + 1, pool) if d < 1 else s.bgp(1, pool) for _ in range(r.choice([2, 2, 3]))])))
        if s.has('uni1') and s.chance(.5):
            def f():        # every branch binds the same variables
                vs = r.sample(pool, r.choice([1, 2, 2]))
                def branch():
                    for _ in range(200):
                        b = s.bgp(r.choice([1, 1, 2]), vs)
                        if s.vars(b)[0] == set(vs): return b
                    return None
                bs = [branch() for _ in range(r.choice([2, 2, 3]))]
                return el('uni', g=bs) if all(bs) else el('uni', g=[[]])
            e = link(f)
            if e and e['g'][0]: add(e)
        if s.has('values') and s.chance(.35):
            def f():
                vs = r.sample(pool, r.choice([1, 1, 2])); k = r.choice([1, 2, 3])
                return el('values', vs=vs, rows=[[r.choice(s.subj + s.lits) if not (s.has('unknown') and s.chance(.1)) else MISSING for _ in vs] for _ in range(k)])
            add(link(f))
        if s.has('sub') and d == 0 and s.chance(.35): add(link(lambda: el('sub', q=[s.query(d + 1)])))
        if s.has('mix'): r.shuffle(g)
        if s.has('opt') and s.chance(.5 if d == 0 else .15):
            for _ in range(r.choice([1, 1, 2]) if s.has('opts') else 1):
                def f():
                    own = [v for v in pool if v not in may - sure]      # joins on surely bound variables alone
                    b = s.bgp(r.choice([1, 1, 2]), own)
                    if s.has('optfilter') and s.chance(.3): b.append(el('filter', e=[s.cond(s.vars(b)[0])]) if s.vars(b)[0] else None)
                    return [e for e in b if e]
                b = link(f)
                if b and (s.has('optmany') or len(s.vars(b)[1] & may) == 1): add(el('opt', g=[b]))
        if s.has('bind') and s.chance(.25):
            new = [v for v in ('b1', 'b2') if v not in may]
            if new and sure: add(el('bind', e=[ex('var', v=r.choice(sorted(sure))) if s.chance(.7) else ex('const', c=r.choice(s.subj))], vs=[new[0]]))
        if s.has('minus') and s.chance(.35 if d == 0 else .1):
            b = link(lambda: s.bgp(r.choice([1, 1, 2]), [v for v in pool if v not in may - sure]))       # compares surely bound variables
            if b: add(el('minus', g=[b]))
        ok = sorted(may if s.has('maybe') else sure)
        if s.has('filter') and ok and s.chance(.5 if d == 0 else .2):
            for _ in range(r.choice([1, 1, 2])):
                i = r.randint(0, len(g)); g.insert(i if s.has('mix') else len(g), el('filter', e=[s.cond(ok)]))
        if s.has('notexists') and sure and d == 0 and s.chance(.3):
            b = link(lambda: s.bgp(r.choice([1, 1, 2]), pool))
            if b: g.append(el('filter', e=[ex('notexists', g=[b])]))
        return g
    def aggregate(s, q, vs):
        r = s.r; q['group'] = r.sample(vs, r.randint(0 if s.has('total') else 1, min(2, len(vs)))); rest = [v for v in vs if v not in q['group']]
        for i in range(r.choice([1, 1, 2])):
            v = r.choice(vs if s.has('cgroup') else rest or vs)
            q['agg'].append({'v': '' if s.has('star') and s.chance(.3) else v, 'd': s.has('cdistinct') and s.chance(.4), 'as': 'n%d' % i})
            if not q['agg'][-1]['v']: q['agg'][-1]['d'] = False
        if any(a['d'] for a in q['agg']): del q['agg'][1:]; q['agg'][0]['d'] = True
        q['distinct'] = False; q['proj'] = q['group'] + [a['as'] for a in q['agg']]
        if s.chance(.3) : r.shuffle(q['proj'])
    def query(s, d=0):
        r = s.r
        while True:
            g = s.group(d); sure, may = s.vars(g)
            if may: break
        vs = sorted(may); proj = r.sample(vs, r.randint(1, min(len(vs), 4)))
        q = {'distinct': s.has('distinct') and s.chance(.3), 'proj': proj, 'g': [g], 'limit': -1, 'offset': 0, 'order': [], 'group': [], 'agg': []}
        if d == 0 and s.has('count') and s.chance(.7) and sure: s.aggregate(q, sorted(sure))
        if d == 0:
            if s.has('limit') and s.chance(.5): q['limit'] = r.choice([1, 2, 3, 5, 10]) if s.chance(.8) else -1; q['offset'] = r.choice([0, 0, 1, 2, 4])
            if s.has('order') and s.chance(.6): q['order'] = [{'i': i + 1, 'd': r.choice([True, False])} for i in r.sample(range(len(proj)), r.randint(1, len(proj)))]
        return q
def scenario(r, feat, nq=4):
    g = G(r, feat); out = g.store()
    for _ in range(nq):
        q = g.query(); t, j = g.qtext(q), json.dumps(q, separators=(',', ':'))
        for seed in [0] + [r.randint(1, 10**9) for _ in range(3)]: out.append('Q %d\t%s\t%s' % (seed, t, j))
    return out
