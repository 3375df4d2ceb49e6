"""Random query graphs, filters and planner seeds."""
import json
class G:
    def __init__(s, r): s.r = r; s.n = 0; s.nv = r.choice([3, 4, 5, 7])
    def id(s): s.n += 1; return s.n
    def term(s, pool): return s.r.choice(pool) if s.r.random() < .6 else -1 - s.r.randint(0, 2)
    def node(s, pool):
        t = [s.term(pool), -1 - s.r.randint(0, 2) if s.r.random() < .6 else s.r.choice(pool), s.term(pool)]
        if s.r.random() < .5: t[s.r.choice([0, 2])] = s.r.choice(pool)
        return {'id': s.id(), 't': t}
    def tree(s, pool, d):
        r = s.r
        if d == 0 or r.random() < .25: return ({'t': 'var', 'id': r.choice(pool), 'kids': []} if r.random() < .7 else {'t': 'lit', 'id': r.randint(0, 3), 'kids': []})
        return {'t': 'f', 'id': r.randint(0, 15) + (16 if r.random() < .1 else 0), 'kids': [s.tree(pool, d - 1) for _ in range(r.choice([1, 2, 2, 2, 3, 4]))]}
    def filt(s, pool):
        r = s.r; t = s.tree(pool, r.choice([1, 1, 2])); p = r.random()
        if t['t'] != 'f': t = {'t': 'f', 'id': r.randint(0, 5), 'kids': [t, {'t': 'var', 'id': r.choice(pool), 'kids': []}]}
        return {'id': s.id(), 'e': nopat(t)}
    def body(s, pool, d, parts):
        r = s.r; b = {'nodes': [], 'filters': [], 'opts': [], 'unis': [], 'vals': [], 'subs': [], 'minus': []}
        for _ in range(parts):
            k = r.choice(['node'] * 6 + (['opt', 'uni', 'val', 'sub', 'minus'] if d < 2 else ['val']))
            if k == 'node': b['nodes'].append(s.node(pool))
            elif k == 'opt': b['opts'].append(s.body(s.some(pool), d + 1, r.choice([1, 1, 2])))
            elif k == 'uni':
                q = s.some(pool); u = [s.body(q, d + 1, r.choice([1, 1, 2])) for _ in range(r.choice([2, 2, 3]))]; b['unis'].append(u)
            elif k == 'val': b['vals'].append({'id': s.id(), 'vs': r.sample(pool, min(len(pool), r.choice([1, 1, 2])))})
            elif k == 'sub': b['subs'].append(s.graph(pool, d + 1))
            elif k == 'minus': b['minus'].append(s.graph(pool, d + 1, True))
        if not (b['nodes'] or b['unis'] or b['vals'] or b['subs']): b['nodes'].append(s.node(pool))
        if d and not bv(b): n = s.node(pool); n['t'][0] = pool[0]; b['nodes'].append(n)      # a subquery projects what it binds
        if r.random() < .5: b['filters'] = [s.filt(pool) for _ in range(r.choice([1, 1, 2]))]
        return b
    # groups of few parts that share single variables, so that every pair of kinds meets
    def mixed(s):
        r = s.r; b = s.body([0], 9, 0); b['nodes'], b['filters'] = [], []; e = {k: [] for k in b}
        vs = lambda: r.sample([0, 1, 2], r.choice([1, 1, 2]))
        small = lambda v: dict(e, nodes=[{'id': s.id(), 't': r.choice([[v[0], -1 - r.randint(0, 2), v[-1]], [v[0], -1 - r.randint(0, 2), -1 - r.randint(0, 2)], [v[0], -1, r.randint(5, 7)], [-2, -1, v[-1]]])} for _ in range(r.choice([1, 1, 2]))])
        for _ in range(r.choice([2, 2, 3, 3, 4])):
            k = r.choice(['nodes', 'nodes', 'opts', 'unis', 'unis', 'vals', 'subs']); v = vs()
            if k == 'nodes': b[k] = b[k] + small(v)['nodes']
            elif k == 'opts': b[k] = b[k] + [small(v)]
            elif k == 'unis': b[k] = b[k] + [[small(v) for _ in range(r.choice([2, 3, 3, 4]))]]
            elif k == 'vals': b[k] = b[k] + [{'id': s.id(), 'vs': v}]
            else:
                q = small(v); w = sorted(bv(q)); b[k] = b[k] + [{'id': s.id(), 'proj': r.sample(w, r.randint(1, len(w))), 'order': [], 'group': [], 'agg': [], 'distinct': r.random() < .2, 'body': q}]
        if not (b['nodes'] or b['unis'] or b['vals'] or b['subs']): b['nodes'] = small(vs())['nodes']
        if r.random() < .2: b['filters'] = [s.filt([0, 1, 2])]
        if r.random() < .15: q = small(vs()); b['minus'] = [{'id': s.id(), 'proj': sorted(bv(q)), 'order': [], 'group': [], 'agg': [], 'distinct': False, 'body': q}]
        w = sorted(bv(b)); return {'id': 99, 'proj': r.sample(w, r.randint(1, min(2, len(w)))), 'order': [], 'group': [], 'agg': [], 'distinct': r.random() < .1, 'body': b}
    def some(s, pool): return s.r.sample(pool, s.r.randint(1, len(pool))) + ([s.r.randint(10, 12)] if s.r.random() < .4 else [])
    def graph(s, pool=None, d=0, minus=False):
        r = s.r; i = s.id(); pool = pool or list(range(s.nv)); b = s.body(pool, d, r.choice([1, 2, 2, 3, 3, 4, 5]) if d == 0 else r.choice([1, 1, 2]))
        vs = sorted(bv(b)) or [0]; g = {'id': i, 'proj': r.sample(vs, r.randint(1, min(3, len(vs)))), 'order': [], 'group': [], 'agg': [], 'distinct': False, 'body': b}
        if minus: g['proj'] = vs; return g
        if r.random() < .2: g['distinct'] = True
        if d == 0 and r.random() < .2: g['order'] = [r.choice(vs)]
        if d == 0 and r.random() < .15: g['group'] = [r.choice(vs)]
        if d == 0 and r.random() < .15: g['agg'] = [r.choice(vs)]
        return g
def nopat(t): return {'t': t['t'], 'id': t['id'] % 16 if t['t'] == 'f' else t['id'], 'kids': [nopat(k) for k in t['kids']]}
def bv(b):
    S = {x for n in b['nodes'] for x in n['t'] if x >= 0} | {v for x in b['vals'] for v in x['vs']} | {v for x in b['subs'] for v in x['proj']}
    for o in b['opts']: S |= bv(o)
    for u in b['unis']:
        for a in u: S |= bv(a)
    return S
def tk(t): return 'v %d' % t['id'] if t['t'] == 'var' else 'l %d' % t['id'] if t['t'] == 'lit' else 'f %d %d ' % (t['id'], len(t['kids'])) + ' '.join(tk(k) for k in t['kids'])
def many(l, f): return ' '.join([str(len(l))] + [f(x) for x in l])
def num(l): return many(l, str)
def btk(b):
    return ' '.join([many(b['nodes'], lambda n: '%d %d %d %d' % (n['id'], *n['t'])), many(b['filters'], lambda f: '%d %s' % (f['id'], tk(f['e']))), many(b['opts'], btk),
                     many(b['unis'], lambda u: many(u, btk)), many(b['vals'], lambda v: '%d %s' % (v['id'], num(v['vs']))), many(b['subs'], gtk), many(b['minus'], gtk)])
def gtk(g): return ' '.join(['%d %d' % (g['id'], g['distinct']), num(g['proj']), num(g['order']), num(g['group']), num(g['agg']), btk(g['body'])])
J = lambda x: json.dumps(x, separators=(',', ':'))
def scenario(r, nseeds=4):
    out = []
    for i in range(3):
        g = G(r).graph() if i == 0 else G(r).mixed(); out.append('G %s\t%s' % (gtk(g), J(g)))
        out += ['P %d %d' % (r.randint(1, 10**9), r.random() < .2) for _ in range(nseeds)]
    for _ in range(4):
        s = G(r); e = s.tree(list(range(4)), r.choice([0, 1, 2, 3])); vs = [r.sample(range(4), r.randint(0, 4)) for _ in range(4)]
        out.append('F %d %s %s\t%s' % (r.randint(0, 3), many(vs, num), tk(e), J(e)))
    for _ in range(4): out.append('J ' + ' '.join(str(r.randint(0, 4) if r.random() < .5 else -1 - r.randint(0, 4)) for _ in range(6)))
    return out
