import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild
REPO = vbuild.REPO
def scenarios(c, bh, salt):
    """TLC's behaviours of the cursor specification, made concrete: which iterator, what it is opened over."""
    r = c.rng(salt); sc = []
    for i, h in enumerate(bh):
        o = h[0]; rows = [list(x) for x in o['rows']]; kind = r.choice(['array', 'rm']); rm = []
        if kind == 'rm':      # the view is what remains: the base has extra pairs that are removed
            grid = [[a, b] for a in range(4) for b in range(4) if [a, b] not in rows]
            rm = sorted(r.sample(grid, r.randint(0, min(5, len(grid)))))
            rows = sorted(rows + rm)
            if not o['ign'] and r.random() < .3:      # removing what is not there changes nothing (with the second column ignored, deletions exist in the base)
                g2 = [x for x in grid if x not in rm]
                if g2: rm = sorted(rm + r.sample(g2, 1))
        fl = lambda q: ' '.join('%d %d' % tuple(x) for x in q)
        L = ['open %s %d %d %d %d %d %s %d %s' % (kind, r.randint(0, 1), o['ign'], o['c1'], o['c2'], len(rows), fl(rows), len(rm), fl(rm))]
        inrows = all(x in rows for x in rm)
        if o['c1'] == -1 and o['c2'] == -1 and inrows and r.random() < .5: L.append('card')
        for e in h[1:]:
            if e['op'] == 'moveto': L.append('moveto %d %d' % (e['a'], e['b']))
            elif e['op'] == 'next':
                if L[-1] != 'hasnext': L.append('hasnext')
                L.append('next')
                if o['ign'] and r.random() < .5: L.append('count')
            else: L.append(e['op'])
        sc.append(('%s%d' % (salt, i), L))
    return sc
def fn(c):
    b = vbuild.build('itrdrv', vbuild.VERIF + '/drivers/itrdrv.cpp', [], extra=[REPO + '/src/trident/iterators/arrayitr.cpp', REPO + '/src/trident/iterators/rmitr.cpp'])
    c.model('MCCursor')
    bh = c.behaviours('MCCursor', 'GenCursor.cfg', num=30000 if c.thorough else 4000, depth=17)
    c.bind('cursor', b, scenarios(c, bh, 'c'), 'TraceCursor.tla')
    c.assumptions += ['TLC and the JSON bridge', 'the driver calls only the public iterator interface', 'hasNext() precedes every next(); moveTo() only while standing at an element']
vrun.main('C05', fn)
