import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild, gengraph
KINDS = 'UVDWNEMXAAAB'
def fn(c):
    b = vbuild.build('graphdrv', vbuild.VERIF + '/drivers/graphdrv.cpp', ['snap'], opt=('-O1', '-fpermissive', '-fopenmp'), ldflags=('-fopenmp',))
    c.models_parallel([('MCGraph', 'MCGraph.cfg'), ('MCGraph', 'MCGraphM.cfg')] + ([('MCGraph', 'MCGraph4.cfg'), ('MCGraph', 'MCGraphM3.cfg')] if c.thorough else []))
    m = 12 if c.thorough else 1
    S = []; r = c.rng('model')
    # TLC's behaviours of the representation model, with observations in between
    for i, h in enumerate(c.behaviours('MCGraph', 'GenGraph.cfg', num=60 * m, depth=26)[::2]):
        k = h[0][1]; L = ['new ' + k]
        if k == 'A': L += ['addattr n na 0 0', 'addattr e ea 0 0']
        for e in h[1:]:
            L.append(' '.join(str(x) for x in e))
            if r.random() < .25: L.append(r.choice(['dump', 'pairs']))
        S.append(('model%d' % i, L + ['dump', 'pairs']))
    for j, k in enumerate(KINDS):
        r = c.rng('%s%d' % (k, j)); S += [('%s%d_%d' % (k, j, i), gengraph.script(k, r, r.choice([3, 8, 15, 30]), r.choice([4, 8, 8, 12]))) for i in range(90 * m)]
    c.rng('mix').shuffle(S)
    c.bind('graphs', b, S, 'TraceGraph.tla', sig=lambda e, evs, lines: evs[0].get('k', '') + e['op'] + e.get('how', '') if evs else e['op'])
    c.assumptions += ['TLC and the JSON bridge', 'TNEANet copies are made only while it has no attributes (copying drops them)', 'data of nodes and edges are integers']
vrun.main('C12', fn)
