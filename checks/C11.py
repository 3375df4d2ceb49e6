import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild, genttl
R = vbuild.REPO
def fn(c):
    b = vbuild.build('turtledrv', vbuild.VERIF + '/drivers/turtledrv.cpp', [], extra=[R + '/rdf3x/src/cts/TurtleParser.cpp'])
    c.model('MCTurtle', workers=8)
    if c.thorough: c.model('MCTurtle', 'MCTurtle8.cfg', workers=8, timeout=800)
    m = 10 if c.thorough else 1; r = c.rng('doc')
    bh = []
    for d in (30, 44):
        bh += c.behaviours('MCTurtle', 'GenTurtle.cfg', num=900 * m, depth=d)
    S = [('d%d' % i, ['doc ' + (genttl.doc(r, t).hex() or '20')]) for i, t in enumerate(bh * 2)]
    c.bind('documents', b, S[:(9000 * m)], 'TraceTurtle.tla')
    c.assumptions += ['TLC and the JSON bridge', 'documents of the supported syntax: names of ASCII letters, digits, - and _; a URI is absolute iff it has ://; a relative one is put behind the base', 'blank nodes are compared up to their labels, triples up to their order']
vrun.main('C11', fn)
