import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild, gentree
def scenarios(c, salt, count):
    r = c.rng(salt); sc = []
    for i in range(count):
        n = r.choice([3, 10, 30, 80, 200]); k = {'n': 'num', 'c': 'coor'}[salt]
        sc.append(('%s%d' % (salt, i), gentree.maps(r, k, n)))
    return sc
def dicts(c, count):
    r = c.rng('d'); return [('d%d' % i, gentree.dictionary(r, r.choice([3, 10, 30, 80, 150]), r.random() < .1)) for i in range(count)]
def fn(c):
    b = vbuild.build('treedrv', vbuild.VERIF + '/drivers/treedrv.cpp', ['core'])
    c.model('MCTree')
    k = 10 if c.thorough else 1
    c.bind('numbers', b, scenarios(c, 'n', 600 * k), 'TraceTree.tla')
    c.bind('coordinates', b, scenarios(c, 'c', 400 * k), 'TraceTree.tla')
    c.bind('words', b, dicts(c, 400 * k), 'TraceTree.tla')
    c.assumptions += ['TLC and the JSON bridge', 'shim/ stands in for the KOGNAC library, which is not available offline', 'a tree is written once, from creation to closing, and then read (as the loader and the store do)', 'append is called with increasing keys']
if __name__ == '__main__': vrun.main('C06', fn)
