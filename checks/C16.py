import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild, genml
def fn(c):
    b = vbuild.build('mldrv', vbuild.VERIF + '/drivers/mldrv.cpp', ['core', 'ml'])
    c.model('MCBatch')
    k = 10 if c.thorough else 1
    for name, gen, n in (('batches', genml.batches, 500), ('page', genml.page, 1), ('embeddings', genml.embeddings, 300), ('subgraphs', genml.subgraphs, 300)):
        r = c.rng(name); c.bind(name, b, [('%s%d' % (name[0], i), gen(r)) for i in range(n * (k if name != 'page' else 1))], 'TraceBatch.tla')
    c.assumptions += ['TLC and the JSON bridge', 'shim/ stands in for the KOGNAC library, which is not available offline', 'embeddings hold whole numbers where their averages are compared']
if __name__ == '__main__': vrun.main('C16', fn)
