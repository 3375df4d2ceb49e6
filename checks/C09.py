import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild, genop
R = vbuild.REPO
RTS = 'AggregatedIndexScan Assignment CartProd DomainDescription DuplLimit EmptyScan Filter FullyAggregatedIndexScan GroupBy HashGroupify HashJoin IndexScan MergeJoin MergeUnion Minus NestedLoopFilter NestedLoopJoin Operator PlanPrinter Runtime Scheduler SingletonScan TableFunction TemporaryDictionary Union ValuesScan'.split()
def fn(c):
    ex = [R + '/rdf3x/src/rts/%s.cpp' % n for n in RTS] + [R + '/rdf3x/src/infra/%s.cpp' % n for n in 'Mutex Event Thread Pool'.split()] + [vbuild.VERIF + '/shim/shim.cpp']
    b = vbuild.build('opdrv', vbuild.VERIF + '/drivers/opdrv.cpp', [], extra=ex)
    c.model('MCRel', 'MCRel3.cfg' if c.thorough else 'MCRel.cfg', workers=8)
    sc = []; m = 8 if c.thorough else 1
    for depth, n, kinds in ((1, 1500, None), (1, 900, ['mj', 'hj']), (2, 1500, None), (3, 900, None), (4, 250, None)):
        r = c.rng('d%d%s' % (depth, kinds))
        for i in range(n * m):
            o = {'depth': depth, 'full': True, 'dom': r.choice([3, 6, 6, 9])}
            if kinds: o['kinds'] = kinds
            L, k = genop.scenario(r, o); sc.append(('t%d%s-%d' % (depth, 'j' if kinds else '', i), L))
    r = c.rng('wide')           # many distinct values: the hash tables grow and are rehashed
    for i in range(60 * m): sc.append(('w%d' % i, genop.wide_scenario(r)))
    r = c.rng('dom')
    for i in range(150 * m): sc.append(('dom%d' % i, genop.domain_scenario(r)))
    r = c.rng('tdict')
    for i in range(60 * m): sc.append(('td%d' % i, genop.tdict_scenario(r)))
    c.bind('operators', b, sc, 'TraceRel.tla', sig=lambda ev, pre, lines: ev.get('op', '?'))
    c.assumptions += ['TLC and the JSON bridge', 'facts come from an in-memory table behind the DBLayer interface, which honours or ignores skip hints',
                      'inputs of merge operators are sorted, as their constructors require; join columns hold no NULL']
vrun.main('C09', fn)
