import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild, genplan
R = vbuild.REPO
def fn(c):
    b = vbuild.build('plandrv', vbuild.VERIF + '/drivers/plandrv.cpp', ['infra'], opt=('-O1', '-g', '-fsanitize=address'), ldflags=('-fsanitize=address',),
                     extra=[R + '/rdf3x/src/cts/%s.cpp' % x for x in ('Plan', 'PlanGen', 'QueryGraph')] + [R + '/src/trident/sparql/aggrhandler.cpp', vbuild.VERIF + '/shim/shim.cpp'])
    c.models_parallel([('MCPlanner', 'MCPlanner.cfg'), ('MCPlanner', 'MCPlannerU.cfg')] + ([('MCPlanner', 'MCPlanner3.cfg'), ('MCPlanner', 'MCPlanner6.cfg')] if c.thorough else []))
    r = c.rng('plan'); S = [('p%d' % i, genplan.scenario(r)) for i in range(30000 if c.thorough else 1800)]
    c.bind('plan', b, S, 'TracePlan.tla', denv={'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1'}, sig=lambda e, evs, lines: e['op'] + ' ' + str(e.get('how', '')))
    c.assumptions += ['TLC and the JSON bridge', 'the specification\'s meaning of a query graph takes an optional part\'s variables to be shared with required parts or with nothing',
                      'memory errors are seen by AddressSanitizer', 'query graphs and costs are made up at random, not enumerated; the graphs are built directly, not parsed']
vrun.main('C21', fn)
