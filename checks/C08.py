import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild, genquery
SCALAR = 'layouts,uni1,minus,mix,filter,distinct,limit,order,not,f_cmp,cross,values,sub'
LEVELS = [('bgp', 'layouts,order,limit,distinct', 250, 4), ('triples', 'layouts,unknown,ground,cross,order,distinct', 200, 3),
          ('filters', 'layouts,mix,filter,not,f_cmp,f_sameterm,f_isiri,f_isliteral,cross', 250, 3),
          ('parts', 'uni1,minus,mix,filter,distinct,opt,limit,order,not,f_cmp,cross,values,sub', 500, 3),
          ('all', SCALAR + ',opts,ground,f_sameterm,f_isiri,f_isliteral,optfilter', 600, 3),
          ('count', 'layouts,count,cdistinct,cgroup', 250, 3), ('countparts', 'layouts,count,cdistinct,cgroup,filter,opt,values,uni1,minus,sub', 300, 3)]
def fn(c):
    b = vbuild.build('qdrv', vbuild.VERIF + '/drivers/qdrv.cpp', ['core', 'sparql'], opt=('-O1', '-g', '-fsanitize=address'), ldflags=('-fsanitize=address',))
    c.models_parallel([('MCSparql', 'MCSparql4.cfg' if c.thorough else 'MCSparql.cfg')])
    m = 10 if c.thorough else 1; S = []
    for name, feats, n, nq in LEVELS:
        r = c.rng(name); S += [('%s%d' % (name, i), genquery.scenario(r, feats.split(','), nq)) for i in range(n * m)]
    c.rng('mix').shuffle(S)
    c.bind('query', b, S, 'TraceQuery.tla', denv={'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1'}, sig=lambda e, evs, lines: e['op'] + ' ' + str(e.get('why', '')))
    c.assumptions += ['TLC and the JSON bridge', 'KOGNAC stand-in (shim/)', 'memory errors are seen by AddressSanitizer', 'stores and queries are generated at random; plans are varied by made-up statistics, not enumerated']
vrun.main('C08', fn)
