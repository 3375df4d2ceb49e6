import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild, gensparql
def fn(c):
    b = vbuild.build('sparqldrv', vbuild.VERIF + '/drivers/sparqldrv.cpp', [], opt=('-O1', '-fsanitize=address'), ldflags=('-fsanitize=address',),
                     extra=[vbuild.REPO + '/rdf3x/src/cts/SPARQLLexer.cpp', vbuild.REPO + '/rdf3x/src/cts/SPARQLParser.cpp'])
    c.models_parallel([('MCLex', 'MCLex.cfg'), ('MCLex', 'MCLex2.cfg'), ('MCParse', 'MCParse4.cfg' if c.thorough else 'MCParse.cfg')])
    m = 12 if c.thorough else 1
    r = c.rng('lex'); S = [('l%d' % i, gensparql.lex(r)) for i in range(5000 * m)]
    r = c.rng('query'); S += [('q%d' % i, gensparql.query(r)) for i in range(6000 * m)]
    c.rng('mix').shuffle(S)
    c.bind('sparql', b, S, 'TraceSparql.tla', denv={'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1'}, sig=lambda e, evs, lines: e['op'] + ' ' + str(e.get('k', '')))
    c.assumptions += ['TLC and the JSON bridge', 'memory errors are seen by AddressSanitizer', 'the texts are generated from a grammar and from pieces of tokens, not enumerated']
vrun.main('C10', fn)
