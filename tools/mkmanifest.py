"""Writes MANIFEST.json; run after adding a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ specification (TLC) bound to the code by trace validation'
CLAIMED = {
 'C01': (T, 'Exhaustive check of the abstract store over a small universe; seeded random stores with all loader options are loaded by the real loader and every scan is decided by the specification. Assumes the KOGNAC stand-in in shim/.'),
 'C02': (T, 'Histories of additions, deletions, merges and reopenings run through the real update and merge code; every read between them is decided by the specification, whose set semantics TLC checks exhaustively on a small universe.'),
 'C03': (T, 'Counting, grouping, edge, positional, existence and emptiness primitives are operators over the abstract store whose mutual laws TLC checks over all small stores; random stores in all layouts, and histories of updates, merges and reopenings over them, are questioned through the real primitives and every answer is decided by the specification.'),
 'C04': (T, 'Dictionary and string buffer are abstract maps and sequences that TLC checks over all short histories; random vocabularies (shared prefixes, all lengths, any bytes) go through the real string buffer, the real trees, and whole stores with updates, merges and reopenings; every look-up in both directions, of stored and of near-miss terms and identifiers, is decided by the specification.'),
 'C05': (T + '; call sequences generated by TLC simulation', 'The cursor contract is checked exhaustively over all pair sets of a small grid; call sequences generated from it are replayed into the real iterators and the recorded traces validated against it.'),
 'C06': (T, 'An ordered map and the node encoding that holds it (first key, step or differences, splits) are checked by TLC over all short histories; random histories of puts, appends, look-ups, traversals, closings and reopenings run through the real trees of numbers, coordinates and words under random node, leaf and cache sizes, and every answer is decided by the specification.'),
 'C07': (T + '; reading histories generated by TLC simulation', 'The collecting algorithm is checked exhaustively over all small stores and question orders; stores and lookups of the real cache, and real caching iterators over loaded stores following generated histories (also two at a time), are decided by the specification.'),
 'C08': (T, 'The SPARQL algebra is an executable specification over bags of solutions whose laws (join commutes, associates, distributes over union, filters push down, outer joins, differences, distinctness) TLC checks over all small stores. Random stores in all layouts are loaded by the real loader and random queries of the fragment run through parser, semantic analysis, planner, code generator and operators, each several times with made-up statistics so that different plans are chosen; every bag, order and cut of rows is decided by the specification.'),
 'C09': (T, 'The algebra is an executable specification whose laws TLC checks over all small inputs; random trees of real operators over in-memory facts run (several times, also abandoned half-way) and every delivered bag, count and order is decided by it. Sort and the aggregates are decided under C08.'),
 'C10': (T, 'The tokens of a text and the structure that a query spells are written down as operators (a lexer by position, a grammar by descent), with three outcomes for a text: a structure, a rejection, or left open. TLC checks laws of both on all short texts (tokens partition the text, each is read as itself, layout, spelling of keywords and extra braces do not matter). Generated queries with random layout and damage, and piles of token pieces, go through the real lexer with random next/unget/peek and through the parser; every token, value and complete structure is decided by the specification.'),
 'C11': (T + '; documents generated by TLC', 'Two executable machines, over characters and over tokens, give the meaning of a text; TLC checks them against an expansion into plain triples and against all layouts for all short documents. Generated documents with random layouts, spellings, mutations and truncations, also across the reader buffer, are parsed by the real parser and every delivered triple, end and error is decided by the machines.'),
 'C12': (T + '; histories generated by TLC simulation', 'The representation (slots with reuse, sorted double adjacency, counters, attribute columns, defragmentation) is modelled and shown by TLC to refine the abstract graph over every history of small graphs; histories generated from it and seeded random ones run through ten graph and network classes, and every dump, test, derived graph and count is decided by the abstract specification.'),
 'C13': (T, 'Distances, components, blocks, cores, triangles, flows, centralities, ranks and modularity are defined, not computed as the library does; TLC checks on every small graph that the definitions satisfy the laws that relate them (metric, block-cut forest, maximality of cores, sums of betweenness, max-flow bounds). About ninety algorithms of the library are then asked about random graphs (directed, undirected, multigraphs with weights; loops, isolated nodes, sparse ids; up to 190 nodes for the hybrid search), and every answer is decided by the definitions.'),
 'C15': (T + '; schedules and histories generated by TLC simulation', 'The scheduler algorithm (one lock, one event, queue, workers, destructor) is model checked over all interleavings and small sets of points, with termination; pools likewise. The real classes run under a stand-in for the thread library that decides every interleaving point (seeded, and following schedules of the model), and every recorded history is decided by monitors for locks, events, the clock and the scheduler. Spurious wake-ups and preemption between library calls are not produced.'),
 'C16': (T, 'The source as an array of positions read in windows is checked by TLC against an order that is only revealed by what is delivered (every epoch complete, every read possible, kept-out sets apart). Random stores, patterns, sizes and call sequences run through the real batch source (from its file and from the tables), the embeddings and the subgraph stores, and every batch, matrix, counter, group, average and variance is decided by the specification.'),
 'C17': (T, 'Executable definitions of number texts, URLs, JSON (a character machine), HTTP framing and the collections, whose round trips TLC checks on small domains; random uses of the real maps, files, codecs, server, client (over loopback sockets, streams cut into pieces) and parallel helpers are decided by them.'),
 'C18': (T, 'The transform identities are checked on a small exact domain; transforms, convolutions and correlations of the real code over exactly representable inputs of every length class are decided by the specification.'),
 'C21': (T, 'A validity rule for plans (and a rule for edges and filters) is specified; TLC builds every valid plan for small query graphs, runs it with literal merges and adversarial orders over all small stores, and shows that it computes the graph and that order claims hold. The real planner gets random query graphs (nested optional parts, unions, subqueries, MINUS, VALUES, filters) and made-up costs, and each plan, edge list and filter copy is decided by the same rules. Executing plans is decided under C08 and C09.'),
}
NA = {
 'C14': 'The family applies (a graph view is a function of the stored triples), but the SNAP view of a store is not bound: reading it needs the binary layouts with fixed strategies that only the SNAP loader writes; no check has been built yet.',
 'C19': 'Crash points: the store has no logging or recovery protocol (files are written in place, a store that was not closed is not promised to be readable), so that there is no specified state after a crash to check against.',
 'C20': 'The file and memory managers are exercised below C01, C02, C04 and C06 (small cache and file sizes), but not bound to a specification of their own yet.',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [],
     'notes': 'Every check builds what it needs from /repo by itself (tools/vbuild.py) and needs nothing from setup_cmd. Known and fixed findings: known_findings.txt.'}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 checks/%s.py' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 checks/%s.py' % i, 'evidence_file': 'evidence/%s.json' % i,
                            'technique': CLAIMED[i][0], 'level': 'model_checking', 'level_note': CLAIMED[i][1]})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check has been built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
