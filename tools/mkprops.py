"""Writes properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': list(observe), 'hook_needed': hook}})
NOTEST = 'The stable tests are three SNAP programs that assert nothing about this; '
p('C01', 'A loaded store returns exactly the loaded triples through every permutation',
  'After loading any set of triples, reading the store through any of the six permutations, with any choice of bound positions, delivers exactly the loaded triples that match, each once, in the order of that permutation. This holds for every storage choice: number of permutations kept, aggregated or skipped tables, table layouts, identifier widths and number of loading threads.',
  ['inputs', 'configurations'], 'all finite sets of triples over identifiers below 2^40, all loader options, all patterns of bound positions',
  NOTEST + 'table layout, skipping and aggregation are chosen per table from the data, so a handful of inputs visits a handful of the combinations.',
  ['src/trident/kb/inserter.cpp', 'src/trident/kb/querier.cpp', 'src/trident/kb/memoryopt.cpp', 'src/trident/binarytables', 'src/trident/iterators', 'src/trident/loader.cpp'],
  [('layout selection per table', 'src/trident/binarytables/storagestrat.cpp'), ('skipped tables answered from the inverse permutation', 'Querier::getPermuted/newItrOnReverse'), ('aggregated tables', 'AggrItr'), ('term index', 'tree')],
  [('tables', 'the sorted pairs of each key, per permutation', 'p0..p5'), ('term index', 'key -> where its tables are', 'tree')], ['Querier::getIterator', 'Querier::getPermuted'])
p('C02', 'Updates act as set union and difference, and merging them is invisible',
  'After any sequence of additions and deletions, a reopened store shows exactly the base triples with the additions added and the deletions removed, in the order they were made; adding what is there and deleting what is not changes nothing. Every read sees this set, identifiers given to terms never change, and folding the updates together changes nothing that can be read. (Meant are stores that keep three or six permutations; updating others is not implemented.)',
  ['histories', 'inputs'], 'all histories of add / delete / merge / reopen over all finite sets of triples, including terms that the base does not know',
  NOTEST + 'the effect of an update depends on everything that happened before it.',
  ['src/trident/kb/updater.cpp', 'src/trident/kb/diffindex.cpp', 'src/trident/kb/querier.cpp', 'src/trident/kb/kb.cpp', 'src/trident/iterators/rmitr.cpp', 'src/trident/iterators/diffscanitr.cpp', 'src/trident/iterators/compositeitr.cpp', 'src/trident/iterators/compositescanitr.cpp'],
  [('filtering updates against the current contents', 'Updater::creatediffupdate'), ('combining base and updates', 'Querier::getIterator, CompositeItr, RmItr'), ('folding', 'KB::mergeUpdates, Querier::summaryAddDiff/summaryRmDiff')],
  [('_diff', 'one directory per update', 'store directory')], ['Querier', 'DictMgmt'])
p('C03', 'Counts, existence tests and group lists agree with the triples',
  'Every counting, existence, grouping and positional access primitive of the store returns what a scan of the matching triples would give: the number of triples of a pattern, the number and list of distinct values or pairs with their multiplicities, the edges and the n-th edge in the requested order, the distinct terms of a position, whether a pattern, a key or the whole store is empty. In the graph primitives equal negative arguments name the same variable. This holds whatever positions are bound, for all storage choices, and after updates. Estimates (estCard) are not meant, nor cursors that ignore the second column while updates are open.',
  ['inputs', 'configurations', 'histories'], 'all stores, all patterns, all primitives', NOTEST + 'each primitive has its own short cuts (index statistics, skipped tables, cached counts) whose agreement is a statement about all stores.',
  ['src/trident/kb/querier.cpp', 'include/trident/kb/querier.h', 'src/trident/iterators', 'include/trident/iterators'],
  [('cardinality from the term index', 'Querier::getCard'), ('group iterators', 'KeyCardItr'), ('edge iterators', 'EdgeItr')], [], ['Querier'])
p('C04', 'The dictionary is a bijection between terms and identifiers',
  'Every term of the loaded data and of later additions has exactly one identifier, which never changes, and every identifier gives back exactly its term, byte for byte, through every look-up function, before and after closing, reopening, updating and merging. Terms and identifiers that were never stored are not found. A string buffer gives back every string that was appended to it, in any order of requests, and compares it correctly with any other, however its blocks are filled, compressed and evicted. This holds whatever the terms look like: shared prefixes, lengths (below MAX_TERM_SIZE), characters.',
  ['inputs', 'histories'], 'all sets of terms, all dictionary options, all histories of updates',
  NOTEST + 'prefix compression and paging depend on the whole sorted set of terms.',
  ['src/trident/kb/dictmgmt.cpp', 'src/trident/tree/stringbuffer.cpp', 'src/trident/tree', 'src/trident/kb/updater.cpp'],
  [('forward and inverse trees over a compressed string buffer', 'DictMgmt, StringBuffer'), ('update dictionary', 'DictMgmt gud')], [], ['DictMgmt'])
p('C05', 'A pair cursor delivers exactly the qualifying pairs, once, in order',
  'A cursor over a sorted table of pairs, whatever it is made of (in-memory table, table with deletions, combination), delivers exactly the pairs that satisfy its constraints, each once and in order, or the distinct first components with their multiplicities when the second is ignored. Moving to a target goes to the first qualifying pair not below it and never backwards, a marked place can be returned to, and asking whether there is more changes nothing.',
  ['inputs', 'histories'], 'all tables, constraints and legal sequences of hasNext / next / moveto / mark / reset / ignoreSecondColumn',
  NOTEST + 'the cursor is a state machine whose next answer depends on the sequence of calls so far.',
  ['src/trident/iterators/arrayitr.cpp', 'src/trident/iterators/rmitr.cpp', 'src/trident/iterators', 'include/trident/iterators/pairitr.h'],
  [('look-ahead state of each iterator', 'hasNext/next/moveto')], [('position', 'what was delivered', 'ArrayItr, RmItr')], ['PairItr'])
p('C06', 'The disk-backed trees behave as ordered maps',
  'A tree with given keys and values answers every lookup, ordered traversal and insertion as the mathematical ordered map would, whatever the insertion order, node size, cache size and number of reopenings. What was inserted is there after closing and reopening; putting a key again replaces its value (for words: the first number given to a word stays, and the caller is told so). A tree is written once, from its creation to its closing, and then only read, as the loader and the store do; append is called with increasing keys. Values are numbers or table coordinates; trees of words are looked up but not traversed.',
  ['inputs', 'histories', 'configurations'], 'all sequences of put / get / traverse / close / reopen, all key sets, all node and cache sizes',
  NOTEST + 'splits, evictions and the compact node encodings depend on the history and the key distribution.',
  ['src/trident/tree'], [('node split, cache eviction and node encoding', 'src/trident/tree')], [], ['Root, TreeItr'])
p('C07', 'Cached table ranges are exactly what was stored',
  'Every block stored in the range cache for a key is found again under that key, with exactly the pairs it was stored with, however many times blocks are added to the key and whatever is stored under other keys; a key nothing was stored for has no entry; blocks come back sorted once they were merged. An iterator that reads through the cache gives for every first term exactly the second terms the store has, whether they come from the cache or are collected, in any order of requests; when it is done, everything it collected is in the cache, and a block never claims to know a first term without holding all its pairs.',
  ['histories', 'inputs'], 'all sequences of stores and lookups over all intervals', NOTEST + 'the answer depends on which intervals were stored before, in which order.',
  ['src/trident/kb/cacheidx.cpp', 'include/trident/kb/cacheidx.h'], [('sorted interval list per key', 'CacheIdx')], [], ['CacheIdx'])
p('C08', 'A query returns the answers SPARQL semantics prescribes',
  'For every store and every query of the supported fragment, the rows returned are the multiset the SPARQL algebra defines over the current triples (DISTINCT keeps each once), in an order ORDER BY allows, cut by LIMIT and OFFSET. The chosen plan, join order, cost estimates and storage layout do not influence the answer. The fragment: groups of triple patterns (also repeated variables, only constants, only variables, unknown terms, cross products), OPTIONAL, UNION of alternatives that bind the same variables, MINUS, VALUES over terms of the store, subqueries, FILTER anywhere in its group (=, !=, <, >, !, &&, ||, isIRI, isLiteral, sameTerm) over variables that the group always binds, GROUP BY with COUNT and COUNT DISTINCT, DISTINCT, ORDER BY, LIMIT, OFFSET. (Not covered: BIND, NOT EXISTS, joins and filters on variables that may be unbound, aggregates other than COUNT or without GROUP BY, a COUNT DISTINCT next to another aggregate.)',
  ['inputs', 'programs', 'configurations'], 'all stores and all queries of the fragment', NOTEST + 'the number of plans is unbounded and each exercises its own operators.',
  ['rdf3x/src/cts', 'rdf3x/src/rts', 'src/layers', 'src/trident/sparql'], [('semantic analysis', 'SemanticAnalysis'), ('query graph', 'QueryGraph'), ('plan generation', 'PlanGen'), ('code generation', 'CodeGen'), ('operators', 'Operator')], [], ['rows of a query'])
p('C09', 'Physical query operators compute their relational-algebra results',
  'Each query operator (index scans of every order and aggregation, merge join, hash join and cartesian product with and without optional sides, nested loop join and filter, union, merge union, minus, filter, grouping, hash grouping, duplicate elimination and limit, assignment, singleton, empty, values, table function) delivers the bag of rows with multiplicities that its algebraic definition gives on its inputs, in the order it promises (scans, merge joins, merge unions and groupings are sorted; a grouping gives each group once). Starting an operator again, also half-way, delivers the same bag. Skip hints and domain descriptions never lose a qualifying row. Identifiers of a temporary dictionary are stable and distinct.',
  ['inputs', 'histories'], 'all input bags with multiplicities, all operator configurations, all composition depths', NOTEST + 'operators consume streams with multiplicities and keep state between rows.',
  ['rdf3x/src/rts/operator', 'rdf3x/include/rts/operator'], [('first()/next() protocol with counts', 'Operator'), ('registers', 'Register')], [], ['Operator::first, Operator::next'])
p('C10', 'The query lexer and parser read every query as the grammar says',
  'The tokens of a query text (IRIs, strings, variables, identifiers, numbers, punctuation) are those of the SPARQL grammar; white space and comments do not matter; a token put back comes again; escapes in IRIs and strings are decoded once; keywords are identifiers in any case, never variables, strings or IRIs. The structure that the parser builds from a query (prefixes, SELECT with modifiers, star and assignments, CONSTRUCT templates, groups of triple patterns with ; , [] and blank node labels, OPTIONAL, UNION, MINUS, FILTER, BIND, VALUES, subqueries, NOT EXISTS, expressions with precedence, calls and aggregates, GROUP BY, HAVING, ORDER BY, LIMIT, OFFSET) is exactly the one written; a nested group is a part of the group around it, a star projects the variables that the pattern binds. Ill-formed text is rejected with a ParserException and never misread. (Not covered: the empty prefix, BASE, FROM, IN, EXISTS, \\u escapes, exponents, numbers and booleans as terms of triples; a variable name means one variable in the whole query.)',
  ['inputs'], 'all query texts of the fragment and all sequences of get / unget', NOTEST + 'grammars are infinite.',
  ['rdf3x/src/cts/parser', 'rdf3x/include/cts/parser'], [('lexer', 'SPARQLLexer'), ('parser', 'SPARQLParser')], [], ['SPARQLLexer::getNext', 'SPARQLParser'])
p('C11', 'The Turtle parser yields exactly the triples the document denotes',
  'Parsing a Turtle document with TurtleParser delivers exactly the triples it denotes under its prefixes, base, abbreviations (; , [] and collections), literals and blank nodes: each once, up to the order and the labels of blank nodes. A malformed document delivers the triples of the statements before the error and then throws.',
  ['inputs'], 'all documents of the supported syntax, all layouts of white space and comments', NOTEST + 'a document is unbounded and each abbreviation composes with every other.',
  ['rdf3x/src/cts/parser/TurtleParser.cpp'], [('recursive descent parser', 'TurtleParser')], [], ['TurtleParser::parse'])
p('C12', 'Mutable graphs keep nodes, edges and both adjacency directions consistent',
  'After any sequence of node and edge insertions and deletions a graph contains exactly the nodes and edges so defined; degrees, neighbour lists, edge tests, iteration, copying, serialisation and defragmentation agree with that set, and in- and out-adjacency mirror each other. Subgraphs, conversions between kinds, ego networks, edge-list files and degree counts are those of that set, and node data, edge data and attribute values stay with their node or edge.',
  ['histories', 'inputs'], 'all sequences of AddNode / DelNode / AddEdge / DelEdge / Defrag / save / load over directed, undirected, bipartite and multi graphs and networks with data or attributes', 'The stable tests build a few fixed graphs and print; adjacency is duplicated in sorted vectors and hash tables whose slots are reused after deletions, so correctness depends on the history.',
  ['snap/snap-core/graph.h', 'snap/snap-core/graph.cpp', 'snap/snap-core/network.h', 'snap/snap-core/network.cpp', 'snap/snap-core/subgraph.h', 'snap/snap-core/subgraph.cpp', 'snap/snap-core/gio.h', 'snap/snap-core/alg.h', 'snap/glib-core/hash.h', 'snap/glib-core/ds.h'], [('sorted adjacency vectors in both end points', 'TNGraph, TUNGraph'), ('hash table with free list', 'THash')], [], ['graph API'])
p('C13', 'Graph analytics compute the defined quantity on every graph',
  'For every graph, the breadth-first distances, connected components (weak, strong, bi-connected), articulation points and bridges, k-core, triangles and clustering coefficients, PageRank, HITS, degree and centrality measures, and random-walk reachability have the values that their mathematical definitions give. Results do not depend on node numbering or insertion order.',
  ['inputs', 'configurations'], 'all finite graphs, directed or undirected, with self loops, isolated nodes and sparse node ids', 'The stable tests run algorithms on a few fixed graphs and check nothing about the values.',
  ['snap/snap-core', 'src/snap', 'include/snap'], [('algorithms', 'snap/snap-core/{bfsdfs,cncom,kcore,triad,centr}')], [], ['TSnap functions'])
p('C14', 'The graph view of a store shows exactly its edges',
  'The directed and undirected graph views over a stored graph report the nodes, in- and out-degrees and neighbours of the stored edges. An analytics task on the view gives the same result as on an in-memory copy of the graph.',
  ['inputs', 'configurations'], 'all stored graphs', NOTEST + 'the view reads raw table layouts, chosen per node.', ['src/snap', 'include/snap', 'src/trident/tree/flatroot.cpp'],
  [('flat tree over raw tables', 'FlatRoot, Trident_TNGraph, Trident_UTNGraph')], [], ['Trident_TNGraph, Trident_UTNGraph, Analytics'])
p('C15', 'Synchronisation primitives exclude, wake and terminate correctly',
  'At most one thread holds a mutex, tryLock takes it exactly when it is free, and waiting gives it up and takes it again. A notification wakes a thread that was waiting when it was made (notifyAll: all of them) and nobody else; a timed wait reports whether it was woken, and gives up only after its time. Threads run what they were started with, sleeps last as long as asked, thread ids tell threads apart. A scheduler runs every registered asynchronous point once, after the points it depends on, the most urgent ready one first, on at most its number of threads; the main part of the plan runs after all of them; execution always ends, and a destroyed scheduler leaves no thread that uses it. A pool never hands out an entry that is in use, enumerates exactly the entries in use, and constructs and destroys each object once.',
  ['schedules', 'histories'], 'all interleavings of the operations', 'No test runs threads.', ['rdf3x/src/infra', 'rdf3x/include/infra', 'rdf3x/src/rts/runtime', 'rdf3x/src/rts/operator/Scheduler.cpp', 'rdf3x/include/rts/operator/Scheduler.hpp'],
  [('mutex / condition wrappers', 'Mutex, Event, Thread'), ('priority queue of asynchronous points', 'Scheduler'), ('free list', 'VarPool, StructPool')], [], ['Mutex, Event, Thread, Scheduler, Pool'])
p('C16', 'Training batches cover the training set; embeddings survive storage',
  'Each epoch of a batch source delivers every training triple that matches its pattern exactly once in some order, all batches but the last of the requested size; a batch that is asked for by its number is the part of the same order that belongs to it; validation and test sets are disjoint from each other and from training. Relations are numbered by rank when read from a batch file and by identifier when read from the tables (which must be row or column tables). Stored embeddings are read back unchanged with their counters; initial values are in range and normalised if asked. The subgraphs of a store are the groups of triples with the same object and relation, and the same subject and relation, that have more than the minimum of members, with the average (and variance) of the vectors of the members; they survive storage. (A training set must not be empty.)',
  ['inputs', 'schedules'], 'all stores, patterns, batch sizes, shuffles and storage rounds', NOTEST + 'batching is randomised.', ['src/trident/ml', 'include/trident/ml'],
  [('batch creator', 'BatchCreator'), ('embedding storage', 'Embeddings'), ('subgraphs', 'Subgraphs')], [], ['BatchCreator, Embeddings, Subgraphs'])
p('C17', 'Shared utilities satisfy their data-type contracts',
  'Configuration and property maps return what was last set under a key, copies are independent, and a text that encodes a number or truth value is read as that value. Memory-mapped files show the bytes written, from any page on. JSON documents written parse back to the same values and any JSON text is read as the values it spells or refused. Percent-escapes, URLs, and lists of numbers in files are decoded by their rules. An HTTP server hands each request to its handler complete and unaltered, and a client returns the head and body of a response, however the bytes arrive. Parallel sorting sorts, a parallel loop visits every index of its range once, and a concurrent queue delivers every element once, in order.',
  ['inputs', 'histories', 'schedules'], 'all sequences of set / get / copy, all byte strings, all ways to cut a stream into pieces (one HTTP request per connection at a time; JSON without duplicate names, mixed lists and fractions)', NOTEST + 'inputs are unbounded strings.', ['src/trident/utils', 'include/trident/utils', 'src/trident/kb/kbconfig.cpp'],
  [('property map', 'PropertyMap, KBConfig'), ('JSON', 'utils/json.cpp'), ('HTTP', 'httpserver.cpp, httpclient.cpp'), ('tasks', 'utils/parallel.h')], [], ['KBConfig, PropertyMap, JSON, HttpServer, HttpClient, MemoryMappedFile, ParallelTasks, ConcurrentQueue'])
p('C18', 'Circular correlation equals its definition',
  'The fast circular correlation and convolution of two vectors of any length equal, up to rounding, the sums that define them; the forward transform followed by the inverse is the identity, and input vectors are left as documented.',
  ['inputs'], 'all lengths (powers of two or not) and all values', NOTEST + 'nothing exercises the transform.', ['src/trident/utils/fft.cpp', 'include/trident/utils/fft.h'],
  [('radix-2 and Bluestein transforms', 'Fft')], [], ['Fft'])
p('C19', 'A crash during an update leaves the old or the new store',
  'If the process stops at any point while an update or merge is being written, reopening the store shows either the contents before or the contents after that operation, with every term still decodable; operations completed before are not lost.',
  ['crash_points', 'histories'], 'every point between two file-system operations of an update or merge, in every history', NOTEST + 'crash points are never reached by running operations to their end.',
  ['src/trident/kb/updater.cpp', 'src/trident/kb/kb.cpp', 'src/trident/kb/dictmgmt.cpp', 'src/trident/kb/diffindex.cpp'], [('update directory written aside', 'Updater'), ('rename', 'KB::mergeUpdates')], [], ['store directory, KB'])
p('C20', 'Files are read back as written whatever is cached',
  'A table file managed through the bounded cache returns exactly the bytes written at every position, whatever the number and size of files, the memory limit and the interleaving of sessions, and never keeps more open than allowed.',
  ['histories', 'configurations'], 'all sequences of write / read / evict over all sizes', NOTEST + 'eviction depends on the access history.', ['src/trident/files', 'include/trident/files', 'src/trident/utils/memorymgr.h', 'include/trident/utils'],
  [('LRU of open files', 'FileManager'), ('memory manager', 'MemoryManager')], [], ['FileManager, FileDescriptor, ComprFileDescriptor'])
p('C21', 'Every plan for a query graph computes that graph',
  'Whatever the cost estimates, the plan chosen for a query graph computes the graph: every triple pattern, optional part, union, VALUES and subquery of a group is in the plan exactly once, every filter is applied, where the variables it reads are available, every MINUS is applied once the rest of its group is complete; a variable an access path leaves out is used nowhere else in the query (projection, ORDER BY, GROUP BY, aggregates, filters, other patterns, at any depth); a claim that an operator delivers its rows sorted by a variable is true, and merge joins and merge unions rely on such claims only; a product combines only parts without common variables, an optional part is added after all required ones, and duplicate elimination, grouping and aggregation stand above the group when the query asks for them. The edges of a group connect exactly the pairs of parts with common variables and name these. Copying or assigning a filter gives the same filter, and its variables, literals and applicability are those of its tree.',
  ['inputs', 'configurations'], 'all query graphs and all cost estimates', NOTEST + 'plan spaces grow exponentially and one cost estimate shows one plan of each.',
  ['rdf3x/src/cts/PlanGen.cpp', 'rdf3x/src/cts/QueryGraph.cpp', 'rdf3x/src/cts/Plan.cpp'], [('edges and filters', 'QueryGraph'), ('dynamic programming', 'PlanGen'), ('plans', 'Plan')], [], ['PlanGen::translate', 'QueryGraph::constructEdges', 'Filter::isApplicable'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
