-------------------------------- MODULE Graph --------------------------------
(* Graphs and networks as a user of the graph library sees them: a set of nodes (with a number on each, where the kind has
   node data), a set of edges (with a number on each, where the kind has edge data), and named attributes.
     kinds   U V   undirected, simple (V: TUndirNet)         B   bipartite: every edge joins a left and a right node
             D W   directed, simple (W: TDirNet)             N   directed, simple, node data
             E     directed, simple, node and edge data
             M A   directed multigraphs (A: with attributes)  X   directed multigraph, node and edge data
   An edge is [s, d, e, w]: its ends, its identifier (0 where edges have none), its number (0 where they have none).
   An undirected edge is kept with its smaller end first, a bipartite one with its left end first. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Und(k) == k \in {"U", "V", "B"}
Multi(k) == k \in {"M", "X", "A"}
HasND(k) == k \in {"N", "E", "X"}
HasED(k) == k \in {"E", "X"}
NoAttr == << >>
Empty(k) == [k |-> k, N |-> {}, nd |-> << >>, L |-> {}, E |-> {}, na |-> NoAttr, ea |-> NoAttr]
Ends(g, s, d) == IF g.k \in {"U", "V"} THEN IF s <= d THEN <<s, d>> ELSE <<d, s>>
                 ELSE IF g.k = "B" THEN IF s \in g.L THEN <<s, d>> ELSE <<d, s>> ELSE <<s, d>>
At(g, s, d) == LET p == Ends(g, s, d) IN {x \in g.E : x.s = p[1] /\ x.d = p[2]}
Has(g, s, d) == At(g, s, d) # {}
Edge(g, s, d, e, w) == LET p == Ends(g, s, d) IN [s |-> p[1], d |-> p[2], e |-> e, w |-> w]
Eids(g) == {x.e : x \in g.E}
Ext(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, S) == [y \in DOMAIN f \ S |-> f[y]]
\* an attribute is a default and a value for every node (edge); new nodes (edges) get the default
NewIn(at, i) == [a \in DOMAIN at |-> [at[a] EXCEPT !.v = Ext(@, i, at[a].def)]]
Gone(at, S) == [a \in DOMAIN at |-> [at[a] EXCEPT !.v = Drop(@, S)]]

AddN(g, n, dat, left) == IF n \in g.N THEN g
  ELSE [g EXCEPT !.N = @ \cup {n}, !.nd = Ext(@, n, dat), !.L = IF left THEN @ \cup {n} ELSE @, !.na = NewIn(@, n)]
\* adding an edge that is there already: the kinds with edge data take the new number, the others do nothing
AddE(g, s, d, e, w) ==
  IF Multi(g.k) THEN [g EXCEPT !.E = @ \cup {Edge(g, s, d, e, w)}, !.ea = NewIn(@, e)]
  ELSE IF Has(g, s, d) THEN IF HasED(g.k) THEN [g EXCEPT !.E = (@ \ At(g, s, d)) \cup {Edge(g, s, d, 0, w)}] ELSE g
  ELSE [g EXCEPT !.E = @ \cup {Edge(g, s, d, 0, w)}]
Del(g, D) == [g EXCEPT !.E = @ \ D, !.ea = Gone(@, {x.e : x \in D})]
DelE(g, s, d, dir) == Del(g, At(g, s, d) \cup (IF dir \/ Und(g.k) THEN {} ELSE At(g, d, s)))
DelN(g, n) == LET h == Del(g, {x \in g.E : x.s = n \/ x.d = n}) IN
  [h EXCEPT !.N = @ \ {n}, !.nd = Drop(@, {n}), !.L = @ \ {n}, !.na = Gone(@, {n})]
RECURSIVE AddPairs(_, _)
AddPairs(g, ps) == IF ps = << >> THEN g ELSE AddPairs(AddE(g, ps[1][1], ps[1][2], 0, 0), Tail(ps))
RECURSIVE DelNs(_, _)
DelNs(g, S) == IF S = {} THEN g ELSE LET n == CHOOSE n \in S : TRUE IN DelNs(DelN(g, n), S \ {n})
RECURSIVE AddSet(_, _)
AddSet(g, S) == IF S = {} THEN g ELSE LET p == CHOOSE p \in S : TRUE IN AddSet(AddE(g, p[1], p[2], 0, 0), S \ {p})

\* what a node sees
OutE(g, n) == IF Und(g.k) THEN {x \in g.E : n \in {x.s, x.d}} ELSE {x \in g.E : x.s = n}
InE(g, n) == IF Und(g.k) THEN OutE(g, n) ELSE {x \in g.E : x.d = n}
OutN(g, n) == {IF x.s = n THEN x.d ELSE x.s : x \in OutE(g, n)}
InN(g, n) == {IF x.d = n THEN x.s ELSE x.d : x \in InE(g, n)}
NbrN(g, n) == OutN(g, n) \cup InN(g, n)
OutDeg(g, n) == Cardinality(OutE(g, n))
InDeg(g, n) == Cardinality(InE(g, n))
Deg(g, n) == IF Und(g.k) THEN OutDeg(g, n) ELSE OutDeg(g, n) + InDeg(g, n)
Loops(g) == {x \in g.E : x.s = x.d}

RECURSIVE SumDegOver(_, _)
SumDegOver(g, S) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN Deg(g, n) + SumDegOver(g, S \ {n})
SumDeg(g) == SumDegOver(g, g.N)

\* derived graphs
Kept(g, S) == {x \in g.E : x.s \in S /\ x.d \in S}
\* the same nodes and edges in another kind; an undirected edge becomes one each way
Convert(g, k, S, E) ==
  LET base == [Empty(k) EXCEPT !.N = S, !.nd = [n \in S |-> 0]]
      ps == {<<x.s, x.d>> : x \in E} \cup (IF Und(g.k) /\ ~Und(k) THEN {<<x.d, x.s>> : x \in E} ELSE {})
  IN AddSet(base, ps)
SubG(g, S, E) == [g EXCEPT !.N = S, !.nd = [n \in S |-> g.nd[n]], !.L = @ \cap S, !.E = E, !.na = NoAttr, !.ea = NoAttr]
=============================================================================
