------------------------------- MODULE Planner -------------------------------
(* Query graphs and plans.  A query graph is
     [id, proj, order, group, agg, distinct, body],  body = [nodes, filters, opts, unis, vals, subs, minus],
   a node [id, t] has three terms (a variable >= 0 or a constant < 0), a filter is [id, e] with e a tree [t, id, kids], values are
   [id, vs], subs and minus are graphs, an element of unis is a sequence of bodies.  Identifiers are unique in a graph.
   A plan is a tree of
     [op, id, ord, arg, opt, perm, sorted, kids]:
   a scan reads the positions of its node in the order perm (sorted by them or not), ord is the variable by which the operator claims
   to deliver its rows sorted (-1: none), opt marks an optional part.
   GraphOK(pl, g) says that pl computes g, whatever the data: every part is there once, every filter is applied where its
   variables are bound, whatever is left out is not needed by anyone, claims of order are true, and merges rely on claims only. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoVar == -1
IsVar(t) == t >= 0
Rng(s) == {s[i] : i \in 1..Len(s)}
NodeVars(n) == {n.t[i] : i \in {j \in 1..3 : IsVar(n.t[j])}}
RECURSIVE FV(_), BV(_), Ids(_), UsesBody(_, _)
FV(e) == IF e.t = "var" THEN {e.id} ELSE UNION {FV(e.kids[i]) : i \in 1..Len(e.kids)}
UniV(u) == UNION {BV(u[i]) : i \in 1..Len(u)}
\* the variables a body binds
BV(b) == UNION {NodeVars(b.nodes[i]) : i \in 1..Len(b.nodes)} \cup UNION {BV(b.opts[i]) : i \in 1..Len(b.opts)}
         \cup UNION {UniV(b.unis[i]) : i \in 1..Len(b.unis)} \cup UNION {Rng(b.vals[i].vs) : i \in 1..Len(b.vals)} \cup UNION {Rng(b.subs[i].proj) : i \in 1..Len(b.subs)}
UniIds(u) == UNION {Ids(u[i]) : i \in 1..Len(u)}
\* the identifiers of its leaves
Ids(b) == {b.nodes[i].id : i \in 1..Len(b.nodes)} \cup UNION {Ids(b.opts[i]) : i \in 1..Len(b.opts)}
          \cup UNION {UniIds(b.unis[i]) : i \in 1..Len(b.unis)} \cup {b.vals[i].id : i \in 1..Len(b.vals)} \cup {b.subs[i].id : i \in 1..Len(b.subs)}
\* the parts of a body in the order in which edges count them
Part(k, b, i) == [k |-> k, i |-> i,
   ids |-> (CASE k = "node" -> {b.nodes[i].id} [] k = "opt" -> Ids(b.opts[i]) [] k = "uni" -> UniIds(b.unis[i]) [] k = "sub" -> {b.subs[i].id} [] OTHER -> {b.vals[i].id}),
   vars |-> (CASE k = "node" -> NodeVars(b.nodes[i]) [] k = "opt" -> BV(b.opts[i]) [] k = "uni" -> UniV(b.unis[i]) [] k = "sub" -> Rng(b.subs[i].proj) [] OTHER -> Rng(b.vals[i].vs))]
PartsOf(b) == [i \in 1..Len(b.nodes) |-> Part("node", b, i)] \o [i \in 1..Len(b.opts) |-> Part("opt", b, i)] \o [i \in 1..Len(b.unis) |-> Part("uni", b, i)]
              \o [i \in 1..Len(b.subs) |-> Part("sub", b, i)] \o [i \in 1..Len(b.vals) |-> Part("val", b, i)]
\* edges: which parts share which variables, parts numbered from 0
Edges(b) == LET P == PartsOf(b) IN {[a |-> i - 1, b |-> j - 1, c |-> P[i].vars \cap P[j].vars] : i \in 1..Len(P), j \in 1..Len(P)}
EdgeSet(b) == {e \in Edges(b) : e.a < e.b /\ e.c # {}}
\* variables used in a body outside the leaves or the union skipped
UsesBody(b, skip) ==
  UNION {NodeVars(b.nodes[i]) : i \in {j \in 1..Len(b.nodes) : {b.nodes[j].id} # skip}} \cup UNION {FV(b.filters[i].e) : i \in 1..Len(b.filters)}
  \cup UNION {UsesBody(b.opts[i], skip) : i \in 1..Len(b.opts)}
  \cup UNION {(IF UniIds(b.unis[i]) = skip THEN {} ELSE UNION {UsesBody(b.unis[i][j], skip) : j \in 1..Len(b.unis[i])}) : i \in 1..Len(b.unis)}
  \cup UNION {Rng(b.vals[i].vs) : i \in 1..Len(b.vals)} \cup UNION {Rng(b.subs[i].proj) : i \in 1..Len(b.subs)}
  \cup UNION {UsesBody(b.minus[i].body, skip) : i \in 1..Len(b.minus)}
Uses(g, skip) == Rng(g.proj) \cup Rng(g.order) \cup Rng(g.group) \cup Rng(g.agg) \cup UsesBody(g.body, skip)
\* ---- plans
Scans == {"scan", "aggscan", "fullscan"}
Joins == {"merge", "hash", "nlj", "cart"}
Leaves == Scans \cup {"values", "subselect", "union", "mergeunion"}
Width(pl) == CASE pl.op = "scan" -> 3 [] pl.op = "aggscan" -> 2 [] OTHER -> 1
RECURSIVE PIds(_)
PIds(pl) == CASE pl.op \in Scans \cup {"values", "subselect"} -> {pl.id} [] pl.op \in {"filter", "minus"} -> PIds(pl.kids[1])
              [] OTHER -> UNION {PIds(pl.kids[i]) : i \in 1..Len(pl.kids)}
\* the part a leaf of the tree of b stands for
PartFor(pl, b) == LET S == PIds(pl) H == {i \in 1..Len(PartsOf(b)) : PartsOf(b)[i].ids = S} IN IF H = {} THEN [k |-> "none", i |-> 0, ids |-> S, vars |-> {}] ELSE PartsOf(b)[CHOOSE i \in H : TRUE]
IsPart(pl) == pl.opt \/ pl.op \in Leaves
\* the leaves of the tree, in order
RECURSIVE LeavesOf(_), Del(_, _), TreeOK(_, _, _), Alts(_, _), Applied(_), Minuses(_)
LeavesOf(pl) == IF IsPart(pl) THEN <<pl>> ELSE IF pl.op \in Joins THEN LeavesOf(pl.kids[1]) \o LeavesOf(pl.kids[2]) ELSE IF pl.op \in {"filter", "minus"} THEN LeavesOf(pl.kids[1]) ELSE <<pl>>
Plain(pl) == [pl EXCEPT !.opt = FALSE]
\* the variables a plan for (a part of) b delivers
Del(pl, b) ==
  IF pl.opt THEN (LET p == PartFor(pl, b) IN IF p.k # "opt" THEN {} ELSE Del(Plain(pl), b.opts[p.i]))
  ELSE IF pl.op \in Scans THEN LET p == PartFor(pl, b) IN IF p.k # "node" THEN {} ELSE LET t == b.nodes[p.i].t IN {t[pl.perm[i]] : i \in {j \in 1..Width(pl) : IsVar(t[pl.perm[j]])}}
  ELSE IF pl.op = "mergeunion" THEN {pl.ord}
  ELSE IF pl.op \in Leaves THEN PartFor(pl, b).vars
  ELSE IF pl.op \in Joins THEN Del(pl.kids[1], b) \cup Del(pl.kids[2], b)
  ELSE Del(pl.kids[1], b)
\* the variable a scan is sorted by
ScanOrder(pl, t) == LET V == {j \in 1..Width(pl) : IsVar(t[pl.perm[j]])} IN IF ~pl.sorted \/ V = {} THEN NoVar ELSE t[pl.perm[CHOOSE j \in V : \A k \in V : j <= k]]
Claim(pl, v) == pl.ord \in {NoVar, v}
Alts(pl, n) == IF n = 1 THEN <<pl>> ELSE IF Len(pl.kids) # 2 THEN <<>> ELSE <<pl.kids[1]>> \o Alts(pl.kids[2], n - 1)
RECURSIVE GroupOK(_, _, _), GraphOK(_, _)
PartOK(pl, p, b, g) ==
  CASE p.k = "node" ->
         LET n == b.nodes[p.i] out == {j \in 1..3 : j > Width(pl)} IN
         /\ pl.op \in Scans /\ ~pl.opt /\ Claim(pl, ScanOrder(pl, n.t))
         /\ \A j \in out : LET x == n.t[pl.perm[j]] IN IsVar(x) /\ x \notin Uses(g, {n.id}) /\ \A k \in 1..3 : k # j => n.t[pl.perm[k]] # x
         /\ (pl.op = "fullscan" => IsVar(n.t[pl.perm[1]]))
    [] p.k = "opt" -> pl.opt /\ GroupOK(Plain(pl), b.opts[p.i], g)
    [] p.k = "uni" ->
         LET u == b.unis[p.i] A == Alts(pl, Len(u)) IN
         /\ ~pl.opt /\ pl.op \in {"union", "mergeunion"} /\ Len(A) = Len(u) /\ \A i \in 1..Len(u) : GroupOK(A[i], u[i], g)
         /\ (pl.op = "union" => pl.ord = NoVar)
         /\ (pl.op = "mergeunion" => \* one column only is merged
               /\ pl.ord # NoVar /\ \A i \in 1..Len(A) : A[i].ord = pl.ord /\ pl.ord \in Del(A[i], u[i])
               /\ (p.vars \ {pl.ord}) \cap Uses(g, p.ids) = {})
    [] p.k = "val" -> ~pl.opt /\ pl.op = "values" /\ pl.ord = NoVar
    [] p.k = "sub" -> ~pl.opt /\ pl.op = "subselect" /\ pl.ord = NoVar /\ GraphOK(pl.kids[1], b.subs[p.i])
    [] OTHER -> FALSE
PartVars(pl, b) == LET L == LeavesOf(pl) IN UNION {PartFor(L[i], b).vars : i \in 1..Len(L)}
Covers(pl, b, k) == LET L == LeavesOf(pl) IN {PartFor(L[i], b).ids : i \in {j \in 1..Len(L) : k = "" \/ PartFor(L[j], b).k # k}}
Required(b) == {PartsOf(b)[i].ids : i \in {j \in 1..Len(PartsOf(b)) : PartsOf(b)[j].k # "opt"}}
TreeOK(pl, b, g) ==
  IF IsPart(pl) THEN PartOK(pl, PartFor(pl, b), b, g)
  ELSE IF pl.op = "filter" THEN
    /\ TreeOK(pl.kids[1], b, g) /\ Claim(pl, pl.kids[1].ord)
    /\ \E i \in 1..Len(b.filters) : b.filters[i].id = pl.id /\ FV(b.filters[i].e) \cap BV(b) \subseteq Del(pl.kids[1], b)
  ELSE IF pl.op = "minus" THEN
    /\ TreeOK(pl.kids[1], b, g) /\ Claim(pl, pl.kids[1].ord) /\ Covers(pl.kids[1], b, "") = {PartsOf(b)[i].ids : i \in 1..Len(PartsOf(b))}
    /\ \E i \in 1..Len(b.minus) : b.minus[i].id = pl.id /\ GroupOK(pl.kids[2], b.minus[i].body, g)
  ELSE IF pl.op \in Joins THEN
    LET x == pl.kids[1] y == pl.kids[2] IN
    /\ TreeOK(x, b, g) /\ TreeOK(y, b, g) /\ ~(x.opt /\ y.opt)
    /\ (x.opt => Required(b) \subseteq Covers(y, b, "")) /\ (y.opt => Required(b) \subseteq Covers(x, b, ""))
    /\ CASE pl.op = "merge" -> pl.arg # NoVar /\ x.ord = pl.arg /\ y.ord = pl.arg /\ Claim(pl, pl.arg)
         [] pl.op = "hash" -> pl.ord = NoVar
         [] pl.op = "nlj" -> ~x.opt /\ ~y.opt /\ Claim(pl, x.ord)
         [] OTHER -> pl.ord = NoVar /\ PartVars(x, b) \cap PartVars(y, b) = {}
  ELSE FALSE
Applied(pl) == IF IsPart(pl) THEN {} ELSE (IF pl.op = "filter" THEN {pl.id} ELSE {}) \cup (IF pl.op = "minus" THEN Applied(pl.kids[1]) ELSE UNION {Applied(pl.kids[i]) : i \in 1..Len(pl.kids)})
Minuses(pl) == IF IsPart(pl) THEN <<>> ELSE (IF pl.op = "minus" THEN <<pl.id>> \o Minuses(pl.kids[1]) ELSE IF pl.op \in Joins THEN Minuses(pl.kids[1]) \o Minuses(pl.kids[2]) ELSE IF pl.op = "filter" THEN Minuses(pl.kids[1]) ELSE <<>>)
GroupOK(pl, b, g) ==
  LET L == LeavesOf(pl) M == Minuses(pl) IN
  /\ TreeOK(pl, b, g)
  /\ Len(L) = Len(PartsOf(b)) /\ {PartFor(L[i], b).ids : i \in 1..Len(L)} = {PartsOf(b)[i].ids : i \in 1..Len(PartsOf(b))}
  /\ Applied(pl) = {b.filters[i].id : i \in 1..Len(b.filters)}
  /\ Len(M) = Len(b.minus) /\ Rng(M) = {b.minus[i].id : i \in 1..Len(b.minus)}
\* what stands above the group of a graph
Above(g) == (IF g.distinct THEN <<"groupify">> ELSE <<>>) \o (IF g.agg # <<>> THEN <<"aggregates">> ELSE <<>>) \o (IF g.agg # <<>> \/ g.group # <<>> THEN <<"groupby">> ELSE <<>>)
RECURSIVE Peel(_, _)
Peel(pl, ops) == IF ops = <<>> THEN <<pl>> ELSE IF pl.op # Head(ops) \/ pl.ord # NoVar THEN <<>> ELSE Peel(pl.kids[1], Tail(ops))
GraphOK(pl, g) == LET P == Peel(pl, Above(g)) IN P # <<>> /\ GroupOK(P[1], g.body, g)
=============================================================================
