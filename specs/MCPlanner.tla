------------------------------ MODULE MCPlanner ------------------------------
(* Builds every plan the planner's rules allow for small query graphs, from the leaves up, and runs it: scans that claim no order come
   in an adversarial one, merge joins and merge unions walk their inputs with two pointers and never look back.  Every plan
   GraphOK accepts must compute the graph's meaning, with its duplicates, on every small store. *)
EXTENDS Planner, SequencesExt, Bags
CONSTANTS Graphs, Consts, MaxTriples, Lean      \* Lean: scans in fewer orders
X == 0 Y == 1 Z == 2
Vars == {X, Y, Z}
A == 1 B == 2                                   \* constants; in a node they stand as -1, -2
VARIABLES gi, pool
vars == <<gi, pool>>
N(i, s, p, o) == [id |-> i, t |-> <<s, p, o>>]
Body(n, f, o, u, v, s, m) == [nodes |-> n, filters |-> f, opts |-> o, unis |-> u, vals |-> v, subs |-> s, minus |-> m]
OnlyNodes(n) == Body(n, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>)
Graph(i, pr, d, b) == [id |-> i, proj |-> pr, order |-> <<>>, group |-> <<>>, agg |-> <<>>, distinct |-> d, body |-> b]
VarT(v) == [t |-> "var", id |-> v, kids |-> <<>>]
Same(v, w) == [t |-> "f", id |-> 2, kids |-> <<VarT(v), VarT(w)>>]
G == [
  chain |-> Graph(90, <<X, Z>>, FALSE, OnlyNodes(<<N(1, X, -1, Y), N(2, Y, -1, Z)>>)),
  star |-> Graph(90, <<X>>, FALSE, OnlyNodes(<<N(1, X, Y, -2), N(2, X, Z, -1)>>)),
  twice |-> Graph(90, <<X>>, FALSE, OnlyNodes(<<N(1, X, -1, Y), N(2, X, -2, Y)>>)),
  cross |-> Graph(90, <<X>>, FALSE, OnlyNodes(<<N(1, X, -1, -1), N(2, Y, -1, Z)>>)),
  loop |-> Graph(90, <<Y>>, FALSE, OnlyNodes(<<N(1, X, -1, X), N(2, Y, -1, -2)>>)),
  distinct |-> Graph(90, <<X>>, TRUE, OnlyNodes(<<N(1, X, -1, Y), N(2, X, -2, Z)>>)),
  filt |-> Graph(90, <<X>>, FALSE, Body(<<N(1, X, -1, Y), N(2, X, -2, Z)>>, <<[id |-> 8, e |-> Same(Y, Z)]>>, <<>>, <<>>, <<>>, <<>>, <<>>)),
  opt |-> Graph(90, <<X, Z>>, FALSE, Body(<<N(1, X, -1, Y)>>, <<>>, <<OnlyNodes(<<N(2, Y, -2, Z)>>)>>, <<>>, <<>>, <<>>, <<>>)),
  optcross |-> Graph(90, <<X, Z>>, FALSE, Body(<<N(1, X, -1, -1)>>, <<>>, <<OnlyNodes(<<N(2, Y, -2, Z)>>)>>, <<>>, <<>>, <<>>, <<>>)),
  optfilt |-> Graph(90, <<X>>, FALSE, Body(<<N(1, X, -1, Y)>>, <<[id |-> 8, e |-> Same(X, Z)]>>, <<OnlyNodes(<<N(2, X, -2, Z)>>)>>, <<>>, <<>>, <<>>, <<>>)),
  optmid |-> Graph(90, <<X, Z>>, FALSE, Body(<<N(3, X, -2, Y)>>, <<>>, <<OnlyNodes(<<N(2, Y, -2, Z)>>)>>, <<>>, <<[id |-> 4, vs |-> <<X>>]>>, <<>>, <<>>)),
  uni |-> Graph(90, <<X>>, FALSE, Body(<<N(1, X, -1, Y)>>, <<>>, <<>>, <<<<OnlyNodes(<<N(2, X, -2, Z)>>), OnlyNodes(<<N(3, Z, -1, X)>>)>>>>, <<>>, <<>>, <<>>)),
  unival |-> Graph(90, <<X, Y>>, FALSE, Body(<<>>, <<>>, <<>>, <<<<OnlyNodes(<<N(2, X, -2, Y)>>), OnlyNodes(<<N(3, X, -1, -1)>>)>>>>, <<[id |-> 4, vs |-> <<X>>]>>, <<>>, <<>>)),
  minus |-> Graph(90, <<X>>, FALSE, Body(<<N(1, X, -1, Y)>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<Graph(91, <<X>>, FALSE, OnlyNodes(<<N(2, X, -2, -2)>>))>>)),
  optminus |-> Graph(90, <<X, Z>>, FALSE, Body(<<N(1, X, -1, -1)>>, <<>>, <<OnlyNodes(<<N(2, X, -2, Z)>>)>>, <<>>, <<>>, <<>>, <<Graph(91, <<Z>>, FALSE, OnlyNodes(<<N(3, Z, -1, -1)>>))>>)),
  triangle |-> Graph(90, <<X>>, FALSE, OnlyNodes(<<N(1, X, -1, Y), N(2, Y, -1, Z), N(3, Z, -2, X)>>)),
  tail |-> Graph(90, <<X>>, FALSE, OnlyNodes(<<N(1, X, -1, Y), N(2, X, -2, Y), N(3, Y, -1, Z)>>)) ]
g == G[gi]
Terms == 1..Consts
Triples == Terms \X Terms \X Terms
Stores == {S \in SUBSET Triples : Cardinality(S) <= MaxTriples}
\* ---- rows: what each variable is bound to, 0 is nothing
None == [v \in Vars |-> 0]
Match(t, n) == (\A i \in 1..3 : IsVar(n[i]) \/ t[i] = -n[i]) /\ \A i, j \in 1..3 : ((IsVar(n[i]) /\ n[i] = n[j]) => t[i] = t[j])
Bind(t, n) == [v \in Vars |-> IF \E i \in 1..3 : n[i] = v THEN t[CHOOSE i \in 1..3 : n[i] = v] ELSE 0]
Keep(r, V) == [v \in Vars |-> IF v \in V THEN r[v] ELSE 0]
Fits(r, s) == \A v \in Vars : r[v] = s[v] \/ r[v] = 0 \/ s[v] = 0
Both(r, s) == [v \in Vars |-> IF r[v] = 0 THEN s[v] ELSE r[v]]
Common(r, s) == \E v \in Vars : r[v] # 0 /\ s[v] # 0
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Cat(s) == FoldSeq(LAMBDA x, y : x \o y, <<>>, Reverse(s))
CatL(n, F(_)) == LET h[i \in 0..n] == IF i = 0 THEN <<>> ELSE h[i - 1] \o F(i) IN h[n]
Pass(e, r) == LET S == {r[v] : v \in FV(e)} IN S # {} /\ 0 \notin S /\ Cardinality(S) = 1
JoinRows(L, R) == CatL(Len(L), LAMBDA i : CatL(Len(R), LAMBDA j : IF Fits(L[i], R[j]) THEN <<Both(L[i], R[j])>> ELSE <<>>))
OuterRows(L, R) == CatL(Len(L), LAMBDA i : LET m == JoinRows(<<L[i]>>, R) IN IF m = <<>> THEN <<L[i]>> ELSE m)
MinusRows(L, R) == SelectSeq(L, LAMBDA r : ~\E j \in 1..Len(R) : Fits(r, R[j]) /\ Common(r, R[j]))
\* ---- what a graph means
Ordered(S) == SetToSortSeq(S, LAMBDA x, y : \/ x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]) \/ (x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]))
ValRows(v) == Map(Ordered({<<i, 0, 0>> : i \in Terms}), LAMBDA t : [x \in Vars |-> IF x \in Rng(v.vs) THEN t[1] ELSE 0])
RECURSIVE Sem(_, _)
Sem(b, S) ==
  LET nodes == [i \in 1..Len(b.nodes) |-> LET q == Ordered({t \in S : Match(t, b.nodes[i].t)}) IN Map(q, LAMBDA t : Bind(t, b.nodes[i].t))]
      unis == [i \in 1..Len(b.unis) |-> CatL(Len(b.unis[i]), LAMBDA j : Sem(b.unis[i][j], S))]
      vals == [i \in 1..Len(b.vals) |-> ValRows(b.vals[i])]
      req == FoldSeq(LAMBDA x, y : JoinRows(x, y), <<None>>, nodes \o unis \o vals)
      all == IF b.opts = <<>> THEN req ELSE OuterRows(req, Sem(b.opts[1], S))
      kept == SelectSeq(all, LAMBDA r : \A i \in 1..Len(b.filters) : Pass(b.filters[i].e, r))
  IN IF b.minus = <<>> THEN kept ELSE MinusRows(kept, Sem(b.minus[1].body, S))
Result(rows, gr) == LET p == Map(rows, LAMBDA r : Keep(r, Rng(gr.proj))) IN IF gr.distinct THEN SetToBag(Rng(p)) ELSE FoldSeq(LAMBDA r, bag : bag (+) SetToBag({r}), EmptyBag, p)
\* ---- running a plan
ScanRows(pl, t, S) ==
  LET Less(x, y) == \/ x[pl.perm[1]] < y[pl.perm[1]] \/ (x[pl.perm[1]] = y[pl.perm[1]] /\ (x[pl.perm[2]] < y[pl.perm[2]] \/ (x[pl.perm[2]] = y[pl.perm[2]] /\ x[pl.perm[3]] < y[pl.perm[3]])))
      tt == [i \in 1..3 |-> IF \E j \in 1..Width(pl) : pl.perm[j] = i THEN t[i] ELSE 10 + i]      \* what is left out is not looked at
      q == SetToSortSeq({u \in S : Match(u, tt)}, Less)
      seen == {t[pl.perm[i]] : i \in 1..Width(pl)}
  IN Map(IF pl.sorted THEN q ELSE Reverse(q), LAMBDA u : Keep(Bind(u, t), seen))
RECURSIVE MergeJoin(_, _, _, _)
\* the left keeps its rows if outer
MergeJoin(L, R, v, outer) ==
  IF L = <<>> THEN <<>> ELSE IF R = <<>> THEN (IF outer THEN L ELSE <<>>)
  ELSE IF L[1][v] < R[1][v] THEN (IF outer THEN <<L[1]>> ELSE <<>>) \o MergeJoin(Tail(L), R, v, outer)
  ELSE IF L[1][v] > R[1][v] THEN MergeJoin(L, Tail(R), v, outer)
  ELSE LET Run(s) == CHOOSE n \in 1..Len(s) : (\A i \in 1..n : s[i][v] = s[1][v]) /\ (n = Len(s) \/ s[n + 1][v] # s[1][v])
           l == SubSeq(L, 1, Run(L)) r == SubSeq(R, 1, Run(R))
       IN (IF outer THEN OuterRows(l, r) ELSE JoinRows(l, r)) \o MergeJoin(SubSeq(L, Len(l) + 1, Len(L)), SubSeq(R, Len(r) + 1, Len(R)), v, outer)
RECURSIVE MergeRows(_, _, _), Eval(_, _, _)
MergeRows(L, R, v) == IF L = <<>> THEN R ELSE IF R = <<>> THEN L ELSE IF L[1][v] <= R[1][v] THEN <<L[1]>> \o MergeRows(Tail(L), R, v) ELSE <<R[1]>> \o MergeRows(L, Tail(R), v)
Eval(pl, b, S) ==
  IF pl.opt THEN (LET p == PartFor(pl, b) IN Eval(Plain(pl), b.opts[p.i], S))
  ELSE CASE pl.op \in Scans -> ScanRows(pl, b.nodes[PartFor(pl, b).i].t, S)
    [] pl.op = "values" -> Reverse(ValRows(b.vals[PartFor(pl, b).i]))
    [] pl.op \in {"union", "mergeunion"} ->
         LET u == b.unis[PartFor(pl, b).i] L == Eval(pl.kids[1], u[1], S) R == Eval(pl.kids[2], u[2], S)
         IN IF pl.op = "union" THEN L \o R ELSE MergeRows(Map(L, LAMBDA r : Keep(r, {pl.ord})), Map(R, LAMBDA r : Keep(r, {pl.ord})), pl.ord)
    [] pl.op = "filter" -> LET f == CHOOSE i \in 1..Len(b.filters) : b.filters[i].id = pl.id IN SelectSeq(Eval(pl.kids[1], b, S), LAMBDA r : Pass(b.filters[f].e, r))
    [] pl.op = "minus" -> LET m == CHOOSE i \in 1..Len(b.minus) : b.minus[i].id = pl.id IN MinusRows(Eval(pl.kids[1], b, S), Eval(pl.kids[2], b.minus[m].body, S))
    [] OTHER -> \* a join; the optional side comes right
         LET x == IF pl.kids[1].opt THEN 2 ELSE 1 l == pl.kids[x] r == pl.kids[3 - x] L == Eval(l, b, S) R == Eval(r, b, S)
         IN CASE pl.op = "merge" -> MergeJoin(L, R, pl.arg, r.opt)
              [] pl.op = "hash" -> Reverse(IF r.opt THEN OuterRows(L, R) ELSE JoinRows(L, R))
              [] pl.op = "nlj" -> JoinRows(L, R)
              [] OTHER -> CatL(Len(L), LAMBDA i : IF R = <<>> /\ r.opt THEN <<L[i]>> ELSE Map(R, LAMBDA q : Both(L[i], q)))      \* does not compare
\* ---- building plans
Plan(op, id, ord, arg, opt, perm, sorted, kids) == [op |-> op, id |-> id, ord |-> ord, arg |-> arg, opt |-> opt, perm |-> perm, sorted |-> sorted, kids |-> kids]
Perms == IF Lean THEN {<<1, 2, 3>>, <<3, 2, 1>>, <<2, 1, 3>>} ELSE {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
Ord == {NoVar} \cup Vars
\* any claim at all: PartOK and TreeOK sort them out
ScansOf(n, opt) == {Plan(op, n.id, o, NoVar, opt, pm, so, <<>>) : op \in Scans, o \in {NoVar} \cup NodeVars(n), pm \in Perms, so \in BOOLEAN}
Valid(S, b) == {pl \in S : TreeOK(pl, b, g)}
Single(b, opt) == {s \in ScansOf(b.nodes[1], opt) : TreeOK(Plain(s), b, g)}      \* plans for a body of one node
LeafPlans(p, b) ==
  CASE p.k = "node" -> Valid(ScansOf(b.nodes[p.i], FALSE), b)
    [] p.k = "opt" -> Valid(Single(b.opts[p.i], TRUE), b)
    [] p.k = "uni" -> Valid({Plan(op, -1, o, NoVar, FALSE, <<>>, FALSE, <<x, y>>) : op \in {"union", "mergeunion"}, o \in Ord, x \in Single(b.unis[p.i][1], FALSE), y \in Single(b.unis[p.i][2], FALSE)}, b)
    [] p.k = "val" -> {Plan("values", b.vals[p.i].id, NoVar, NoVar, FALSE, <<>>, FALSE, <<>>)}
    [] OTHER -> {}
JoinPlans(x, y, b) == Valid({Plan(op, -1, o, a, FALSE, <<>>, FALSE, <<x, y>>) : op \in Joins, o \in Ord, a \in Ord}, b)
CanonJoin(pl) == pl.op = "merge" \/ pl.arg = NoVar
Init == gi \in Graphs /\ pool = {}
Have == UNION {PIds(q) : q \in pool}
AddLeaf == LET P == PartsOf(g.body) IN \E i \in 1..Len(P) : P[i].ids \cap Have = {} /\ (\A j \in 1..(i - 1) : P[j].ids \subseteq Have) /\ \E q \in LeafPlans(P[i], g.body) : pool' = pool \cup {q}
Whole == Have = UNION {PartsOf(g.body)[i].ids : i \in 1..Len(PartsOf(g.body))}
Join == Whole /\ \E x, y \in pool : x # y /\ \E q \in JoinPlans(x, y, g.body) : CanonJoin(q) /\ pool' = (pool \ {x, y}) \cup {q}
Filter == Whole /\ \E x \in pool, i \in 1..Len(g.body.filters), o \in Ord : ~x.opt /\ g.body.filters[i].id \notin Applied(x) /\ LET q == Plan("filter", g.body.filters[i].id, o, NoVar, FALSE, <<>>, FALSE, <<x>>) IN TreeOK(q, g.body, g) /\ pool' = (pool \ {x}) \cup {q}
Minus == Whole /\ \E x \in pool, i \in 1..Len(g.body.minus), o \in Ord : ~x.opt /\ Minuses(x) = <<>> /\ \E y \in Single(g.body.minus[i].body, FALSE) :
           LET q == Plan("minus", g.body.minus[i].id, o, NoVar, FALSE, <<>>, FALSE, <<x, y>>) IN TreeOK(q, g.body, g) /\ pool' = (pool \ {x}) \cup {q}
Next == (AddLeaf \/ Join \/ Filter \/ Minus) /\ gi' = gi
Spec == Init /\ [][Next]_vars
Root(q) == IF g.distinct THEN Plan("groupify", -1, NoVar, NoVar, FALSE, <<>>, FALSE, <<q>>) ELSE q
Done == Cardinality(pool) = 1 /\ GraphOK(Root(CHOOSE q \in pool : TRUE), g)
\* the rows are really sorted as the plan claims
SortedBy(rows, v) == \A i \in 1..(Len(rows) - 1) : rows[i][v] <= rows[i + 1][v]
Computes == Done => LET pl == CHOOSE q \in pool : TRUE IN \A S \in Stores : Result(Eval(pl, g.body, S), g) = Result(Sem(g.body, S), g)
ClaimsHold == \A q \in pool : q.ord # NoVar => \A S \in Stores : SortedBy(Eval(q, g.body, S), q.ord)
=============================================================================
