------------------------------- MODULE Sparql -------------------------------
(* The SPARQL algebra over bags of solutions.  A term is a number, a solution a function from variable names to terms, a bag
   a function from solutions to how often they occur.  A store is a set of triples.  A group is a sequence of elements in the
   order of the text, a filter concerns the whole group it stands in. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
NULL == -1
Empty == [v \in {} |-> 0]
None == [m \in {} |-> 0]
Unit == [m \in {Empty} |-> 1]
Sum(f, S) == MapThenSumSet(LAMBDA x : f[x], S)
\* a set of [m, n, …]: n times m each
Gather(S) == TLCEval([m \in {x.m : x \in S} |-> MapThenSumSet(LAMBDA x : x.n, {y \in S : y.m = m})])
Size(B) == Sum(B, DOMAIN B)
Compat(a, b) == \A v \in DOMAIN a \cap DOMAIN b : a[v] = b[v]
Meet(A, B) == {p \in (DOMAIN A) \X (DOMAIN B) : Compat(p[1], p[2])}
Paired(A, B, P) == {[m |-> p[1] @@ p[2], n |-> A[p[1]] * B[p[2]], p |-> p] : p \in P}
Join(A, B) == Gather(Paired(A, B, Meet(A, B)))
Union(A, B) == TLCEval([m \in DOMAIN A \cup DOMAIN B |-> (IF m \in DOMAIN A THEN A[m] ELSE 0) + (IF m \in DOMAIN B THEN B[m] ELSE 0)])
Only(A, S) == TLCEval([m \in S |-> A[m]])
Minus(A, B) == Only(A, {a \in DOMAIN A : \A b \in DOMAIN B : ~Compat(a, b) \/ DOMAIN a \cap DOMAIN b = {}})
\* one triple pattern: each position is a variable or a constant
Val(p, m) == IF p.v = "" THEN p.c ELSE m[p.v]
Names(P) == {p.v : p \in P} \ {""}
Pattern(db, s, p, o) ==
  LET hit(t) == (s.v = "" => s.c = t[1]) /\ (p.v = "" => p.c = t[2]) /\ (o.v = "" => o.c = t[3])
                /\ (s.v # "" /\ s.v = p.v => t[1] = t[2]) /\ (s.v # "" /\ s.v = o.v => t[1] = t[3]) /\ (p.v # "" /\ p.v = o.v => t[2] = t[3])
      sol(t) == [v \in Names({s, p, o}) |-> IF v = s.v THEN t[1] ELSE IF v = p.v THEN t[2] ELSE t[3]]
  IN TLCEval([m \in {sol(t) : t \in {x \in db : hit(x)}} |-> 1])
\* comparing terms: text[c] is the sequence of characters, kind[c] says what the term is
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
Not3(x) == IF x = "T" THEN "F" ELSE IF x = "F" THEN "T" ELSE "E"
And3(x, y) == IF x = "F" \/ y = "F" THEN "F" ELSE IF x = "E" \/ y = "E" THEN "E" ELSE "T"
Or3(x, y) == IF x = "T" \/ y = "T" THEN "T" ELSE IF x = "E" \/ y = "E" THEN "E" ELSE "F"
B3(x) == IF x THEN "T" ELSE "F"
\* terms of a store: st.db the triples, st.text, st.lit (whether it is a literal)
RECURSIVE Truth(_, _, _), Group(_, _), Answer(_, _), Elements(_, _, _, _), Values(_, _, _), UnionOf(_, _, _)
\* the term an expression stands for, NULL if it has none
Term(st, e, m) == IF e.f = "var" THEN (IF e.v \in DOMAIN m THEN m[e.v] ELSE NULL) ELSE e.c
Truth(st, e, m) ==
  LET t(i) == Term(st, e.a[i], m)
      two(f) == IF t(1) = NULL \/ t(2) = NULL THEN "E" ELSE B3(f)
  IN CASE e.f = "and" -> And3(Truth(st, e.a[1], m), Truth(st, e.a[2], m))
       [] e.f = "or" -> Or3(Truth(st, e.a[1], m), Truth(st, e.a[2], m))
       [] e.f = "not" -> Not3(Truth(st, e.a[1], m))
       [] e.f = "eq" -> two(t(1) = t(2))
       [] e.f = "ne" -> two(t(1) # t(2))
       [] e.f = "lt" -> two(LexLess(st.text[t(1) + 1], st.text[t(2) + 1], 1))
       [] e.f = "gt" -> two(LexLess(st.text[t(2) + 1], st.text[t(1) + 1], 1))
       [] e.f = "le" -> two(~LexLess(st.text[t(2) + 1], st.text[t(1) + 1], 1))
       [] e.f = "ge" -> two(~LexLess(st.text[t(1) + 1], st.text[t(2) + 1], 1))
       [] e.f = "sameterm" -> two(t(1) = t(2))
       [] e.f = "bound" -> B3(t(1) # NULL)
       [] e.f = "isiri" -> IF t(1) = NULL THEN "E" ELSE B3(~st.lit[t(1) + 1])
       [] e.f = "isliteral" -> IF t(1) = NULL THEN "E" ELSE B3(st.lit[t(1) + 1])
       [] e.f = "notin" -> IF t(1) = NULL THEN "E" ELSE B3(\A i \in 2..Len(e.a) : t(i) # t(1))
       [] e.f = "notexists" -> B3(\A b \in DOMAIN Group(st, e.g[1]) : ~Compat(m, b))
Filters(st, fs, B) == Only(B, {m \in DOMAIN B : \A i \in 1..Len(fs) : Truth(st, fs[i], m) = "T"})
\* what a group's filters are, apart from the elements they stand among
FiltersOf(g) == LET f == SelectSeq(g, LAMBDA x : x.k = "filter") IN [i \in 1..Len(f) |-> f[i].e[1]]
LeftJoin(st, A, B, fs) ==
  LET P == {p \in Meet(A, B) : \A i \in 1..Len(fs) : Truth(st, fs[i], p[1] @@ p[2]) = "T"}
  IN Union(Gather(Paired(A, B, P)), Only(A, DOMAIN A \ {p[1] : p \in P}))
Values(vs, rows, i) ==
  IF i > Len(rows) THEN None
  ELSE LET m == [v \in {vs[j] : j \in {k \in 1..Len(vs) : rows[i][k] # NULL}} |-> rows[i][CHOOSE j \in 1..Len(vs) : vs[j] = v]]
       IN Union([x \in {m} |-> 1], Values(vs, rows, i + 1))
UnionOf(st, gs, i) == IF i > Len(gs) THEN None ELSE Union(Group(st, gs[i]), UnionOf(st, gs, i + 1))
Elements(st, g, i, B) ==
  IF i > Len(g) THEN B
  ELSE LET x == g[i] IN
    Elements(st, g, i + 1,
      CASE x.k = "t" -> Join(B, Pattern(st.db, x.s, x.p, x.o))
        [] x.k = "opt" -> LeftJoin(st, B, Elements(st, x.g[1], 1, Unit), FiltersOf(x.g[1]))
        [] x.k = "uni" -> Join(B, UnionOf(st, x.g, 1))
        [] x.k = "minus" -> Minus(B, Group(st, x.g[1]))
        [] x.k = "values" -> Join(B, Values(x.vs, x.rows, 1))
        [] x.k = "bind" -> Gather({[m |-> (IF Term(st, x.e[1], m) = NULL THEN m ELSE m @@ [v \in {x.vs[1]} |-> Term(st, x.e[1], m)]), n |-> B[m], p |-> m] : m \in DOMAIN B})
        [] x.k = "sub" -> Join(B, LET A == Answer(st, x.q[1]) IN Gather({[m |-> r.m, n |-> A[r], p |-> r] : r \in DOMAIN A}))
        [] OTHER -> B)
Group(st, g) == TLCEval(Filters(st, FiltersOf(g), Elements(st, g, 1, Unit)))
(* The answer: a bag of [m |-> m], m the solution over the projected variables. *)
Project(m, pv) == [v \in DOMAIN m \cap pv |-> m[v]]
\* aggregates: a number n is the term Number(n), so that it cannot be mistaken for one of the store
Number(n) == 100000 + n
Aggregate(B, S, a) ==
  LET D == {m \in S : a.v = "" \/ a.v \in DOMAIN m}
  IN Number(IF a.d THEN Cardinality({m[a.v] : m \in D}) ELSE Sum(B, D))
Grouped(B, q) ==
  LET gv == {q.group[i] : i \in 1..Len(q.group)}
      keys == IF q.group = <<>> THEN {Empty} ELSE {Project(m, gv) : m \in DOMAIN B}
      row(k) == k @@ [v \in {q.agg[i].as : i \in 1..Len(q.agg)} |-> Aggregate(B, {m \in DOMAIN B : Project(m, gv) = k}, q.agg[CHOOSE i \in 1..Len(q.agg) : q.agg[i].as = v])]
  IN TLCEval([m \in {row(k) : k \in keys} |-> 1])
Answer(st, q) ==
  LET B == IF q.group = <<>> /\ q.agg = <<>> THEN Group(st, q.g[1]) ELSE TLCEval(Grouped(Group(st, q.g[1]), q))
      pv == {q.proj[i] : i \in 1..Len(q.proj)}
      P == Gather({[m |-> [m |-> Project(m, pv)], n |-> B[m], p |-> m] : m \in DOMAIN B})
  IN IF q.distinct THEN [r \in DOMAIN P |-> 1] ELSE P
Row(m, proj) == [i \in 1..Len(proj) |-> IF proj[i] \in DOMAIN m THEN m[proj[i]] ELSE NULL]
Rows(st, q) == LET A == Answer(st, q) IN Gather({[m |-> Row(r.m, q.proj), n |-> A[r], p |-> r] : r \in DOMAIN A})
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Counted(rows) == [r \in {rows[i] : i \in 1..Len(rows)} |-> Cardinality({i \in 1..Len(rows) : rows[i] = r})]
\* the keys of a row, compared: unbound first, then IRIs, then literals, by their text
Before(st, a, b) == IF a = b THEN FALSE ELSE IF a = NULL THEN TRUE ELSE IF b = NULL THEN FALSE
                    ELSE IF st.lit[a + 1] # st.lit[b + 1] THEN st.lit[b + 1] ELSE LexLess(st.text[a + 1], st.text[b + 1], 1)
RECURSIVE KeyBefore(_, _, _, _, _)
KeyBefore(st, ord, a, b, i) ==
  IF i > Len(ord) THEN FALSE
  ELSE IF a[ord[i].i] # b[ord[i].i] THEN (IF ord[i].d THEN Before(st, b[ord[i].i], a[ord[i].i]) ELSE Before(st, a[ord[i].i], b[ord[i].i]))
  ELSE KeyBefore(st, ord, a, b, i + 1)
\* rows are an answer to q over st: the right rows, each as often as it should be, in an order and a window the query allows.
\* How many rows of R come before row r at the latest and at the earliest decides where r may stand.
Allowed(st, q, rows) ==
  LET R == TLCEval(Rows(st, q)) n == Size(R) C == TLCEval(Counted(rows))
      lower(r) == MapThenSumSet(LAMBDA x : R[x], {x \in DOMAIN R : KeyBefore(st, q.order, x, r, 1)})
      upper(r) == n - MapThenSumSet(LAMBDA x : R[x], {x \in DOMAIN R : KeyBefore(st, q.order, r, x, 1)})
  IN /\ Len(rows) = Max2(0, IF q.limit < 0 THEN n - q.offset ELSE Min2(q.limit, n - q.offset))
     /\ \A r \in DOMAIN C : r \in DOMAIN R /\ C[r] <= R[r]
     /\ Len(q.order) > 0 => \A i \in 1..Len(rows) : lower(rows[i]) < i + q.offset /\ i + q.offset <= upper(rows[i])
=============================================================================
