------------------------------ MODULE MCSparql ------------------------------
(* Laws that the algebra of Sparql.tla must obey, and with it every plan: over all small stores and all choices of three
   patterns, parts may be joined in any order and grouping, filters move to the part that binds their variables, an optional
   part only adds to rows, and Allowed accepts an answer and none of its neighbours. *)
EXTENDS Sparql
CONSTANTS MaxDB
T == {0, 1}
Triples == T \X T \X T
v(n) == [v |-> n, c |-> -9]
c(n) == [v |-> "", c |-> n]
Pats == << <<v("x"), c(0), v("y")>>, <<v("y"), c(1), v("z")>>, <<v("x"), v("y"), v("x")>>, <<c(0), v("x"), v("z")>>, <<v("z"), v("z"), c(1)>>, <<c(1), c(0), c(1)>>, <<v("w"), c(1), v("x")>>, <<v("x"), v("y"), v("z")>> >>
VARIABLES db, pick
st == [db |-> db, text |-> << <<1>>, <<2>> >>, lit |-> <<FALSE, TRUE>>]
B(i) == Pattern(db, Pats[i][1], Pats[i][2], Pats[i][3])
Init == /\ db \in {d \in SUBSET Triples : Cardinality(d) <= MaxDB} /\ pick = <<>>
Next == pick = <<>> /\ UNCHANGED db /\ pick' \in [1..3 -> 1..Len(Pats)]
A1 == B(pick[1])
A2 == B(pick[2])
A3 == B(pick[3])
VarsOf(i) == Names({Pats[i][1], Pats[i][2], Pats[i][3]})
Commutes == pick # <<>> => Join(A1, A2) = Join(A2, A1) /\ Union(A1, A2) = Union(A2, A1)
Associates == pick # <<>> => Join(A1, Join(A2, A3)) = Join(Join(A1, A2), A3) /\ Union(A1, Union(A2, A3)) = Union(Union(A1, A2), A3)
Distributes == pick # <<>> => Join(A1, Union(A2, A3)) = Union(Join(A1, A2), Join(A1, A3))
Neutral == pick # <<>> => Join(A1, Unit) = A1 /\ Union(A1, None) = A1 /\ Join(A1, None) = None
\* the same value twice, a repeated variable: both are selections of the more general pattern
Specialises == pick # <<>> => 
               /\ Size(Pattern(db, v("x"), v("y"), v("z"))) = Cardinality(db)
               /\ \A t \in T : {m.y : m \in DOMAIN Pattern(db, c(t), c(0), v("y"))} = {m.y : m \in {k \in DOMAIN Pattern(db, v("x"), c(0), v("y")) : k.x = t}}
               /\ {m.x : m \in DOMAIN Pattern(db, v("x"), c(0), v("x"))} = {m.x : m \in {k \in DOMAIN Pattern(db, v("x"), c(0), v("y")) : k.x = k.y}}
E(f, a) == [f |-> f, a |-> a, v |-> "", c |-> -1, g |-> <<>>]
V(n) == [f |-> "var", a |-> <<>>, v |-> n, c |-> -1, g |-> <<>>]
C(n) == [f |-> "const", a |-> <<>>, v |-> "", c |-> n, g |-> <<>>]
Conds == {E("eq", <<V("x"), V("y")>>), E("ne", <<V("x"), C(0)>>), E("not", <<E("eq", <<V("x"), C(1)>>)>>), E("or", <<E("isiri", <<V("x")>>), E("lt", <<V("y"), V("x")>>)>>), E("and", <<E("ge", <<V("x"), V("y")>>), E("bound", <<V("y")>>)>>)}
FVars(f) == IF f.f = "ne" \/ f.f = "not" THEN {"x"} ELSE {"x", "y"}
Pushdown == pick # <<>> => \A f \in Conds : (FVars(f) \subseteq VarsOf(pick[1])) => Filters(st, <<f>>, Join(A1, A2)) = Join(Filters(st, <<f>>, A1), A2)
Idempotent == pick # <<>> => \A f \in Conds : LET F == Filters(st, <<f>>, A1) IN Filters(st, <<f>>, F) = F
Conjunction == pick # <<>> => \A f \in Conds, g \in Conds : Filters(st, <<f, g>>, A1) = Filters(st, <<E("and", <<f, g>>)>>, A1)
Outer == pick # <<>> => 
  LET L == LeftJoin(st, A1, A2, <<>>) IN
  /\ L = Union(Join(A1, A2), Only(A1, {a \in DOMAIN A1 : \A b \in DOMAIN A2 : ~Compat(a, b)}))
  /\ {[x \in VarsOf(pick[1]) |-> m[x]] : m \in DOMAIN L} = DOMAIN A1
  /\ Size(L) >= Size(A1) /\ LeftJoin(st, A1, None, <<>>) = A1
Subtract == pick # <<>> => 
            /\ Minus(A1, A2) = Only(A1, DOMAIN Minus(A1, A2)) /\ Minus(Minus(A1, A2), A2) = Minus(A1, A2) /\ Minus(A1, None) = A1
            /\ (VarsOf(pick[1]) \cap VarsOf(pick[2]) = {} => Minus(A1, A2) = A1)
            /\ (VarsOf(pick[1]) = VarsOf(pick[2]) /\ VarsOf(pick[1]) # {} => DOMAIN Minus(A1, A2) = DOMAIN A1 \ DOMAIN A2)
\* Allowed: a sorted answer is accepted, with any of its rows left out, doubled or out of place it is not
RECURSIVE Flat(_), SortBy(_, _)
Flat(R) == IF R = None THEN <<>> ELSE LET r == CHOOSE q \in DOMAIN R : TRUE IN [i \in 1..R[r] |-> r] \o Flat(Only(R, DOMAIN R \ {r}))
SortBy(s, ord) == IF s = <<>> THEN <<>> ELSE LET i == CHOOSE k \in 1..Len(s) : \A j \in 1..Len(s) : ~KeyBefore(st, ord, s[j], s[k], 1) IN <<s[i]>> \o SortBy([k \in 1..(Len(s) - 1) |-> IF k < i THEN s[k] ELSE s[k + 1]], ord)
Elem(i) == [k |-> "t", s |-> Pats[i][1], p |-> Pats[i][2], o |-> Pats[i][3], g |-> <<>>, vs |-> <<>>, rows |-> <<>>, e |-> <<>>, q |-> <<>>]
Q(lim, off, ord) == [distinct |-> FALSE, proj |-> <<"x", "y">>, g |-> << <<Elem(pick[1]), [Elem(pick[2]) EXCEPT !.k = "opt", !.g = << <<Elem(pick[2])>> >>]>> >>, group |-> <<>>, agg |-> <<>>, limit |-> lim, offset |-> off, order |-> ord]
Ord == <<[i |-> 2, d |-> TRUE], [i |-> 1, d |-> FALSE]>>
Decides == pick # <<>> => pick[3] # 1 \/ (LET s == SortBy(Flat(Rows(st, Q(-1, 0, Ord))), Ord) n == Len(s) R == Rows(st, Q(-1, 0, Ord)) IN
  /\ Allowed(st, Q(-1, 0, Ord), s)
  /\ \A k \in 0..n : Allowed(st, Q(k, 0, Ord), SubSeq(s, 1, k)) /\ Allowed(st, Q(-1, k, Ord), SubSeq(s, k + 1, n))
  /\ \A k \in 1..n : ~Allowed(st, Q(-1, 0, Ord), SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, n)) /\ ~Allowed(st, Q(-1, 0, Ord), s \o <<s[k]>>)
  /\ \A k \in 1..(n - 1) : s[k] # s[k + 1] => ~Allowed(st, Q(-1, 0, Ord), [s EXCEPT ![k] = s[k + 1], ![k + 1] = s[k]]))
Laws == Commutes /\ Associates /\ Distributes /\ Neutral /\ Specialises /\ Pushdown /\ Idempotent /\ Conjunction /\ Outer /\ Subtract /\ Decides
=============================================================================
