--------------------------------- MODULE Rel ---------------------------------
(* The algebra of the physical query operators.  A tree of operators denotes a sequence of rows; a row gives values to
   registers (r, a function) and says how often it occurs (c).  NULL is -1.  As far as rows can come in any order, only the bag
   of the sequence is meant; SortBy says by which registers the rows must be ordered.
   env holds the registers that are set from outside (constants, and the outer side of a nested loop). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
NULL == -1
Rng(s) == {s[i] : i \in 1..Len(s)}
Fn(regs, vals) == [x \in Rng(regs) |-> vals[CHOOSE i \in 1..Len(regs) : regs[i] = x]]
Nulls(regs) == [x \in Rng(regs) |-> NULL]
Row(f, n) == [r |-> f, c |-> n]
Concat(ss) == FlattenSeq(ss)
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Times(a, b) == Row(a.r @@ b.r, a.c * b.c)
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = << >> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Lex(Tail(a), Tail(b))
\* the data orders, as positions of subject, predicate, object
Order == <<<<1, 2, 3>>, <<1, 3, 2>>, <<3, 2, 1>>, <<3, 1, 2>>, <<2, 1, 3>>, <<2, 3, 1>>>>
OrderOf(n) == Order[IF n.ord = 10 THEN 6 ELSE IF n.ord = 11 THEN 5 ELSE (n.ord % 6) + 1]
ScanRegs(n) == LET o == OrderOf(n) m == 3 - n.aggr IN SelectSeq([i \in 1..m |-> n.reg[o[i]]], LAMBDA x : TRUE)
Free(n) == LET o == OrderOf(n) m == 3 - n.aggr IN
             Map(LAMBDA i : n.reg[o[i]], SelectSeq([i \in 1..m |-> i], LAMBDA i : ~n.bound[o[i]]))
SumC(s) == FoldLeft(LAMBDA x, y : x + y.c, 0, s)
Expand(s) == Concat(Map(LAMBDA w : [i \in 1..w.c |-> Row(w.r, 1)], s))
Slice(s, off, lim) == LET t == SubSeq(s, off + 1, Len(s)) IN IF lim < 0 \/ lim >= Len(t) THEN t ELSE SubSeq(t, 1, lim)
GroupSum(s, regs) == LET S == Rng(regs) keys == {Restrict(s[i].r, S) : i \in 1..Len(s)} IN
   Map(LAMBDA k : Row(k, SumC(SelectSeq(s, LAMBDA w : Restrict(w.r, S) = k))), SetToSeq(keys))
RECURSIVE Eval(_, _, _)
Eval(n, env, db) ==
  LET L == Eval(n.l, env, db)
      RR == Eval(n.r, env, db)
  IN CASE n.k = "src" -> [i \in 1..Len(n.rows) |-> Row(Fn(n.regs, n.rows[i]), n.rows[i][Len(n.regs) + 1])]
     [] n.k = "scan" ->
          LET o == OrderOf(n)  m == 3 - n.aggr
              ok == {t \in db : \A i \in 1..m : n.bound[o[i]] => t[o[i]] = env[n.reg[o[i]]]}
              key(t) == [i \in 1..m |-> t[o[i]]]
              keys == SetToSortSeq({key(t) : t \in ok}, Lex)
              free == SelectSeq([i \in 1..m |-> i], LAMBDA i : ~n.bound[o[i]])
          IN Map(LAMBDA q : Row(Fn(Map(LAMBDA i : n.reg[o[i]], free), Map(LAMBDA i : q[i], free)), Cardinality({t \in ok : key(t) = q})), keys)
     [] n.k = "nlj" -> Concat(Map(LAMBDA a : Map(LAMBDA b : Times(a, b), Eval(n.r, a.r @@ env, db)), L))
     [] n.k \in {"mj", "hj"} ->
          LET hit(a) == SelectSeq(RR, LAMBDA b : b.r[n.rk] = a.r[n.lk])
              inner == Concat(Map(LAMBDA a : Map(LAMBDA b : Times(a, b), hit(a)), L))
              onlyL == IF n.ro THEN Map(LAMBDA a : Row(a.r @@ Nulls(<<n.rk>> \o n.rt), a.c), SelectSeq(L, LAMBDA a : hit(a) = << >>)) ELSE << >>
              onlyR == IF n.lo THEN Map(LAMBDA b : Row(Nulls(<<n.lk>> \o n.lt) @@ b.r, b.c),
                                        SelectSeq(RR, LAMBDA b : \A i \in 1..Len(L) : L[i].r[n.lk] # b.r[n.rk])) ELSE << >>
          IN inner \o onlyL \o onlyR
     [] n.k = "cp" ->
          LET A == IF L = << >> /\ n.lo THEN <<Row(Nulls(n.lt), 1)>> ELSE L
              B == IF RR = << >> /\ n.ro THEN <<Row(Nulls(n.rt), 1)>> ELSE RR
          IN Concat(Map(LAMBDA a : Map(LAMBDA b : Times(a, b), B), A))
     [] n.k = "union" ->
          LET one(p) == LET tos == {p.map[j][2] : j \in 1..Len(p.map)} IN
                Map(LAMBDA w : Row([x \in tos |-> LET q == CHOOSE q \in Rng(p.map) : q[2] = x IN w.r[q[1]]] @@ Nulls(p.init), w.c), Eval(p.l, env, db))
          IN Concat(Map(one, n.parts))
     [] n.k = "mu" -> Map(LAMBDA w : Row((n.res :> w.r[n.a]), w.c), L) \o Map(LAMBDA w : Row((n.res :> w.r[n.b]), w.c), RR)
     [] n.k = "minus" -> LET gone == {[i \in 1..Len(n.pairs) |-> RR[j].r[n.pairs[i][2]]] : j \in 1..Len(RR)} IN
                           SelectSeq(L, LAMBDA w : [i \in 1..Len(n.pairs) |-> w.r[n.pairs[i][1]]] \notin gone)
     [] n.k = "filter" -> SelectSeq(L, LAMBDA w : (w.r[n.reg] \in Rng(n.vals)) # n.ex)
     [] n.k = "nlf" -> LET vs == SortSeq(n.vals, LAMBDA x, y : x < y) IN
                         Concat(Map(LAMBDA v : Map(LAMBDA w : Row((n.reg :> v) @@ w.r, w.c), Eval(n.l, (n.reg :> v) @@ env, db)), vs))
     [] n.k = "hg" -> GroupSum(L, n.regs)
     [] n.k = "gb" -> IF n.distinct
                        THEN Map(LAMBDA w : Row(w.r, 1), GroupSum(L, n.by))
                        ELSE Map(LAMBDA w : Row(Restrict(w.r, Rng(n.regs)), w.c), L)
     [] n.k = "limit" -> Slice(IF n.nodup THEN Map(LAMBDA w : Row(w.r, 1), L) ELSE Expand(L), n.off, n.lim)
     [] n.k = "assign" -> Map(LAMBDA w : Row([x \in {n.set[i][1] : i \in 1..Len(n.set)} |->
                                 LET q == n.set[CHOOSE i \in 1..Len(n.set) : n.set[i][1] = x] IN IF q[2] < 0 THEN q[3] ELSE w.r[q[2]]] @@ w.r, w.c), L)
     [] n.k = "values" -> LET k == Len(n.regs) IN IF k = 0 THEN << >> ELSE
                            [i \in 1..(Len(n.vals) \div k) |-> Row(Fn(n.regs, SubSeq(n.vals, (i - 1) * k + 1, i * k)), 1)]
     [] n.k = "single" -> <<Row(<< >>, 1)>>
     [] n.k = "empty" -> << >>
     [] n.k = "tf" -> Concat(Map(LAMBDA w : LET hits == {i \in 1..Len(n.tab) : n.tab[i].in = Map(LAMBDA x : w.r[x], n.args)} IN
                                   IF hits = {} THEN << >> ELSE Map(LAMBDA q : Row(Fn(n.regs, q) @@ w.r, w.c), n.tab[CHOOSE i \in hits : TRUE].rows), L))
RECURSIVE SortBy(_)
SortBy(n) ==
  CASE n.k = "scan" -> Free(n)
    [] n.k = "mj" -> IF n.lo \/ n.ro THEN << >> ELSE <<n.lk>>
    [] n.k = "mu" -> <<n.res>>
    [] n.k = "gb" -> n.by
    [] n.k \in {"filter", "assign", "minus", "limit", "nlj", "cp"} -> SortBy(n.l)
    [] OTHER -> << >>
\* ---- observations
Bag(s, regs) == LET P(w) == [i \in 1..Len(regs) |-> w.r[regs[i]]]  keys == {P(s[i]) : i \in 1..Len(s)} IN
                  [k \in keys |-> SumC(SelectSeq(s, LAMBDA w : P(w) = k))]
=============================================================================
