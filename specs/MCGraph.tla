------------------------------- MODULE MCGraph -------------------------------
(* The graph library's representation refines Graph: nodes and edges sit in slots of a table whose freed slots are reused,
   last freed first; every node keeps sorted lists of its neighbours (edge identifiers in a multigraph); an undirected graph
   counts its edges; an attribute's values are held by slot.  Defrag moves everything to the front, keeping the order.
   Every operation on the representation is shown to do what the same operation does to the abstract graph. *)
EXTENDS Graph, TLC, Json
CONSTANTS Kinds, MaxId, MaxE, Depth, Gen
VARIABLES g, c, hist
Dead == -1
Ids == 0..MaxId
InsS(s, x) == LET i == CHOOSE i \in 0..Len(s) : (\A j \in 1..i : s[j] <= x) /\ (\A j \in (i + 1)..Len(s) : s[j] > x) IN SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
DelS(s, x) == SelectSeq(s, LAMBDA y : y # x)
Rng(s) == {s[i] : i \in 1..Len(s)}
C0(k) == [ns |-> << >>, nf |-> << >>, nc |-> << >>, in |-> << >>, out |-> << >>, es |-> << >>, ef |-> << >>, ec |-> << >>, m |-> 0, mx |-> 0, mxe |-> 0]
NSlot(n) == CHOOSE i \in 1..Len(c.ns) : c.ns[i] = n
ESlot(h, e) == CHOOSE i \in 1..Len(h.es) : h.es[i].e = e
\* take a slot: the last freed one, else a new one at the end
Take(s, f, x) == IF f = << >> THEN <<Append(s, x), f, Len(s) + 1>> ELSE <<[s EXCEPT ![f[1]] = x], Tail(f), f[1]>>
Put(col, i, v) == IF i <= Len(col) THEN [col EXCEPT ![i] = v] ELSE Append(col, v)
CAddN(id) == LET n == IF id = -1 THEN c.mx ELSE id  t == Take(c.ns, c.nf, n) IN
  [c EXCEPT !.ns = t[1], !.nf = t[2], !.nc = Put(@, t[3], 0), !.in = Ext(@, n, << >>), !.out = Ext(@, n, << >>), !.mx = IF n >= @ THEN n + 1 ELSE @]
CHas(s, d) == d \in Rng(c.out[s])
DeadE == [e |-> Dead, s |-> 0, d |-> 0]
CAddE(s, d, id) ==
  IF Multi(g.k) THEN
    LET e == IF id = -1 THEN c.mxe ELSE id  t == Take(c.es, c.ef, [e |-> e, s |-> s, d |-> d]) IN
    [c EXCEPT !.es = t[1], !.ef = t[2], !.ec = Put(@, t[3], 0), !.out[s] = InsS(@, e), !.in[d] = InsS(@, e), !.mxe = IF e >= @ THEN e + 1 ELSE @]
  ELSE IF CHas(s, d) THEN c
  ELSE IF g.k \in {"U", "V"} THEN [c EXCEPT !.out = IF s = d THEN [@ EXCEPT ![s] = InsS(@, d)] ELSE [@ EXCEPT ![s] = InsS(@, d), ![d] = InsS(@, s)], !.m = @ + 1]
  ELSE [c EXCEPT !.out[s] = InsS(@, d), !.in[d] = InsS(@, s)]
CDelEid(h, e) == LET i == ESlot(h, e)  x == h.es[i] IN
  [h EXCEPT !.out[x.s] = DelS(@, e), !.in[x.d] = DelS(@, e), !.es[i] = DeadE, !.ef = <<i>> \o @]
RECURSIVE CDelPar(_, _, _, _)      \* all parallel edges, one found after the other
CDelPar(h, s, d, dir) ==
  LET f == SelectSeq(h.out[s], LAMBDA e : h.es[ESlot(h, e)].d = d)
      b == SelectSeq(h.in[s], LAMBDA e : h.es[ESlot(h, e)].s = d)
  IN IF f # << >> THEN CDelPar(CDelEid(h, f[1]), s, d, dir) ELSE IF ~dir /\ b # << >> THEN CDelPar(CDelEid(h, b[1]), s, d, dir) ELSE h
CDelE(s, d, dir) ==
  IF Multi(g.k) THEN CDelPar(c, s, d, dir)
  ELSE IF g.k \in {"U", "V"} THEN IF CHas(s, d) THEN [c EXCEPT !.out = [@ EXCEPT ![s] = DelS(@, d), ![d] = IF s = d THEN DelS(@, d) ELSE DelS(@, s)], !.m = @ - 1] ELSE c
  ELSE LET h == [c EXCEPT !.out[s] = DelS(@, d), !.in[d] = DelS(@, s)] IN IF dir THEN h ELSE [h EXCEPT !.out[d] = DelS(@, s), !.in[s] = DelS(@, d)]
RECURSIVE CDelAll(_, _)
CDelAll(h, q) == IF q = << >> THEN h ELSE CDelAll(IF \E i \in 1..Len(h.es) : h.es[i].e = q[1] THEN CDelEid(h, q[1]) ELSE h, Tail(q))
CDelN(n) ==
  LET i == NSlot(n)
      h == IF Multi(g.k) THEN CDelAll(c, c.out[n] \o c.in[n])
           ELSE IF g.k \in {"U", "V"} THEN [c EXCEPT !.out = [x \in DOMAIN @ |-> IF x = n THEN << >> ELSE DelS(@[x], n)], !.m = @ - Len(c.out[n])]
           ELSE [c EXCEPT !.out = [x \in DOMAIN @ |-> DelS(@[x], n)], !.in = [x \in DOMAIN @ |-> DelS(@[x], n)]]
  IN [h EXCEPT !.ns[i] = Dead, !.nf = <<i>> \o @, !.in = Drop(@, {n}), !.out = Drop(@, {n})]
Live(s, P(_)) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : P(s[i]))
At2(s, idx) == [j \in 1..Len(idx) |-> s[idx[j]]]
\* a table without freed slots is left alone, and so are its columns
CDefrag == LET ni == Live(c.ns, LAMBDA x : x # Dead)  ei == Live(c.es, LAMBDA x : x.e # Dead) IN
  [c EXCEPT !.ns = At2(@, ni), !.nf = << >>, !.nc = IF c.nf = << >> THEN @ ELSE At2(@, ni), !.es = At2(@, ei), !.ef = << >>, !.ec = IF c.ef = << >> THEN @ ELSE At2(@, ei)]

\* what the representation stands for
AbsN == Rng(c.ns) \ {Dead}
AbsE == IF Multi(g.k) THEN {[s |-> x.s, d |-> x.d, e |-> x.e, w |-> 0] : x \in {y \in Rng(c.es) : y.e # Dead}}
        ELSE UNION {{Edge(g, n, c.out[n][j], 0, 0) : j \in 1..Len(c.out[n])} : n \in AbsN}
InvNodes == AbsN = g.N /\ DOMAIN c.out = g.N /\ DOMAIN c.in = g.N /\ g.nd = [n \in g.N |-> 0]
InvEdges == AbsE = g.E
SortedSeq(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
InvLists == \A n \in g.N : /\ SortedSeq(c.out[n]) /\ SortedSeq(c.in[n])
                           /\ (Multi(g.k) => Rng(c.out[n]) = {x.e : x \in OutE(g, n)} /\ Rng(c.in[n]) = {x.e : x \in InE(g, n)})
                           /\ (~Multi(g.k) => Rng(c.out[n]) = OutN(g, n) /\ (g.k \notin {"U", "V"} => Rng(c.in[n]) = InN(g, n)))
\* counting edges from the lists: the undirected counter, the directed sum of out-degrees
RECURSIVE SumLen(_, _)
SumLen(f, S) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN Len(f[n]) + SumLen(f, S \ {n})
InvCount == IF g.k \in {"U", "V"} THEN c.m = Cardinality(g.E) ELSE SumLen(c.out, g.N) = Cardinality(g.E)
InvFree == /\ Rng(c.nf) = {i \in 1..Len(c.ns) : c.ns[i] = Dead} /\ Rng(c.ef) = {i \in 1..Len(c.es) : c.es[i].e = Dead}
           /\ Cardinality(Rng(c.nf)) = Len(c.nf) /\ Cardinality(Rng(c.ef)) = Len(c.ef)
InvAttr == g.k = "A" => /\ \A n \in g.N : c.nc[NSlot(n)] = g.na["na"].v[n]
                        /\ \A e \in Eids(g) : c.ec[ESlot(c, e)] = g.ea["ea"].v[e]
InvMx == \A n \in g.N : c.mx > n
\* the abstract laws a user relies on
InvHand == LET n == Cardinality(g.E) IN IF Und(g.k) THEN SumDeg(g) = (2 * n) - Cardinality(Loops(g)) ELSE SumDeg(g) = 2 * n

Init == \E k \in Kinds : /\ g = IF k = "A" THEN [Empty(k) EXCEPT !.na = [a \in {"na"} |-> [def |-> 0, v |-> << >>]], !.ea = [a \in {"ea"} |-> [def |-> 0, v |-> << >>]]] ELSE Empty(k)
                         /\ c = C0(k) /\ hist = (IF Gen THEN <<<<"new", k>>>> ELSE << >>)
H(r) == hist' = (IF Gen THEN Append(hist, r) ELSE << >>)
Step ==
  \/ \E id \in {-1} \cup (Ids \ g.N) : LET n == IF id = -1 THEN c.mx ELSE id IN
       n <= MaxId /\ g' = AddN(g, n, 0, FALSE) /\ c' = CAddN(id) /\ H(<<"addnode", id, 0, 0>>)
  \/ \E s, d \in g.N : \E id \in (IF Multi(g.k) THEN {-1} \cup ((0..MaxE) \ Eids(g)) ELSE {-1}) :
       LET e == IF id = -1 THEN c.mxe ELSE id IN
       /\ (Multi(g.k) => e <= MaxE) /\ g' = AddE(g, s, d, IF Multi(g.k) THEN e ELSE 0, 0) /\ c' = CAddE(s, d, id) /\ H(<<"addedge", s, d, id, 0>>)
  \/ \E s, d \in g.N, dir \in BOOLEAN : /\ (Multi(g.k) => Has(g, s, d) \/ (~dir /\ Has(g, d, s)))
       /\ g' = DelE(g, s, d, dir) /\ c' = CDelE(s, d, dir) /\ H(<<"deledge", s, d, IF dir THEN 1 ELSE 0>>)
  \/ \E e \in Eids(g) : Multi(g.k) /\ g' = Del(g, {x \in g.E : x.e = e}) /\ c' = CDelEid(c, e) /\ H(<<"deledgeid", e>>)
  \/ \E n \in g.N : g' = DelN(g, n) /\ c' = CDelN(n) /\ H(<<"delnode", n>>)
  \/ c' = CDefrag /\ c' # c /\ UNCHANGED g /\ H(<<"defrag", 0>>)
  \/ \E n \in g.N : g.k = "A" /\ g' = [g EXCEPT !.na["na"].v[n] = 1] /\ c' = [c EXCEPT !.nc[NSlot(n)] = 1] /\ H(<<"setattr", "n", "na", n, 1, 1>>)
  \/ \E e \in Eids(g) : g.k = "A" /\ g' = [g EXCEPT !.ea["ea"].v[e] = 1] /\ c' = [c EXCEPT !.ec[ESlot(c, e)] = 1] /\ H(<<"setattr", "e", "ea", e, 1, 1>>)
Spec == Init /\ [][(~Gen \/ Len(hist) < Depth) /\ Step]_<<g, c, hist>>
View == <<g, c>>
Emit == ~Gen \/ Len(hist) < Depth \/ PrintT(<<"BHV", ToJson(hist)>>)
=============================================================================
