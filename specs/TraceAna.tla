------------------------------- MODULE TraceAna -------------------------------
EXTENDS TraceBase, Ana
VARIABLE g
TraceInit == TraceStart /\ g = Empty("U")
Rng(s) == {s[i] : i \in 1..Len(s)}
Num(S) == Cardinality(S)
B(b) == IF b THEN 1 ELSE 0
\* a sequence of sets, each given as a sequence without repetition: compared as a set of sets
SetsOf(q) == {Rng(q[i]) : i \in 1..Len(q)}
NoRep(q) == Num(Rng(q)) = Len(q)
SetsOk(q, S) == SetsOf(q) = S /\ Len(q) = Num(S) /\ \A i \in 1..Len(q) : NoRep(q[i])
IsSet(q, S) == Rng(q) = S /\ Len(q) = Num(S)
\* a sequence of pairs that is a function
IsMap(q, h) == \E f \in {TLCEval(h)} : IsSet([i \in 1..Len(q) |-> q[i][1]], DOMAIN f) /\ \A i \in 1..Len(q) : q[i][2] = f[q[i][1]]
NearMap(q, f, t) == IsSet([i \in 1..Len(q) |-> q[i][1]], DOMAIN f) /\ \A i \in 1..Len(q) : Near(q[i][2], f[q[i][1]], t)
\* a sequence of (a, b, value); entries not listed are zero
Key3(q, a, b) == {i \in 1..Len(q) : q[i][1] = a /\ q[i][2] = b}
Sizes(S) == [k \in {Num(c) : c \in S} |-> Num({c \in S : Num(c) = k})]
\* a graph answer
SameG(r, h) == /\ IsSet(r[1], h.N)
               /\ {Ends(h, r[2][i][1], r[2][i][2]) : i \in 1..Len(r[2])} = {<<x.s, x.d>> : x \in h.E}
               /\ Len(r[2]) = Num(h.E)
Dense(f, x) == [i \in DOMAIN f |-> f[i]]
\* proportional to the integer vector v, with length one (values times 10000)
Scaled(q, v) ==
  LET f == [i \in 1..Len(q) |-> q[i][1]]
      val(n) == q[CHOOSE i \in 1..Len(q) : f[i] = n][2]
      top == CHOOSE n \in DOMAIN v : \A m \in DOMAIN v : v[m] <= v[n]
      \* sum of the squares, in units of 10^-4, against 10^4
      sq == SumF([i \in 1..Len(q) |-> (q[i][2] * q[i][2]) \div 10000], 1..Len(q))
  IN /\ IsSet(f, DOMAIN v)
     /\ Near(sq, 10000, 12 + Len(q))
     /\ \A n \in DOMAIN v : Near(val(n) * v[top], val(top) * v[n], 2 * (v[top] + v[n]))
Walk(q, from, len) ==
  /\ Len(q) >= 1 /\ q[1] = from
  /\ \A i \in 1..(Len(q) - 1) : q[i + 1] \in NbrN(g, q[i])
  /\ Len(q) = (IF Deg(g, from) = 0 THEN 1 ELSE len)
RECURSIVE Walks(_, _, _)
Walks(q, from, len) == IF from = << >> THEN q = << >> ELSE
  LET k == IF Deg(g, from[1]) = 0 THEN 1 ELSE len
  IN Len(q) >= k /\ Walk(SubSeq(q, 1, k), from[1], len) /\ Walks(SubSeq(q, k + 1, Len(q)), Tail(from), len)
PathOk(D, r, s, t, fo, fi) ==
  IF t \notin DOMAIN D THEN r[1] = -1 /\ r[2] = << >>
  ELSE /\ r[1] = D[t] /\ Len(r[2]) = D[t] + 1 /\ r[2][1] = s /\ r[2][Len(r[2])] = t
       /\ \A i \in 1..(Len(r[2]) - 1) : r[2][i + 1] \in Step(g, r[2][i], fo, fi)
BfsOk(a, r) ==
  \E D \in {Dist(g, a[1], a[2] = 1, a[3] = 1)} :
  LET m == IF a[5] < 0 THEN 1000000 ELSE a[5]
  IN \E V \in {TLCEval(IF a[4] = -1 \/ a[4] \notin Upto(D, m) THEN Upto(D, m) ELSE {})} :      \* what must have been visited
  \E top \in {TLCEval(IF V = {} THEN 0 ELSE Mx({D[n] : n \in V}))} : \E got \in { Rng([i \in 1..Len(r[4]) |-> r[4][i][1]])} :
     IF V # {} THEN
        /\ r[1] = top /\ r[2] = Num(V) /\ IsSet(r[3], V) /\ IsMap(r[4], [n \in V |-> D[n]])
        /\ \A i \in 1..Len(r[5]) : r[5][i] = (IF a[6 + i] \in V THEN D[a[6 + i]] ELSE -1)
     \* the search may stop at the target: what it saw has the right distance, and it saw everything nearer
     ELSE /\ r[1] = D[a[4]] /\ a[4] \in got /\ IsMap(r[4], [n \in got |-> D[n]])
          /\ {n \in DOMAIN D : D[n] < D[a[4]]} \subseteq got /\ \A n \in got : D[n] <= D[a[4]]
          /\ r[2] = Num(got) /\ IsSet(r[3], got)
DistC(A, S, T) ==       \* pairs at each distance
  LET K == UNION {{A[s][t] : t \in DOMAIN A[s] \cap T} : s \in S}
  IN [d \in K |-> SumF([s \in S |-> Num({t \in DOMAIN A[s] \cap T : A[s][t] = d})], S)]
Farness(D, norm) ==
  LET S == DOMAIN D  sum == SumF(D, S)  r == Num(S) - 1
  IN IF r = 0 THEN <<0, 1>> ELSE IF norm THEN <<sum * (Num(g.N) - 1), r * r>> ELSE <<sum, r>>
CommonPairs(a, b) == (NbrN(g, a) \cap NbrN(g, b)) \ {a, b}
NodePairs(S) == {{a, b} : <<a, b>> \in {p \in S \X S : p[1] # p[2]}}
EdgeBtwOk(q, T, M, W) ==
  \A a, b \in g.N : a <= b =>
    LET v == IF a = b THEN 0 ELSE StepBtw(g.N, T, M, W, a, b) + StepBtw(g.N, T, M, W, b, a)
        I == Key3(q, a, b) \cup Key3(q, b, a)
    IN IF v = 0 THEN \A i \in I : q[i][3] = 0 ELSE Num(I) = 1 /\ \A i \in I : Near(q[i][3], v, Num(g.N) * Num(g.N) + v \div 5000)
BtwOk(r, dir, mode, W0, M) ==
  LET W == W0
      T == PathsT(g, M, W)
      div == IF dir THEN 1 ELSE 2
      f == TLCEval([n \in g.N |-> NodeBtw(g.N, T, n) \div div])
  IN /\ IF mode = 2 THEN r[1] = << >>
        ELSE /\ \A i \in 1..Len(r[1]) : r[1][i][1] \in g.N /\ Near(r[1][i][2], f[r[1][i][1]], Num(g.N) * Num(g.N) + f[r[1][i][1]] \div 5000)
             /\ {n \in g.N : f[n] > 100} \subseteq Rng([i \in 1..Len(r[1]) |-> r[1][i][1]])
             /\ NoRep([i \in 1..Len(r[1]) |-> r[1][i][1]])
     /\ IF mode = 1 THEN r[2] = << >> ELSE EdgeBtwOk(r[2], T, M, W)
\* the fixed point of a contraction, or its k-th iterate
RankOk(q, k, wt) ==
  IF k <= 3 THEN NearMap(q, PR(g, k, wt), 400)
  ELSE /\ IsSet([i \in 1..Len(q) |-> q[i][1]], g.N)
       /\ LET x == [n \in g.N |-> q[CHOOSE i \in 1..Len(q) : q[i][1] = n][2]]
          IN NearMap(q, PRStep(g, x, wt), 400) /\ Near(SumF(x, g.N), 10000000, 100)
Groups(a) ==     \* groups of nodes, each ended by -1
  LET E == {i \in 1..Len(a) : a[i] = -1}
  IN {Rng(SubSeq(a, (IF {j \in E : j < i} = {} THEN 0 ELSE Mx({j \in E : j < i})) + 1, i - 1)) : i \in E}
MaxOf(S) == {c \in S : \A d \in S : Num(d) <= Num(c)}
WReach(g1, W, s) == LET D == WDist(g1, W, s) IN [n \in {n \in g1.N : D[n] >= 0} |-> D[n]]
WBtw(r, mode) == BtwOk(r, TRUE, mode, WgtT(g), MultW(g))

Right(f, a, r) ==
  CASE f = "bfs" -> BfsOk(a, r)
    [] f = "path" -> PathOk(Dist(g, a[1], a[3] = 1, a[4] = 1), r, a[1], a[2], a[3] = 1, a[4] = 1)
    [] f = "bfstree" -> LET D == Dist(g, a[1], a[2] = 1, a[3] = 1) IN
         IsSet(r[1], DOMAIN D) /\ IsSet(r[2], {<<x, y>> \in (DOMAIN D) \X (DOMAIN D) : D[y] = D[x] + 1 /\ y \in Step(g, x, a[2] = 1, a[3] = 1)})
    [] f = "subtree" -> LET D == Dist(g, a[1], a[2] = 1, a[3] = 1) IN r = <<Num(DOMAIN D), Num(DOMAIN D), Mx({D[n] : n \in DOMAIN D})>>
    [] f = "athop" -> LET D == Dist(g, a[1], TRUE, a[3] = 0)  S == {n \in DOMAIN D : D[n] = a[2]} IN r[1] = Num(S) /\ IsSet(r[2], S)
    [] f = "athops" -> LET D == Dist(g, a[1], TRUE, a[2] = 0) IN IsMap(r, [h \in {D[n] : n \in DOMAIN D} |-> Num({n \in DOMAIN D : D[n] = h})])
    [] f = "sp" -> LET D == Dist(g, a[1], TRUE, a[3] = 0) IN r = (IF a[2] \in DOMAIN D THEN D[a[2]] ELSE -1)
    [] f = "spall" -> LET D == Dist(g, a[1], TRUE, a[2] = 0)  S == Upto(D, IF a[3] < 0 THEN 1000000 ELSE a[3]) IN r[1] = Mx({D[n] : n \in S}) /\ IsMap(r[2], [n \in S |-> D[n]])
    [] f = "dists" -> LET D == Dist(g, a[1], TRUE, FALSE) IN IsMap(r[2], D)
    [] f \in {"diam", "diamv"} -> LET A == AllD(Adj(g, TRUE, a[1] = 0))  C == DistC(A, g.N, g.N)  K == DOMAIN C IN
         /\ r[1] = Mx(K) /\ r[4] = Mx(K) /\ Near(r[2], EffDiam(C), 3)
         /\ Near(r[3], (10000 * SumF([d \in K |-> d * C[d]], K)) \div SumF(C, K), 3)
    [] f = "diamsub" -> LET A == AllD(Adj(g, TRUE, a[1] = 0))  S == Rng(Tail(a))  C == DistC(A, S, S) IN r[1] = Mx(DOMAIN C) /\ Near(r[2], EffDiam(C), 3)
    [] f = "wcc" -> IsSet(r, DOMAIN Dist(g, a[1], TRUE, TRUE))
    [] f = "conn" -> LET c == B(Num(Wccs(g)) <= 1) IN r = <<c, c>>
    [] f = "wccs" -> SetsOk(r, Wccs(g))
    [] f = "sccs" -> SetsOk(r, Sccs(g))
    [] f = "wccsz" -> IsMap(r, Sizes(Wccs(g)))
    [] f = "sccsz" -> IsMap(r, Sizes(Sccs(g)))
    [] f = "mxsz" -> LET m(S) == (1000000 * Mx({Num(c) : c \in S})) \div Num(g.N) IN Near(r[1], m(Wccs(g)), 2) /\ Near(r[2], m(Sccs(g)), 2)
    [] f = "mxwcc" -> \E c \in MaxOf(Wccs(g)) : SameG(r, Sub(g, c))
    [] f = "mxscc" -> \E c \in MaxOf(Sccs(g)) : SameG(r, Sub(g, c))
    [] f = "mxbicon" -> \E c \in MaxOf(Blocks([g EXCEPT !.k = "U"])) : SameG(r, Sub(g, c))
    [] f = "bicon" -> SetsOk(r, Blocks(g))
    [] f = "biconsz" -> IsMap(r, Sizes(Blocks(g)))
    [] f = "art" -> IsSet(r, Arts(g))
    [] f = "bridges" -> {Ends(g, r[i][1], r[i][2]) : i \in 1..Len(r)} = {<<x.s, x.d>> : x \in Bridges(g)} /\ Len(r) = Num(Bridges(g))
    [] f = "one" -> IF Bridges(g) = {} THEN r = << >> ELSE \E K \in MaxOf(Wccs(NoBr(g))) : SetsOk(r, OneCon(g, K))
    [] f = "onesz" -> IF Bridges(g) = {} THEN r = << >> ELSE \E K \in MaxOf(Wccs(NoBr(g))) : IsMap(r, Sizes(OneCon(g, K)))
    [] f = "kcore" -> LET S == Core(g, a[1])  h == Sub(g, S) IN
         r[1] = Num(S) /\ r[2] = Num(S) /\ IsSet(r[4], S) /\ SameG(r[5], h) /\ SameG(r[6], h) /\ (Loops(g) = {} => r[3] = Num(h.E))
    [] f = "kcores" -> LET top == Mx({0} \cup {Deg(g, n) : n \in g.N})
                           S == TLCEval([k \in 0..(top + 1) |-> Core(g, k)])
                           K == {k \in 0..top : S[k] # {}} IN
         /\ r[1] = Num(K) /\ r[2] = Num(K) /\ IsMap(r[3], [k \in K |-> Num(S[k])])
         /\ (Loops(g) = {} => IsMap(r[4], [k \in K |-> Num(Kept(g, S[k]))]))
    [] f \in {"cc", "ccd", "cct"} -> LET nb == NbT(g)
                        c == TLCEval([n \in g.N |-> Ccf(nb, n)])
                        avg == SumF(c, g.N) \div Num(g.N)
                        D == {Deg(g, n) : n \in g.N}
                        at(d) == {n \in g.N : Deg(g, n) = d} IN
         IF f = "cc" THEN Near(r, avg, 5)
         ELSE IF f = "ccd" THEN Near(r[1], avg, 5) /\ NearMap(r[2], [d \in D |-> SumF(c, at(d)) \div Num(at(d))], 5)
         ELSE Near(r[1], avg, 5) /\ r[2] = Triangles(nb) /\ r[3] = SumF([n \in g.N |-> Open(nb, n)], g.N)
    [] f = "ncc" -> Near(r, Ccf(NbT(g), a[1]), 5)
    [] f \in {"nccs", "nccv"} -> LET nb == NbT(g) IN NearMap(r, [n \in g.N |-> Ccf(nb, n)], 5)
    [] f = "tri" -> LET nb == NbT(g) IN r = <<Triangles(nb), Triangles(nb), SumF([n \in g.N |-> Open(nb, n)], g.N)>>
    [] f \in {"tri1", "ctri", "gtri"} -> r = Triangles(NbT(g))
    [] f = "triv" -> LET nb == NbT(g) IN Rng(r) = {<<n, Closed(nb, n), Open(nb, n)>> : n \in g.N} /\ Len(r) = Num(g.N)
    [] f = "tedges" -> LET nb == NbT(g) IN r = Num({x \in g.E : x.s # x.d /\ \E n \in nb[x.s] \cap nb[x.d] : n \notin {x.s, x.d}})
    [] f = "ntri" -> LET nb == NbT(g)  c == Closed(nb, a[1]) IN r = <<c, c, Open(nb, a[1]), c>>
    [] f = "ngrp" -> LET nb == NbT(g)  S == Rng(Tail(a))
                         T == {p \in Prs(nb[a[1]]) : \A x, y \in p : x # y => x \in nb[y]}
                         k(i) == Num({p \in T : Num(p \cap S) = i}) IN r = <<k(2), k(2), k(1), k(0)>>
    [] f = "part" -> LET nb == NbT(g)  c == TLCEval([n \in g.N |-> Closed(nb, n)]) IN IsMap(r, [t \in {c[n] : n \in g.N} |-> Num({n \in g.N : c[n] = t})])
    [] f = "len2" -> LET S == {u \in OutN(g, a[1]) : a[2] \in OutN(g, u)} IN Len(r) > 0 /\ IsSet(SubSeq(r, 1, Len(r) - 1), S) /\ r[Len(r)] = Num(S)
    [] f = "cmn" -> LET S == CommonPairs(a[1], a[2]) IN r[1] = Num(S) /\ r[2] = Num(S) /\ IsSet(r[3], S)
    [] f = "uniq" -> IsSet(r, Neib(g, a[1])) /\ \A i \in 1..(Len(r) - 1) : r[i] < r[i + 1]
    [] f = "walk" -> IF a[3] = 0 THEN Walk(r, a[1], a[2]) ELSE Walks(r, <<a[1]>> \o SubSeq(a, 4, Len(a)), a[2])
    [] f = "spv" -> r = [i \in 1..(Len(a) \div 2) |-> LET D == Dist(g, a[(2 * i) - 1], TRUE, TRUE) IN IF a[2 * i] \in DOMAIN D THEN D[a[2 * i]] ELSE -1]
    [] f \in {"far", "wfar"} -> LET D == IF f = "far" THEN Dist(g, a[1], TRUE, a[2] = 0) ELSE WReach(g, WgtT(g), a[1])
                                    q == Farness(D, a[IF f = "far" THEN 3 ELSE 2] = 1) IN Near(r, (100000 * q[1]) \div q[2], 3)
    [] f \in {"clo", "wclo"} -> LET D == IF f = "clo" THEN Dist(g, a[1], TRUE, a[2] = 0) ELSE WReach(g, WgtT(g), a[1])
                                    q == Farness(D, a[IF f = "clo" THEN 3 ELSE 2] = 1) IN Near(r, IF q[1] = 0 THEN 0 ELSE (100000 * q[2]) \div q[1], 3)
    [] f = "ecc" -> LET D == Dist(g, a[1], TRUE, a[2] = 0) IN r = Mx({D[n] : n \in DOMAIN D})
    [] f \in {"btw", "btwv"} -> LET M == MultT(g, a[1] = 1) IN BtwOk(r, a[1] = 1, IF f = "btwv" THEN 0 ELSE a[2], Unit(M), M)
    [] f = "wbtw" -> WBtw(r, 0)
    [] f = "wbtwn" -> WBtw(<<r, << >>>>, 1)
    [] f = "wbtwe" -> WBtw(<<<< >>, r>>, 2)
    [] f \in {"pr", "prv"} -> RankOk(r, a[1], FALSE)
    [] f = "wpr" -> RankOk(r, a[1], TRUE)
    [] f \in {"hits", "hitsv"} -> LET h0 == Hubs(g, a[1] - 1)  au == AuthOf(g, h0) IN Scaled(r[2], au) /\ Scaled(r[1], HubOf(g, au))
    [] f = "eig" -> Scaled(r, Eig(g, a[1]))
    [] f = "degc" -> Near(r, IF Num(g.N) > 1 THEN (1000000 * Deg(g, a[1])) \div (Num(g.N) - 1) ELSE 0, 2)
    [] f = "gdeg" -> r = Num(UNION {NbrN(g, n) : n \in Rng(a)} \ Rng(a))
    [] f = "gclo" -> LET A == AllD(Adj(g, TRUE, TRUE))
                         T == {n \in g.N \ Rng(a) : \E s \in Rng(a) : n \in DOMAIN A[s]}
                         sum == SumF([n \in T |-> Mn({A[s][n] : s \in {s \in Rng(a) : n \in DOMAIN A[s]}})], T)
                     IN Near(r, IF T = {} THEN 0 ELSE (1000000 * Num(T)) \div sum, 3)
    [] f = "mod" -> Near(r, Modul(g, Groups(a)), 12)
    [] f \in {"cnm", "gn"} -> LET P == SetsOf(r[2]) IN IsPartition(P, g.N) /\ Len(r[2]) = Num(P) /\ Near(r[1], Modul(g, P), 12)
    [] f = "inout" -> LET S == Rng(a)
                          IN_ == SumF([n \in S |-> Num({x \in OutE(g, n) : (IF x.s = n THEN x.d ELSE x.s) \in S})], S)
                      IN r = <<IN_ \div 2, SumF([n \in S |-> OutDeg(g, n)], S) - IN_>>
    [] f = "tree?" -> LET t == Num(g.E) = Num(g.N) - 1 /\ Num(Wccs(g)) = 1 /\ Num(TreeRoot(g)) = 1 IN
                      r[1] = B(t) /\ (t => r[2] \in TreeRoot(g))
    [] f = "flow" -> r = MinCut(g, a[1], a[2])
    [] f = "wsp" -> IsMap(r, WReach(g, WgtT(g), a[1]))
    [] OTHER -> FALSE

\* ---- generated graphs: r = [nodes, edges], a directed graph's edges as ordered pairs
NV(n) == 0..(n - 1)
Pr(k, s, d) == IF k = "D" THEN {<<s, d>>} ELSE {IF s <= d THEN <<s, d>> ELSE <<d, s>>}
Both(k, s, d, dir) == IF k = "D" /\ ~dir THEN {<<s, d>>, <<d, s>>} ELSE Pr(k, s, d)
Pow(b, k) == b ^ k
GenOk(k, f, a, r) ==
  LET n == Len(r[1])
      E == UNION {Pr(k, r[2][i][1], r[2][i][2]) : i \in 1..Len(r[2])}
      dg(v) == Num({p \in E : p[1] = v}) + Num({p \in E : p[2] = v})
      Is_(N, F) == IsSet(r[1], N) /\ E = F /\ Len(r[2]) = Num(F)
      ok == IsSet(r[1], NV(n)) /\ Len(r[2]) = Num(E)
  IN CASE f = "grid" -> Is_(NV(a[1] * a[2]), UNION {(IF i < a[1] - 1 THEN Both(k, (a[2] * i) + j, (a[2] * (i + 1)) + j, a[3] = 1) ELSE {})
                                              \cup (IF j < a[2] - 1 THEN Both(k, (a[2] * i) + j, (a[2] * i) + j + 1, a[3] = 1) ELSE {}) : <<i, j>> \in (0..(a[1] - 1)) \X (0..(a[2] - 1))})
       [] f = "star" -> Is_(NV(a[1]), UNION {Both(k, 0, i, a[2] = 1) : i \in 1..(a[1] - 1)})
       [] f = "circle" -> Is_(NV(a[1]), UNION {Both(k, i, (i + x + 1) % a[1], a[3] = 1) : <<i, x>> \in NV(a[1]) \X NV(a[2])})
       [] f = "full" -> Is_(NV(a[1]), UNION {IF i = j THEN {} ELSE Pr(k, i, j) : <<i, j>> \in NV(a[1]) \X NV(a[1])})
       [] f = "gentree" -> LET N == (Pow(a[1], a[2] + 1) - 1) \div (a[1] - 1) IN
            Is_(NV(N), UNION {LET p == (i - 1) \div a[1] IN IF a[3] = 1 /\ a[4] = 1 THEN Pr(k, i, p) ELSE Both(k, p, i, a[3] = 1) : i \in 1..(N - 1)})
       [] f = "gnm" -> ok /\ n = a[1] /\ (\A p \in E : p[1] # p[2])
                       /\ Num(E) = a[2] * (IF k = "D" /\ a[3] = 0 THEN Num(E) \div a[2] ELSE 1)
                       /\ (k = "D" /\ a[3] = 0 => (\A p \in E : <<p[2], p[1]>> \in E) /\ Num(E) <= 2 * a[2])
       [] f = "bip" -> ok /\ n = a[2] + a[3] /\ Num(E) = a[4] /\ \A p \in E : p[1] < a[2] /\ p[2] >= a[2]
       [] f = "conf" -> ok /\ n = Len(a) - 1 /\ (\A p \in E : p[1] # p[2]) /\ \A v \in NV(n) : dg(v) <= a[v + 2]
       [] f = "pref" -> ok /\ n = a[2] /\ \A v \in 2..(n - 1) : Num({p \in E : p[2] = v /\ p[1] < v}) = (IF v < a[3] THEN v ELSE a[3])
       [] OTHER -> FALSE

Graph_(e) == [k |-> e.k, N |-> Rng(e.N), nd |-> << >>, L |-> {},
  E |-> IF e.k = "E" THEN {[s |-> e.E[i][1], d |-> e.E[i][2], e |-> i, w |-> e.E[i][3]] : i \in 1..Len(e.E)}
        ELSE {LET p == IF e.k = "U" /\ e.E[i][1] > e.E[i][2] THEN <<e.E[i][2], e.E[i][1]>> ELSE <<e.E[i][1], e.E[i][2]>>
              IN [s |-> p[1], d |-> p[2], e |-> 0, w |-> 0] : i \in 1..Len(e.E)},
  na |-> NoAttr, ea |-> NoAttr]
TraceNext ==
  \/ Is("graph") /\ g' = Graph_(Ev)
  \/ Is("q") /\ Right(Ev.f, Ev.a, Ev.r) /\ UNCHANGED g
  \/ Is("gen") /\ GenOk(Ev.k, Ev.f, Ev.a, Ev.r) /\ UNCHANGED g
  \/ Is("end") /\ UNCHANGED g
=============================================================================
