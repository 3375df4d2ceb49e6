--------------------------------- MODULE Ana ---------------------------------
(* What the quantities that the graph analytics compute are, on the graphs of module Graph, by definition: distances,
   components, cores, triangles, flows, centralities, ...  Nothing here is an algorithm of the library. *)
EXTENDS Graph, TLC
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Near(a, b, t) == Abs(a - b) <= t
Mx(S) == LET T == TLCEval(S) IN CHOOSE x \in T : \A y \in T : y <= x
Mn(S) == LET T == TLCEval(S) IN CHOOSE x \in T : \A y \in T : x <= y
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
Prs(S) == {p \in SUBSET S : Cardinality(p) = 2}
Sub(g, S) == [g EXCEPT !.N = S, !.E = Kept(g, S)]
Undir(g) == {{x.s, x.d} : x \in {y \in g.E : y.s # y.d}}           \* the pairs of neighbours
Neib(g, n) == NbrN(g, n) \ {n}

(* ---- distances ---- *)
Step(g, n, fo, fi) == (IF fo THEN OutN(g, n) ELSE {}) \cup (IF fi THEN InN(g, n) ELSE {})
Adj(g, fo, fi) == TLCEval([n \in g.N |-> Step(g, n, fo, fi)])
RECURSIVE Wave(_, _, _, _)
Wave(adj, D, F, d) == IF F = {} THEN D
  ELSE LET nx == UNION {adj[n] : n \in F} \ DOMAIN D
       IN Wave(adj, TLCEval([x \in DOMAIN D \cup nx |-> IF x \in nx THEN d + 1 ELSE D[x]]), nx, d + 1)
From(adj, s) == Wave(adj, [x \in {s} |-> 0], {s}, 0)
Dist(g, s, fo, fi) == From(Adj(g, fo, fi), s)
AllD(adj) == TLCEval([s \in DOMAIN adj |-> From(adj, s)])
Upto(D, m) == TLCEval({n \in DOMAIN D : D[n] <= m})

\* the 90% effective diameter of a distribution of distances, times 10000.  C[d] is the number of pairs at distance d
EffDiam(C) ==
  LET K == DOMAIN C
      Tot == SumF(C, K)
      Cum == [d \in K |-> SumF(C, {x \in K : x <= d})]
      Big == {d \in K : 10 * Cum[d] > 9 * Tot}
      d == Mn(Big)
      Low == {x \in K : x < d}
      p == Mx(Low)
  IN IF Low = {} THEN 10000 ELSE (10000 * p) + ((1000 * ((9 * Tot) - (10 * Cum[p]))) \div (Cum[d] - Cum[p]))
CountD(D, S, T) == LET K == {D[s][t] : s \in S, t \in T} IN K

(* ---- components ---- *)
Classes(N, R(_, _)) == {{b \in N : R(a, b)} : a \in N}
Wccs(g) == LET A == AllD(Adj(g, TRUE, TRUE)) IN {DOMAIN A[n] : n \in g.N}
Sccs(g) == LET A == AllD(Adj(g, TRUE, FALSE)) IN {{b \in DOMAIN A[n] : n \in DOMAIN A[b]} : n \in g.N}
\* undirected graphs: articulation points, bridges, blocks
Wo(g, v) == Sub(g, g.N \ {v})
Arts(g) == {v \in g.N : Cardinality(Wccs(Wo(g, v))) > Cardinality(Wccs(g)) - (IF Neib(g, v) = {} THEN 1 ELSE 0)}
Bridges(g) == {x \in g.E : x.s # x.d /\ Cardinality(Wccs([g EXCEPT !.E = @ \ {x}])) > Cardinality(Wccs(g))}
\* two edges are in one block iff no single vertex separates them
Blocks(g) ==
  LET P == Undir(g)
      W == TLCEval([v \in g.N |-> Wccs(Wo(g, v))])
      Same(p, q) == \A v \in g.N : \E C \in W[v] : (C \cap p) # {} /\ (C \cap q) # {}
  IN {UNION {q \in P : Same(p, q)} : p \in P}
\* the pieces hanging on the largest two-edge-connected part by one edge, for a choice K of that part
NoBr(g) == [g EXCEPT !.E = @ \ Bridges(g)]
OneCon(g, K) == Wccs([g EXCEPT !.E = @ \ {x \in Bridges(g) : x.s \in K \/ x.d \in K}]) \ {K}

(* ---- cores ---- *)
RECURSIVE Core(_, _)
Core(g, k) == LET D == {n \in g.N : Deg(g, n) < k} IN IF D = {} THEN g.N ELSE Core(Sub(g, g.N \ D), k)

(* ---- triangles ---- *)
NbT(g) == TLCEval([n \in g.N |-> Neib(g, n)])
Closed(nb, n) == Cardinality({p \in Prs(nb[n]) : \A a, b \in p : a # b => a \in nb[b]})
Open(nb, n) == LET k == Cardinality(nb[n]) IN ((k * (k - 1)) \div 2) - Closed(nb, n)
Triangles(nb) == Cardinality({t \in UNION {{p \cup {n} : p \in Prs(nb[n])} : n \in DOMAIN nb} : \A a, b \in t : a # b => a \in nb[b]})
Ccf(nb, n) == LET c == Closed(nb, n)  o == Open(nb, n) IN IF c + o = 0 THEN 0 ELSE (1000000 * c) \div (c + o)

(* ---- shortest-path counts and betweenness (times 10000) ---- *)
\* how many edges lead from a to b when a path may follow them
Mult(g, a, b, dir) == Cardinality({x \in g.E : x.s = a /\ x.d = b}) + (IF Und(g.k) \/ ~dir THEN IF a = b THEN 0 ELSE Cardinality({x \in g.E : x.s = b /\ x.d = a}) ELSE 0)
MultT(g, dir) == TLCEval([a \in g.N |-> [b \in g.N |-> Mult(g, a, b, dir)]])
WgtT(g) == TLCEval([a \in g.N |-> [b \in g.N |-> LET S == {x.w : x \in {y \in g.E : y.s = a /\ y.d = b}} IN IF S = {} THEN 0 ELSE Mn(S)]])
\* only the lightest parallel edges are on shortest paths
MultW(g) == TLCEval([a \in g.N |-> [b \in g.N |-> LET S == {y \in g.E : y.s = a /\ y.d = b} IN
  IF S = {} THEN 0 ELSE Cardinality({y \in S : y.w = Mn({z.w : z \in S})})]])
RECURSIVE Relax(_, _, _)
Relax(W, D, k) ==       \* D: -1 for unreached; W: 0 for no edge
  IF k = 0 THEN D ELSE
  LET nx == TLCEval([b \in DOMAIN D |-> LET C == {D[a] + W[a][b] : a \in {a \in DOMAIN D : D[a] >= 0 /\ W[a][b] > 0}} \cup (IF D[b] >= 0 THEN {D[b]} ELSE {})
                                IN IF C = {} THEN -1 ELSE Mn(C)])
  IN IF nx = D THEN D ELSE Relax(W, nx, k - 1)
WDist(g, W, s) == Relax(W, [n \in g.N |-> IF n = s THEN 0 ELSE -1], Cardinality(g.N))
\* number of shortest paths from s, given distances D (-1 unreached), step lengths W, and multiplicities M
RECURSIVE Count(_, _, _, _, _)
Count(M, W, D, todo, S) ==
  IF todo = {} THEN S
  ELSE LET t == CHOOSE t \in todo : \A u \in todo : D[t] <= D[u]
           P == {u \in DOMAIN D : D[u] >= 0 /\ M[u][t] > 0 /\ (D[u] + W[u][t]) = D[t]}
       IN Count(M, W, D, todo \ {t}, [S EXCEPT ![t] = SumF([u \in P |-> S[u] * M[u][t]], P)])
Sigma(M, W, D, s) == Count(M, W, D, {t \in DOMAIN D : D[t] > 0}, [t \in DOMAIN D |-> IF t = s THEN 1 ELSE 0])
PathsT(g, M, W) ==
  LET D == TLCEval([s \in g.N |-> WDist(g, W, s)])
      Z == TLCEval([s \in g.N |-> Sigma(M, W, D[s], s)])
  IN [D |-> D, Z |-> Z]
Unit(M) == TLCEval([a \in DOMAIN M |-> [b \in DOMAIN M |-> IF M[a][b] > 0 THEN 1 ELSE 0]])
Pairs(N) == {p \in N \X N : p[1] # p[2]}
NodeBtw(N, T, v) ==
  LET P == {p \in Pairs(N) : p[1] # v /\ p[2] # v /\ T.D[p[1]][p[2]] > 0 /\ T.D[p[1]][v] >= 0 /\ T.D[v][p[2]] >= 0
                             /\ T.D[p[1]][v] + T.D[v][p[2]] = T.D[p[1]][p[2]]}
  IN SumF([p \in P |-> (10000 * (T.Z[p[1]][v] * T.Z[v][p[2]])) \div T.Z[p[1]][p[2]]], P)
\* over the ordered pairs joined by a shortest path through a step from a to b
StepBtw(N, T, M, W, a, b) ==
  LET P == {p \in Pairs(N) : M[a][b] > 0 /\ a # b /\ T.D[p[1]][p[2]] > 0 /\ T.D[p[1]][a] >= 0 /\ T.D[b][p[2]] >= 0
                             /\ T.D[p[1]][a] + W[a][b] + T.D[b][p[2]] = T.D[p[1]][p[2]]}
  IN SumF([p \in P |-> (10000 * (T.Z[p[1]][a] * M[a][b] * T.Z[b][p[2]])) \div T.Z[p[1]][p[2]]], P)

(* ---- flows ---- *)
CutCap(g, S) == LET C == {x \in g.E : x.s \in S /\ x.d \notin S} IN SumF([x \in C |-> x.w], C)
MinCut(g, s, t) == Mn({CutCap(g, S \cup {s}) : S \in SUBSET (g.N \ {s, t})})

(* ---- PageRank (times 10^7), C = 17/20 ---- *)
RECURSIVE PR(_, _, _)
PRStep(g, x, wt) ==
  LET N == g.N
      out == TLCEval([n \in N |-> IF wt THEN SumF([e \in OutE(g, n) |-> e.w], OutE(g, n)) ELSE OutDeg(g, n)])
      in == TLCEval([n \in N |-> IF Und(g.k) THEN SumF([m \in InN(g, n) |-> (x[m] * 17) \div (20 * out[m])], InN(g, n))
                         ELSE SumF([e \in InE(g, n) |-> (x[e.s] * 17 * (IF wt THEN e.w ELSE 1)) \div (20 * out[e.s])], InE(g, n))])
      leak == (10000000 - SumF(in, N)) \div Cardinality(N)
  IN TLCEval([n \in N |-> in[n] + leak])
PR(g, k, wt) == IF k = 0 THEN [n \in g.N |-> 10000000 \div Cardinality(g.N)] ELSE PRStep(g, PR(g, k - 1, wt), wt)

(* ---- hubs and authorities: the integer vectors that normalisation scales ---- *)
AuthOf(g, h) == TLCEval([n \in g.N |-> SumF([m \in InN(g, n) |-> h[m] * (IF Und(g.k) THEN 1 ELSE Cardinality({x \in g.E : x.s = m /\ x.d = n}))], InN(g, n))])
HubOf(g, a) == TLCEval([n \in g.N |-> SumF([m \in OutN(g, n) |-> a[m] * (IF Und(g.k) THEN 1 ELSE Cardinality({x \in g.E : x.s = n /\ x.d = m}))], OutN(g, n))])
RECURSIVE Hubs(_, _)
Hubs(g, k) == IF k = 0 THEN [n \in g.N |-> 1] ELSE HubOf(g, AuthOf(g, Hubs(g, k - 1)))
RECURSIVE Eig(_, _)
Eig(g, k) == IF k = 0 THEN [n \in g.N |-> 1] ELSE HubOf(g, Eig(g, k - 1))

(* ---- modularity of a set of disjoint groups, times 100000 ---- *)
Modul(g, Cs) ==
  LET m == Cardinality(g.E)
      one(c) == LET in == 2 * Cardinality(Kept(g, c))  d == SumF([n \in c |-> OutDeg(g, n)], c) IN (100000 * ((in * 2 * m) - (d * d))) \div (4 * m * m)
  IN SumF([c \in Cs |-> one(c)], Cs)
IsPartition(Cs, N) == UNION Cs = N /\ {} \notin Cs /\ \A a, b \in Cs : a # b => a \cap b = {}

(* ---- directed trees: every node has at most one edge out, and exactly one node none ---- *)
TreeRoot(g) == {n \in g.N : OutDeg(g, n) = 0}
=============================================================================
