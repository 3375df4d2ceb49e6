-------------------------------- MODULE MCAna --------------------------------
(* Every small graph, built edge by edge, and what the definitions of module Ana say about each other on it: the
   quantities are related in the ways their names promise. *)
EXTENDS Ana
CONSTANTS Kind, NN, WithLoops, MaxE
VARIABLE g
Ns == 1..NN
CanAdd == {p \in Ns \X Ns : (WithLoops \/ p[1] # p[2]) /\ (Kind = "U" => p[1] <= p[2]) /\ (Kind = "E" => Cardinality({x \in g.E : x.s = p[1] /\ x.d = p[2]}) < 2)
                            /\ (Kind # "E" => ~\E x \in g.E : x.s = p[1] /\ x.d = p[2])}
Init == g = [Empty(Kind) EXCEPT !.N = Ns]
Next == /\ Cardinality(g.E) < MaxE
        /\ \E p \in CanAdd : \E w \in (IF Kind = "E" THEN {1, 2} ELSE {0}) :
             g' = [g EXCEPT !.E = @ \cup {[s |-> p[1], d |-> p[2], e |-> IF Kind = "E" THEN Cardinality(g.E) + 1 ELSE 0, w |-> w]}]
Spec == Init /\ [][Next]_g
Card(S) == Cardinality(S)
IsPart(C) == IsPartition(C, g.N)
Und_ == Kind = "U"
A1 == AllD(Adj(g, TRUE, FALSE))
A2 == AllD(Adj(g, TRUE, TRUE))
\* distances: a metric when edges are followed both ways; forwards they satisfy the triangle inequality and are at least as long
Metric == \E F \in {A1} : \E U \in {A2} :
  /\ \A a \in g.N : F[a][a] = 0 /\ U[a][a] = 0 /\ DOMAIN F[a] \subseteq DOMAIN U[a] /\ \A b \in DOMAIN F[a] : U[a][b] <= F[a][b]
  /\ \A a \in g.N : \A b \in DOMAIN U[a] : a \in DOMAIN U[b] /\ U[b][a] = U[a][b]
  /\ \A a \in g.N : \A b \in DOMAIN F[a] : \A c \in DOMAIN F[b] : c \in DOMAIN F[a] /\ F[a][c] <= F[a][b] + F[b][c]
  /\ \A x \in g.E : x.s # x.d => (F[x.s][x.d] = 1 /\ (Und_ => F[x.d][x.s] = 1))
  /\ \A a \in g.N : \A b \in DOMAIN F[a] \ {a} : \E c \in DOMAIN F[a] : F[a][c] = F[a][b] - 1 /\ b \in Step(g, c, TRUE, FALSE)
\* backward search is forward search in the other direction
Backward == \E F \in {A1} : \E W \in {AllD(Adj(g, FALSE, TRUE))} : \A a, b \in g.N : (b \in DOMAIN F[a] <=> a \in DOMAIN W[b]) /\ (b \in DOMAIN F[a] => F[a][b] = W[b][a])
Components == \E W \in {Wccs(g)} : \E S \in {Sccs(g)} :
  /\ IsPart(W) /\ IsPart(S) /\ \A c \in S : \E d \in W : c \subseteq d
  /\ Und_ => W = S
  /\ Card(W) >= Card(g.N) - Card(Undir(g)) /\ \A x \in g.E : \E c \in W : {x.s, x.d} \subseteq c
  \* the strongly connected components of the edges not on a cycle are single nodes
  /\ \A x \in g.E : (\E c \in S : {x.s, x.d} \subseteq c) <=> x.s \in DOMAIN From(Adj(g, TRUE, FALSE), x.d)
Blocks_ == Und_ => \E B \in {Blocks(g)} : \E A \in {Arts(g)} : \E R \in {Bridges(g)} : \E W \in {Wccs(g)} :
  /\ \A p \in Undir(g) : Card({b \in B : p \subseteq b}) = 1                 \* every edge is in exactly one block
  /\ \A b, c \in B : b # c => (Card(b \cap c) <= 1 /\ b \cap c \subseteq A)   \* blocks meet in articulation points
  /\ A = {v \in g.N : Card({b \in B : v \in b}) > 1}
  /\ {{x.s, x.d} : x \in R} \subseteq {b \in B : Card(b) = 2}                \* a bridge is a block of its own
  /\ \A b \in B : Card(b) = 2 => b \in {{x.s, x.d} : x \in R}
  \* the block-cut forest
  /\ \A c \in W : Card(c) > 1 => SumF([b \in {b \in B : b \subseteq c} |-> Card(b) - 1], {b \in B : b \subseteq c}) = Card(c) - 1
  \* taking a bridge away leaves one component more
  /\ \A x \in R : Card(Wccs([g EXCEPT !.E = @ \ {x}])) = Card(W) + 1
Cores == \A k \in 0..(NN + 1) : \E C \in {Core(g, k)} : \E h \in {Sub(g, C)} :
  /\ \A n \in C : Deg(h, n) >= k
  /\ Core(g, k + 1) \subseteq C
  \* it is the largest such set
  /\ \A S \in SUBSET g.N : (\A n \in S : Deg(Sub(g, S), n) >= k) => S \subseteq C
Triangles_ == \E nb \in {NbT(g)} : \E c \in {TLCEval([n \in g.N |-> Closed(nb, n)])} :
  /\ SumF(c, g.N) = 3 * Triangles(nb)
  /\ \A n \in g.N : Ccf(nb, n) \in 0..1000000 /\ (Ccf(nb, n) = 1000000 => c[n] > 0)
  /\ (Und_ /\ Triangles(nb) = 0 /\ Card(Undir(g)) >= Card(g.N)) => \E b \in Blocks(g) : Card(b) > 3   \* a cycle, and not a triangle
\* betweenness: what passes through the nodes is what the distances leave between the ends; what passes over the edges is the distances
Between == (Kind # "E") =>
  \E M \in {MultT(g, Kind = "D")} : \E T \in {PathsT(g, M, Unit(M))} :
    LET P == {p \in Pairs(g.N) : T.D[p[1]][p[2]] > 0} IN
      /\ Near(SumF([n \in g.N |-> NodeBtw(g.N, T, n)], g.N), 10000 * SumF([p \in P |-> T.D[p[1]][p[2]] - 1], P), Card(P) * NN)
      /\ Near(SumF([p \in Pairs(g.N) |-> StepBtw(g.N, T, M, Unit(M), p[1], p[2])], Pairs(g.N)), 10000 * SumF([p \in P |-> T.D[p[1]][p[2]]], P), Card(P) * NN * NN)
      /\ \A p \in P : T.D[p[1]][p[2]] = (IF Kind = "D" THEN A1 ELSE A2)[p[1]][p[2]]
      \* leaves and isolated nodes carry nothing; articulation points do
      /\ Und_ => \A n \in g.N : (Card(Neib(g, n)) <= 1 => NodeBtw(g.N, T, n) = 0) /\ (n \in Arts(g) => NodeBtw(g.N, T, n) > 0)
\* flows: no more than leaves the source or enters the target; something exactly when there is a way
Flows == (Kind = "E") => \A s, t \in g.N : s # t => \E f \in {MinCut(g, s, t)} :
  /\ f <= CutCap(g, {s}) /\ f <= CutCap(g, g.N \ {t})
  /\ (f > 0) <=> t \in DOMAIN From(Adj(g, TRUE, FALSE), s)
  \* adding the flow of the edges straight from s to t
  /\ f >= SumF([x \in {x \in g.E : x.s = s /\ x.d = t} |-> x.w], {x \in g.E : x.s = s /\ x.d = t})
\* weighted distances: unit weights give distances; weights only lengthen
Weights == (Kind = "E") => \E W \in {WgtT(g)} : \E F \in {A1} : \A s \in g.N : \E D \in {WDist(g, W, s)} :
  /\ {n \in g.N : D[n] >= 0} = DOMAIN F[s]
  /\ \A n \in DOMAIN F[s] : D[n] >= F[s][n] /\ D[n] <= 2 * F[s][n]
  /\ \A x \in g.E : D[x.s] >= 0 => D[x.d] <= D[x.s] + x.w
\* PageRank stays a distribution, and every node keeps at least what leaks
Ranks == Kind \in {"U", "D"} => \A k \in 1..2 : \E x \in {PR(g, k, FALSE)} : Near(SumF(x, g.N), 10000000, 50) /\ \A n \in g.N : x[n] * NN * 20 >= 10000000 * 2
\* modularity: of one group of everything 0; never above 1; invariant in the graph's isolated nodes
Modularity == (Und_ /\ g.E # {} /\ \A x \in g.E : x.s # x.d) =>
  /\ Near(Modul(g, {g.N}), 0, 2)
  /\ \A P \in {Q \in SUBSET (SUBSET g.N) : IsPart(Q)} : Modul(g, P) \in -50010..100000
  /\ Modul(g, Wccs(g)) >= -5
\* effective diameter: between the 90% quantile's neighbours
Effective == \E F \in {A1} : LET ds == UNION {{F[a][b] : b \in DOMAIN F[a]} : a \in g.N}
                                 C == [d \in ds |-> Card({p \in g.N \X g.N : p[2] \in DOMAIN F[p[1]] /\ F[p[1]][p[2]] = d})] IN
  EffDiam(C) <= 10000 * Mx(ds \cup {1}) /\ EffDiam(C) >= 0
Law == Metric /\ Backward /\ Components /\ Blocks_ /\ Cores /\ Triangles_ /\ Between /\ Flows /\ Weights /\ Ranks /\ Modularity /\ Effective
=============================================================================
