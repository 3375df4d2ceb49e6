------------------------------ MODULE TraceGraph ------------------------------
EXTENDS TraceBase, Graph
VARIABLE g
TraceInit == TraceStart /\ g = Empty("U")
Rng(s) == {s[i] : i \in 1..Len(s)}
Cnt(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
NoRep(s) == Cardinality(Rng(s)) = Len(s)
Num(S) == Cardinality(S)
\* how often x appears in the lists of out-, in- and all neighbours of n
OutCnt(h, n, x) == IF Und(h.k) THEN IF x \in OutN(h, n) THEN 1 ELSE 0 ELSE Num({y \in h.E : y.s = n /\ y.d = x})
InCnt(h, n, x) == IF Und(h.k) THEN OutCnt(h, n, x) ELSE Num({y \in h.E : y.s = x /\ y.d = n})
NodeOk(h, q) ==
  LET n == q[1] IN
  /\ (HasND(h.k) => q[2] = h.nd[n])
  /\ (h.k = "B" => q[2] = (IF n \in h.L THEN 1 ELSE 0))
  /\ q[3] = Deg(h, n) /\ q[4] = InDeg(h, n) /\ q[5] = OutDeg(h, n)
  /\ Len(q[6]) = q[4] /\ Len(q[7]) = q[5] /\ Len(q[8]) = q[3]
  /\ \A x \in h.N : /\ Cnt(q[6], x) = InCnt(h, n, x) /\ Cnt(q[7], x) = OutCnt(h, n, x)
                    /\ Cnt(q[8], x) = (IF Und(h.k) THEN OutCnt(h, n, x) ELSE OutCnt(h, n, x) + InCnt(h, n, x))
\* a dump: everything the iterators and accessors deliver
DumpOk(h, r) ==
  /\ {r.nodes[i][1] : i \in 1..Len(r.nodes)} = h.N /\ Len(r.nodes) = Num(h.N)
  /\ \A i \in 1..Len(r.nodes) : NodeOk(h, r.nodes[i])
  /\ Len(r.edges) = Num(h.E)
  /\ {[s |-> r.edges[i][1], d |-> r.edges[i][2], e |-> IF Multi(h.k) THEN r.edges[i][3] ELSE 0, w |-> IF HasED(h.k) THEN r.edges[i][4] ELSE 0] : i \in 1..Len(r.edges)}
       = (IF HasED(h.k) THEN h.E ELSE {[x EXCEPT !.w = 0] : x \in h.E})
  /\ Rng(r.nidv) = h.N /\ Len(r.nidv) = Num(h.N)
  /\ (Multi(h.k) => Rng(r.eidv) = Eids(h) /\ Len(r.eidv) = Num(h.E))
  /\ r.n = Num(h.N) /\ r.m = Num(h.E) /\ r.ok /\ (r.empty <=> h.N = {})
  /\ \A n \in h.N : r.mx > n
  /\ \A i \in 1..Len(r.na) : LET q == r.na[i] IN q[3] = h.na[q[1]].v[q[2]]
  /\ \A i \in 1..Len(r.ea) : LET q == r.ea[i] IN q[3] = h.ea[q[1]].v[q[2]]
  /\ Len(r.na) = Num(DOMAIN h.na) * Num(h.N) /\ Len(r.ea) = Num(DOMAIN h.ea) * Num(h.E)
PairOk(q) ==
  LET s == q[1]  d == q[2]  B(b) == IF b THEN 1 ELSE 0 IN
  /\ q[3] = B(Has(g, s, d))
  /\ q[4] = B(Has(g, s, d) \/ Has(g, d, s))
  /\ q[5] = B(s \in InN(g, d)) /\ q[6] = B(d \in OutN(g, s)) /\ q[7] = B(d \in NbrN(g, s))
  \* the edge found for the pair, and its identifier
  /\ (q[8] # -1 => Has(g, s, d) /\ Ends(g, q[8], q[9]) = Ends(g, s, d))
  /\ (Multi(g.k) => (q[10] = -1 <=> ~Has(g, s, d)) /\ (q[10] # -1 => q[10] \in {x.e : x \in At(g, s, d)}))
  /\ (HasED(g.k) /\ ~Multi(g.k) => (Has(g, s, d) <=> q[11] = 1) /\ (q[11] = 1 => \A x \in At(g, s, d) : x.w = q[12]))
\* the same graph with other node names
Renamed(h, f) == [h EXCEPT !.N = {f[n] : n \in h.N}, !.nd = [m \in {f[n] : n \in h.N} |-> 0],
                           !.E = {LET p == IF h.k \in {"U", "V"} /\ f[x.s] > f[x.d] THEN <<f[x.d], f[x.s]>> ELSE <<f[x.s], f[x.d]>>
                                  IN [x EXCEPT !.s = p[1], !.d = p[2]] : x \in h.E}]
Bij(S) == {f \in [S -> 0..(Num(S) - 1)] : \A a, b \in S : a # b => f[a] # f[b]}
Derived(e) ==
  LET ids == Rng(e.ids) \cap g.N
      how == e.how
  IN IF how = "sub" THEN SubG(g, ids, Kept(g, ids))
     ELSE IF how = "esub" THEN LET E == {x \in g.E : x.e \in Rng(e.ids)} IN SubG(g, {x.s : x \in E} \cup {x.d : x \in E}, E)
     ELSE IF how = "psub" THEN LET E == {x \in g.E : \E i \in 1..Len(e.ids) : Ends(g, e.ids[i][1], e.ids[i][2]) = <<x.s, x.d>>} IN SubG(g, {x.s : x \in E} \cup {x.d : x \in E}, E)
     ELSE IF how = "wsub" THEN LET E == {x \in g.E : (e.ids[2] = 0 /\ x.w = e.ids[1]) \/ (e.ids[2] = 1 /\ x.w > e.ids[1]) \/ (e.ids[2] = -1 /\ x.w < e.ids[1])}
                               IN SubG(g, {x.s : x \in E} \cup {x.d : x \in E}, E)
     ELSE IF how = "conv" THEN Convert(g, e.k, g.N, g.E)
     ELSE IF how = "csub" THEN Convert(g, e.k, ids, Kept(g, ids))
     ELSE IF how = "list" THEN LET S == {x.s : x \in g.E} \cup {x.d : x \in g.E} IN Convert(g, e.k, S, g.E)
     ELSE IF how = "undir" THEN Convert([g EXCEPT !.k = "U"], e.k, g.N, g.E)
     ELSE IF how = "ego" THEN LET S == {e.ids[1]} \cup NbrN(g, e.ids[1]) IN SubG(g, S, Kept(g, S))
     ELSE g
\* conversions into a multigraph number the edges afresh: compare all but the identifiers
Loose(r) == [r EXCEPT !.edges = [i \in 1..Len(r.edges) |-> [r.edges[i] EXCEPT ![3] = 0]]]
MultiConv(h, e, f) ==      \* every edge of g once (twice when an undirected one becomes directed), whatever its identifier
  /\ {e.res.nodes[i][1] : i \in 1..Len(e.res.nodes)} = {f[n] : n \in h.N}
  /\ \A a, b \in h.N : Num({i \in 1..Len(e.res.edges) : e.res.edges[i][1] = f[a] /\ e.res.edges[i][2] = f[b]})
       = (IF Und(g.k) THEN IF ~Has(g, a, b) THEN 0 ELSE IF a = b THEN 2 ELSE 1 ELSE Num(At(g, a, b)))
  /\ NoRep(e.res.eidv) /\ e.res.n = Num(h.N) /\ e.res.m = Len(e.res.edges) /\ e.res.ok /\ Len(e.res.eidv) = e.res.m
ArndU(c) == LET S == {c} \cup NbrN(g, c) IN Num({p \in (NbrN(g, c)) \X (g.N \ S) : Has(g, p[1], p[2])})
ArndIn(c) == LET S == {c} \cup NbrN(g, c) IN Num({x \in g.E : x.s \notin S /\ x.d \in S})
ArndOut(c) == LET S == {c} \cup NbrN(g, c) IN Num({x \in g.E : x.s \in S /\ x.d \notin S})
DerivedOk(e) ==
  LET h == Derived(e) IN
  /\ IF e.how \in {"conv", "csub"} /\ Multi(e.k) THEN \E f \in (IF e.ren THEN Bij(h.N) ELSE {[n \in h.N |-> n]}) : MultiConv(h, e, f)
     ELSE IF e.ren THEN \E f \in Bij(h.N) : DumpOk(Renamed(h, f), e.res)
     ELSE DumpOk(h, e.res)
  /\ (e.how = "ego" => IF Und(g.k) THEN e.x[1] = ArndU(e.ids[1]) ELSE e.x = <<ArndIn(e.ids[1]), ArndOut(e.ids[1])>>)
CntsOk(e) ==
  LET N == g.N
      Hist(f(_, _)) == [k \in {f(g, n) : n \in N} |-> Num({n \in N : f(g, n) = k})]
      H(list) == [k \in {list[i][1] : i \in 1..Len(list)} |-> (CHOOSE q \in Rng(list) : q[1] = k)[2]]
      UP == {{x.s, x.d} : x \in {y \in g.E : y.s # y.d}}
      DP == {<<x.s, x.d>> : x \in {y \in g.E : y.s # y.d}}
  IN /\ e.indeg = Num({n \in N : InDeg(g, n) = e.k}) /\ e.outdeg = Num({n \in N : OutDeg(g, n) = e.k}) /\ e.deg = Num({n \in N : Deg(g, n) = e.k})
     /\ e.nonz = Num({n \in N : Deg(g, n) > 0})
     /\ (N # {} => /\ \A n \in N : Deg(g, e.mxd) >= Deg(g, n)
                   /\ \A n \in N : InDeg(g, e.mxi) >= InDeg(g, n)
                   /\ \A n \in N : OutDeg(g, e.mxo) >= OutDeg(g, n))
     /\ H(e.hin) = Hist(InDeg) /\ H(e.hout) = Hist(OutDeg) /\ H(e.hdeg) = Hist(Deg)
     /\ \A L \in {e.hin, e.hout, e.hdeg} : \A i \in 1..(Len(L) - 1) : L[i][1] < L[i + 1][1]
     /\ Num({<<i>> : i \in 1..Len(e.nin)}) = Num(N) /\ \A i \in 1..Len(e.nin) : e.nin[i][2] = InDeg(g, e.nin[i][1]) /\ e.nout[i][2] = OutDeg(g, e.nout[i][1])
     /\ {e.nin[i][1] : i \in 1..Len(e.nin)} = N /\ {e.nout[i][1] : i \in 1..Len(e.nout)} = N
     /\ e.uu = Num(UP) /\ e.ud = (IF Und(g.k) THEN 2 * Num(UP) ELSE Num(DP))
     \* pairs joined both ways (in a multigraph every parallel edge is counted)
     /\ (~Multi(g.k) => e.ub = (IF Und(g.k) THEN Num(UP) ELSE Num({p \in DP : p[1] < p[2] /\ <<p[2], p[1]>> \in DP})))
     /\ e.self = Num(Loops(g))
     /\ (e.c # -1 => e.toset = Num(NbrN(g, e.c) \cap Rng(e.set)))
Sorted(ord, how) ==
  LET P(a, b) == IF how = "id" THEN a < b ELSE IF how = "idr" THEN a > b ELSE IF how = "dat" THEN g.nd[a] <= g.nd[b] ELSE g.nd[a] >= g.nd[b]
  IN /\ Rng(ord) = g.N /\ Len(ord) = Num(g.N) /\ \A i \in 1..(Len(ord) - 1) : P(ord[i], ord[i + 1])
AttrOf(e) == IF e.on = "n" THEN g.na ELSE g.ea
WithAttr(e, at) == IF e.on = "n" THEN [g EXCEPT !.na = at] ELSE [g EXCEPT !.ea = at]
IdsOf(e) == IF e.on = "n" THEN g.N ELSE Eids(g)

TraceNext ==
  \/ Is("new") /\ g' = Empty(Ev.k)
  \/ Is("addnode") /\ (IF Ev.id = -1 THEN Ev.ret \notin g.N /\ Ev.ret >= 0 ELSE Ev.ret = Ev.id)
       /\ g' = AddN(g, Ev.ret, Ev.dat, Ev.left)
  \/ Is("addnodeu") /\ (Ev.ret = Ev.id \/ (Ev.id \in g.N /\ Ev.ret = -1)) /\ g' = AddN(g, Ev.id, 0, FALSE)
  \/ Is("addnodev") /\ (IF Ev.id = -1 THEN Ev.ret \notin g.N /\ Ev.ret >= 0 ELSE Ev.ret = Ev.id)
       /\ g' = AddPairs(AddN(g, Ev.ret, 0, FALSE), [i \in 1..Len(Ev.out) |-> <<Ev.ret, Ev.out[i]>>] \o [i \in 1..Len(Ev.in) |-> <<Ev.in[i], Ev.ret>>])
  \/ Is("addedge")
       /\ (IF Multi(g.k) THEN Ev.ret \notin Eids(g) /\ Ev.ret >= 0 /\ (Ev.id # -1 => Ev.ret = Ev.id)
           ELSE Ev.ret = (IF Has(g, Ev.s, Ev.d) THEN -2 ELSE -1))
       /\ g' = AddE(g, Ev.s, Ev.d, Ev.ret, Ev.w)
  \/ Is("addedge2")
       /\ Ev.ret = (IF Ev.s \in g.N /\ Ev.d \in g.N /\ Has(g, Ev.s, Ev.d) THEN -2 ELSE -1)
       /\ g' = AddE(AddN(AddN(g, Ev.s, 0, FALSE), Ev.d, 0, FALSE), Ev.s, Ev.d, 0, 0)
  \/ Is("addedges") /\ g' = AddPairs(g, Ev.ps)
  \/ Is("deledge") /\ g' = DelE(g, Ev.s, Ev.d, Ev.dir)
  \* a multigraph with data removes one of the edges between the two nodes
  \/ Is("deledge1") /\ \E x \in At(g, Ev.s, Ev.d) \cup (IF Ev.dir THEN {} ELSE At(g, Ev.d, Ev.s)) : g' = Del(g, {x})
  \/ Is("deledgeid") /\ g' = Del(g, {x \in g.E : x.e = Ev.e})
  \/ Is("delnode") /\ g' = DelN(g, Ev.n)
  \/ Is("setnd") /\ g' = [g EXCEPT !.nd[Ev.n] = Ev.v]
  \/ Is("seted") /\ g' = [g EXCEPT !.E = {IF (IF Multi(g.k) THEN x.e = Ev.e ELSE x.s = Ev.s /\ x.d = Ev.d) THEN [x EXCEPT !.w = Ev.v] ELSE x : x \in @}]
  \/ Is("setalled") /\ g' = [g EXCEPT !.E = {[x EXCEPT !.w = Ev.v] : x \in @}]
  \/ Is("sort") /\ Sorted(Ev.ord, Ev.how) /\ UNCHANGED g
  \/ Is("same") /\ UNCHANGED g          \* copies, reload, defragmentation, reserving space
  \/ Is("clr") /\ g' = Empty(g.k)
  \/ Is("dump") /\ DumpOk(g, Ev.res) /\ UNCHANGED g
  \/ Is("pairs") /\ Len(Ev.ps) = Num(g.N) * Num(g.N) /\ (\A i \in 1..Len(Ev.ps) : PairOk(Ev.ps[i])) /\ UNCHANGED g
  \/ Is("derived") /\ DerivedOk(Ev) /\ UNCHANGED g
  \/ Is("cnts") /\ CntsOk(Ev) /\ UNCHANGED g
  \/ Is("makeundir") /\ g' = AddSet(g, {<<x.d, x.s>> : x \in {y \in g.E : ~Has(g, y.d, y.s)}})
  \/ Is("addself") /\ g' = AddSet(g, {<<n, n>> : n \in {m \in g.N : ~Has(g, m, m)}})
  \/ Is("delself") /\ g' = Del(g, Loops(g))
  \/ Is("delnodes") /\ g' = DelNs(g, Rng(Ev.ids))
  \/ Is("delzero") /\ g' = DelNs(g, {n \in g.N : Deg(g, n) = 0})
  \/ Is("deldegk") /\ g' = DelNs(g, {n \in g.N : OutDeg(g, n) = Ev.out \/ InDeg(g, n) = Ev.in})
  \/ Is("rnd") /\ (g.N # {} => Ev.n \in g.N) /\ (Multi(g.k) /\ g.E # {} => Ev.e \in Eids(g)) /\ UNCHANGED g
  \* attributes
  \/ Is("addattr") /\ g' = WithAttr(Ev, Ext(AttrOf(Ev), Ev.a, [def |-> Ev.def, v |-> [i \in IdsOf(Ev) |-> Ev.def]]))
  \/ Is("setattr") /\ g' = WithAttr(Ev, [AttrOf(Ev) EXCEPT ![Ev.a].v[Ev.i] = Ev.v])
  \/ Is("delattrdat") /\ g' = WithAttr(Ev, [AttrOf(Ev) EXCEPT ![Ev.a].v[Ev.i] = AttrOf(Ev)[Ev.a].def])
  \/ Is("delattr") /\ g' = WithAttr(Ev, Drop(AttrOf(Ev), {Ev.a}))
  \/ Is("end") /\ UNCHANGED g
=============================================================================
