---------------------------------- MODULE KB ----------------------------------
(* The knowledge base as its clients see it: a set of triples over identifiers, a dictionary that names the identifiers,
   a history of updates, and the read primitives as functions of the contents.
   Contents are kept over terms; the dictionary (term -> id) is fixed by Load and extended by additions; without a
   dictionary terms and identifiers coincide.  Every storage option, permutation choice and update history must be
   invisible here. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES content,   \* set of <<s, p, o>> over terms
          named,     \* the set of terms the dictionary must know
          dict,      \* function term -> id, as last read back
          hasDict,   \* the store has a dictionary
          db,        \* the triples over identifiers that an open store shows (snapshot at Open)
          open,      \* "no"; "bare" (open, the dictionary has not been read back yet); "ready"
          life       \* "new", "loaded"
kbvars == <<content, named, dict, hasDict, db, open, life>>

TermsOf(T) == UNION {{t[1], t[2], t[3]} : t \in T}
Image(T, d) == {<<d[t[1]], d[t[2]], d[t[3]]>> : t \in T}
Ident(S) == [x \in S |-> x]

KBInit == content = {} /\ named = {} /\ dict = <<>> /\ hasDict = FALSE /\ db = {} /\ open = "no" /\ life = "new"

\* ------------------------------------------------------------------ changes of the store
Load(T, withDict, terms) ==
  /\ life = "new" /\ life' = "loaded" /\ content' = T /\ hasDict' = withDict
  /\ named' = (IF withDict THEN terms ELSE {}) /\ dict' = Ident(IF withDict THEN terms ELSE TermsOf(T))
  /\ open' = "no" /\ db' = {}
Add(T) == /\ life = "loaded" /\ open = "no" /\ content' = content \cup T /\ named' = named \cup TermsOf(T)
          /\ UNCHANGED <<dict, hasDict, db, open, life>>
Remove(T) == /\ life = "loaded" /\ open = "no" /\ content' = content \ T
             /\ UNCHANGED <<named, dict, hasDict, db, open, life>>
\* folding the updates together changes nothing a client can see
Merge == /\ life = "loaded" /\ open = "no" /\ UNCHANGED kbvars
Open == /\ life = "loaded" /\ open = "no" /\ open' = (IF hasDict THEN "bare" ELSE "ready")
        /\ db' = (IF hasDict THEN {} ELSE Image(content, Ident(TermsOf(content))))
        /\ UNCHANGED <<content, named, dict, hasDict, life>>
Close == open # "no" /\ open' = "no" /\ UNCHANGED <<content, named, dict, hasDict, db, life>>
\* reading the dictionary back: d is a function term -> id
Injective(d) == Cardinality({d[x] : x \in DOMAIN d}) = Cardinality(DOMAIN d)
ReadDict(d) == /\ open # "no" /\ hasDict /\ DOMAIN d = named /\ Injective(d)
               /\ \A t \in DOMAIN dict : t \in DOMAIN d /\ d[t] = dict[t]      \* identifiers are never reassigned
               /\ dict' = d /\ db' = Image(content, d) /\ open' = "ready"
               /\ UNCHANGED <<content, named, hasDict, life>>

\* ------------------------------------------------------------------ read primitives
IDX_SPO == 0  IDX_OPS == 1  IDX_POS == 2  IDX_SOP == 3  IDX_OSP == 4  IDX_PSO == 5
Perm(i, t) == CASE i = 0 -> t [] i = 1 -> <<t[3], t[2], t[1]>> [] i = 2 -> <<t[2], t[3], t[1]>>
                [] i = 3 -> <<t[1], t[3], t[2]>> [] i = 4 -> <<t[3], t[1], t[2]>> [] i = 5 -> <<t[2], t[1], t[3]>>
UnPerm(i, t) == CASE i = 0 -> t [] i = 1 -> <<t[3], t[2], t[1]>> [] i = 2 -> <<t[3], t[1], t[2]>>
                [] i = 3 -> <<t[1], t[3], t[2]>> [] i = 4 -> <<t[2], t[3], t[1]>> [] i = 5 -> <<t[2], t[1], t[3]>>
\* c[k] >= 0 is a constant; negative is a variable; equal variables other than -1 must be bound alike
SameVar(c, t) == \A j, k \in 1..3 : (c[j] < -1 /\ c[j] = c[k]) => t[j] = t[k]
Matches(c, t) == (c[1] < 0 \/ t[1] = c[1]) /\ (c[2] < 0 \/ t[2] = c[2]) /\ (c[3] < 0 \/ t[3] = c[3]) /\ SameVar(c, t)
Sel(c) == {t \in db : Matches(c, t)}
Lt3(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3])))
Lt2(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Rng(q) == {q[i] : i \in 1..Len(q)}
Ascending3(q) == \A i \in 1..(Len(q) - 1) : Lt3(q[i], q[i + 1])
Ascending2(q) == \A i \in 1..(Len(q) - 1) : Lt2(q[i], q[i + 1])
Ascending1(q) == \A i \in 1..(Len(q) - 1) : q[i][1] < q[i + 1][1]
\* the rows a scan of permutation i delivers: exactly the matching triples, each once, in the order of the permutation
ScanRows(i, c, q) == Ascending3(q) /\ Rng(q) = {Perm(i, t) : t \in Sel(c)}
Pairs12(S) == {<<x[1], x[2]>> : x \in S}
\* with the last column ignored: the distinct pairs with how many triples each has
GroupRows(i, c, q) == LET P == {Perm(i, t) : t \in Sel(c)} IN
   Ascending2(q) /\ Rng(q) = {<<g[1], g[2], Cardinality({x \in P : x[1] = g[1] /\ x[2] = g[2]})>> : g \in Pairs12(P)}
\* the distinct first components with how many triples each has
TermRows(i, q) == LET P == {Perm(i, t) : t \in db} IN
   Ascending1(q) /\ Rng(q) = {<<k, Cardinality({x \in P : x[1] = k})>> : k \in {x[1] : x \in P}}
\* edges: positions by letter
Pos(w) == CASE w = "s" -> 1 [] w = "r" -> 2 [] w = "d" -> 3
Order(w) == CASE w = "srd" -> <<1, 2, 3>> [] w = "sdr" -> <<1, 3, 2>> [] w = "drs" -> <<3, 2, 1>>
              [] w = "dsr" -> <<3, 1, 2>> [] w = "rsd" -> <<2, 1, 3>> [] w = "rds" -> <<2, 3, 1>>
By(o, t) == <<t[o[1]], t[o[2]], t[o[3]]>>
\* in these primitives every negative number names a variable, -1 too: equal ones must be bound alike
SelV(c) == {t \in Sel(c) : \A j, k \in 1..3 : (c[j] < 0 /\ c[j] = c[k]) => t[j] = t[k]}
EdgeRows(w, c, q) == /\ Rng(q) = SelV(c) /\ LET o == Order(w) IN \A i \in 1..(Len(q) - 1) : Lt3(By(o, q[i]), By(o, q[i + 1]))
NthEdge(w, c, n, row) == LET o == Order(w) IN row \in SelV(c) /\ Cardinality({t \in SelV(c) : Lt3(By(o, t), By(o, row))}) = n
G1(w) == CASE w \in {"s", "r", "d"} -> <<Pos(w)>> [] w = "sr" -> <<1, 2>> [] w = "sd" -> <<1, 3>> [] w = "rs" -> <<2, 1>>
           [] w = "rd" -> <<2, 3>> [] w = "ds" -> <<3, 1>> [] w = "dr" -> <<3, 2>>
Proj(g, t) == [k \in 1..Len(g) |-> t[g[k]]]
Groups(g, S) == {Proj(g, t) : t \in S}
GroupCards(w, c) == LET g == G1(w) S == SelV(c) IN {Append(x, Cardinality({t \in S : Proj(g, t) = x})) : x \in Groups(g, S)}
GrpRows(w, c, q) == Rng(q) = GroupCards(w, c) /\ Len(q) = Cardinality(Rng(q)) /\ \A i \in 1..(Len(q) - 1) : IF Len(w) = 1 THEN q[i][1] < q[i + 1][1] ELSE Lt2(q[i], q[i + 1])
CountEdges(c) == Cardinality(SelV(c))
CountSel(c) == Cardinality(Sel(c))
CountGroups(w, c) == Cardinality(Groups(G1(w), SelV(c)))
=============================================================================
