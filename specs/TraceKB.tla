------------------------------- MODULE TraceKB -------------------------------
EXTENDS TraceBase, KB
VARIABLES view, ign, pos, at, fresh, mk
C == INSTANCE Cursor
cv == <<view, ign, pos, at, fresh, mk>>
TSet(q) == {q[i] : i \in 1..Len(q)}
Fun(q) == [x \in {q[i][1] : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : q[i][1] = x][2]]
TraceInit == /\ TraceStart /\ KBInit /\ view = <<>> /\ ign = FALSE /\ pos = 0 /\ at = FALSE /\ fresh = TRUE /\ mk = [pos |-> -1, at |-> FALSE]
Same == UNCHANGED kbvars
Change ==
  \/ Is("load") /\ Load(TSet(Ev.triples), Ev.dict, 0..(Ev.nt - 1))
  \/ Is("upd") /\ IF Ev.type = "add" THEN Add(TSet(Ev.triples)) ELSE Remove(TSet(Ev.triples))
  \/ Is("merge") /\ Merge
  \/ Is("open") /\ Open
  \/ Is("close") /\ Close
  \/ Is("dict") /\ ReadDict(Fun(Ev.num)) /\ Len(Ev.num) = Cardinality(DOMAIN Fun(Ev.num))
                /\ Ev.ghost = 0
                /\ TSet(Ev.text) = {<<dict'[t], t>> : t \in DOMAIN dict'}
Read == open = "ready" /\
  ( \/ Is("size") /\ Ev.size = Cardinality(db)
    \/ Is("kbsize") /\ Ev.r = Cardinality(db)
    \/ Is("newq")
    \/ Is("scan") /\ ScanRows(Ev.idx, Ev.c, Ev.rows)
    \/ Is("perm") /\ ScanRows(Ev.idx, UnPerm(Ev.idx, Ev.c), Ev.rows)
    \/ Is("scanign") /\ GroupRows(Ev.idx, Ev.c, Ev.rows)
    \/ Is("terms") /\ TermRows(Ev.idx, Ev.rows)
    \/ Is("edge") /\ EdgeRows(Ev.w, Ev.c, Ev.rows)
    \/ Is("pos") /\ IF Ev.thr THEN Ev.n >= Cardinality(SelV(Ev.c)) ELSE NthEdge(Ev.w, Ev.c, Ev.n, Ev.row)
    \/ Is("grp") /\ GrpRows(Ev.w, Ev.c, Ev.rows)
    \/ Is("cntgrp") /\ Ev.r = CountGroups(Ev.w, Ev.c)
    \/ Is("count") /\ Ev.r = CountEdges(Ev.c)
    \/ Is("card") /\ Ev.r = CountSel(Ev.c)
    \/ Is("cardidx") /\ Ev.r = IF Ev.skip THEN Cardinality(Pairs12({Perm(Ev.idx, t) : t \in Sel(Ev.c)})) ELSE CountSel(Ev.c)
    \/ Is("estcard") /\ Ev.r >= 0 /\ (CountSel(Ev.c) > 0 => Ev.r > 0)
    \/ Is("exists") /\ Ev.r = (Sel(Ev.c) # {})
    \/ Is("empty") /\ Ev.r = (Sel(Ev.c) = {})
    \/ Is("existkey") /\ Ev.r = (\E t \in db : Perm(Ev.idx, t)[1] = Ev.k) )
Cur == open = "ready" /\ Same /\
  ( \/ Is("copen") /\ C!Open({<<x[2], x[3]>> : x \in {Perm(Ev.idx, t) : t \in Sel(UnPerm(Ev.idx, Ev.c))}}, -1, -1, Ev.ign)
    \/ Is("hasnext") /\ C!HasNext(Ev.r)
    \/ Is("next") /\ C!CanNext /\ C!Next([a |-> Ev.a, b |-> Ev.b, n |-> view[pos + 1].n])
    \/ Is("ccount") /\ ign /\ at /\ Ev.r = view[pos].n /\ UNCHANGED cv
    \/ Is("ccard") /\ Ev.r = Len(view) /\ UNCHANGED cv
    \/ Is("moveto") /\ C!MoveTo(Ev.a, Ev.b)
    \/ Is("mark") /\ C!Mark
    \/ Is("reset") /\ C!Reset )
TraceNext == \/ Change /\ UNCHANGED cv
             \/ Read /\ Same /\ UNCHANGED cv
             \/ Cur
             \/ Is("end") /\ Same /\ UNCHANGED cv
=============================================================================
