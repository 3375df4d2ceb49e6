------------------------------ MODULE TraceCursor ------------------------------
EXTENDS TraceBase, Cursor
RowSet(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
TraceInit == /\ TraceStart /\ view = <<>> /\ ign = FALSE /\ pos = 0 /\ at = FALSE /\ fresh = TRUE /\ mk = [pos |-> -1, at |-> FALSE]
TraceNext ==
  \/ Is("open") /\ Open(RowSet(Ev.rows) \ RowSet(Ev.rm), Ev.c1, Ev.c2, Ev.ign)
  \/ Is("hasnext") /\ HasNext(Ev.r)
  \/ Is("next") /\ CanNext /\ Next([a |-> Ev.a, b |-> Ev.b, n |-> view[pos + 1].n])
  \/ Is("count") /\ ign /\ at /\ Ev.r = view[pos].n /\ UNCHANGED cvars
  \/ Is("card") /\ Ev.r = Len(view) /\ UNCHANGED cvars
  \/ Is("moveto") /\ MoveTo(Ev.a, Ev.b)
  \/ Is("mark") /\ Mark
  \/ Is("reset") /\ Reset
  \/ Is("key") /\ Ev.r = Ev.want /\ UNCHANGED cvars
  \/ Is("end") /\ UNCHANGED cvars
=============================================================================
