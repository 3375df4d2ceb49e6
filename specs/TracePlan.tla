------------------------------ MODULE TracePlan ------------------------------
EXTENDS TraceBase, Planner
TraceInit == TraceStart
RECURSIVE EdgesOK(_, _), Lits(_)
EdgesOK(b, e) ==
  /\ {[a |-> IF e.edges[i].a < e.edges[i].b THEN e.edges[i].a ELSE e.edges[i].b, b |-> IF e.edges[i].a < e.edges[i].b THEN e.edges[i].b ELSE e.edges[i].a, c |-> Rng(e.edges[i].c)] : i \in 1..Len(e.edges)} = EdgeSet(b)
  /\ Len(e.edges) = Cardinality(EdgeSet(b)) /\ \A i \in 1..Len(e.edges) : Len(e.edges[i].c) = Cardinality(Rng(e.edges[i].c))
  /\ Len(e.opts) = Len(b.opts) /\ \A i \in 1..Len(b.opts) : EdgesOK(b.opts[i], e.opts[i])
  /\ Len(e.unis) = Len(b.unis) /\ \A i \in 1..Len(b.unis) : Len(e.unis[i]) = Len(b.unis[i]) /\ \A j \in 1..Len(b.unis[i]) : EdgesOK(b.unis[i][j], e.unis[i][j])
  /\ Len(e.minus) = Len(b.minus) /\ \A i \in 1..Len(b.minus) : EdgesOK(b.minus[i].body, e.minus[i])
Lits(e) == IF e.t = "var" THEN {<<e.id, 1>>} ELSE IF e.t = "lit" THEN {<<e.id, 0>>} ELSE UNION {Lits(e.kids[i]) : i \in 1..Len(e.kids)}
Event ==
  \/ Is("edges") /\ EdgesOK(Ev.g.body, Ev.e)
  \/ Is("plan") /\ GraphOK(Ev.pl, Ev.g)
  \/ Is("filter") /\ Ev.got = Ev.e /\ Rng(Ev.lits) = Lits(Ev.e) /\ \A i \in 1..Len(Ev.ask) : Ev.ask[i].r = (FV(Ev.e) \subseteq Rng(Ev.ask[i].vs))
  \/ Is("canjoin") /\ Ev.r = (NodeVars([t |-> Ev.x]) \cap NodeVars([t |-> Ev.y]) # {})
  \/ Is("end")
TraceNext == Event
=============================================================================
