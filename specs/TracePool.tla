------------------------------ MODULE TracePool ------------------------------
EXTENDS TraceBase, Integers, FiniteSets
VARIABLES k, live, n         \* the kind of pool; what is handed out; constructed and destroyed objects
TraceInit == TraceStart /\ k = "" /\ live = {} /\ n = <<0, 0>>
Rng(s) == {s[i] : i \in 1..Len(s)}
Cnt(c, d) == IF k = "P" THEN n' = <<n[1] + c, n[2] + d>> /\ Ev.ctors = n'[1] /\ Ev.dtors = n'[2] ELSE UNCHANGED n
Same(v) == UNCHANGED v
TraceNext ==
  \/ Is("pool") /\ k' = Ev.k /\ live' = {} /\ Same(n)
  \/ Is("alloc") /\ Ev.id \notin live /\ Ev.al /\ (k = "Z" => Ev.zero) /\ live' = live \cup {Ev.id} /\ Cnt(1, 0) /\ Same(k)
  \/ Is("boom") /\ k = "P" /\ Cnt(0, 0) /\ Same(<<k, live>>)
  \/ Is("free") /\ Ev.id \in live /\ live' = live \ {Ev.id} /\ Cnt(0, 1) /\ Same(k)
  \/ Is("null") /\ Cnt(0, 0) /\ Same(<<k, live>>)
  \/ Is("enum") /\ Rng(Ev.v) = live /\ Len(Ev.v) = Cardinality(live) /\ Same(<<k, live, n>>)
  \* objects are built once, and nobody else writes to them
  \/ Is("check") /\ {Ev.v[i][1] : i \in 1..Len(Ev.v)} = live /\ (\A i \in 1..Len(Ev.v) : Ev.v[i][2] = 0 /\ (k = "P" => Ev.v[i][3] = 1)) /\ Same(<<k, live, n>>)
  \/ (Is("freeall") \/ Is("del")) /\ Ev.left = 0 /\ Cnt(0, Cardinality(live)) /\ live' = {} /\ Same(k)
  \/ Is("sort") /\ Ev.r = [i \in 1..Len(Ev.a) |-> i - 1] /\ Same(<<k, live, n>>)
  \/ Is("end") /\ Same(<<k, live, n>>)
=============================================================================
