----------------------------- MODULE TraceQuery -----------------------------
EXTENDS TraceBase, Sparql
VARIABLES st
TraceInit == /\ TraceStart /\ st = [db |-> {}, text |-> <<>>, lit |-> <<>>]
Event ==
  \/ Is("store") /\ st' = [db |-> {Ev.triples[i] : i \in 1..Len(Ev.triples)}, text |-> Ev.text, lit |-> Ev.lit]
  \/ Is("query") /\ UNCHANGED st /\ Allowed(st, Ev.q, Ev.rows)
  \/ Is("end") /\ UNCHANGED st
TraceNext == Event
=============================================================================
