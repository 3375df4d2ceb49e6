------------------------------ MODULE TraceBase ------------------------------
(* Reading recorded executions.  A trace file holds many scenarios; each starts with an "scn" event and ends with "end".
   Every scenario is an initial state of its own, so the scenarios are validated independently and a rejection in one
   does not hide the others.  TLC register s holds the highest event number that scenario s reached; scenario s is accepted
   iff its behaviour consumed its last event.  (Needs -workers 1.)
   A driver writes an "abort" event when the code under test crashed, hung, or threw out of its API: no module has an
   action for it, so such a scenario is never accepted. *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
VARIABLE l          \* number of the next event
VARIABLE sc         \* which scenario
Trace == ndJsonDeserialize(IOEnv.TRACE)
NTrace == Len(Trace)
IsScn(i) == Trace[i].op = "scn"
Starts == SelectSeq([i \in 1..NTrace |-> i], IsScn)
NScn == Len(Starts)
LastOf(s) == IF s = NScn THEN NTrace ELSE Starts[s + 1] - 1
Lasts == [s \in 1..NScn |-> LastOf(s)]

TraceStart == /\ sc \in 1..NScn /\ l = Starts[sc] + 1
More == l <= Lasts[sc]
Ev == Trace[l]
Is(o) == More /\ Ev.op = o /\ l' = l + 1 /\ sc' = sc
Stay == l' = l /\ sc' = sc        \* for steps that no event records

Regs == \A s \in 1..NScn : TLCSet(s, Starts[s] + 1)
ASSUME Regs
Reach == IF TLCGet(sc) < l THEN TLCSet(sc, l) ELSE TRUE       \* a CONSTRAINT, always TRUE
Report == PrintT(<<"RESULT", ToJson([s \in 1..NScn |-> [first |-> Starts[s], last |-> Lasts[s], top |-> TLCGet(s)]])>>)
=============================================================================
