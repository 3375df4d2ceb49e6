----------------------------- MODULE TraceTurtle -----------------------------
(* What the parser delivered for a text.  Triples may come in any order, blank nodes may have any labels. *)
EXTENDS TraceBase, Turtle
VARIABLES left,   \* the triples that are still to come, a sequence
          ok,     \* is the text well-formed?
          map     \* blank node of the text -> label in use, one to one
vars == <<left, ok, map>>
TraceInit == TraceStart /\ left = << >> /\ ok = FALSE /\ map = << >>
IsBlank(v) == Len(v) >= 2 /\ v[1] = 95 /\ v[2] = 58
\* the maps after the term x of the text was seen as y
Fits(x, y, m) ==
  IF x.b = << >> THEN (IF x.ty = y.ty /\ x.v = y.v /\ x.sub = y.sub /\ ~(x.ty = "URI" /\ IsBlank(y.v)) THEN {m} ELSE {})
  ELSE IF y.ty # "URI" \/ ~IsBlank(y.v) \/ y.sub # << >> THEN {}
  ELSE IF x.b \in DOMAIN m THEN (IF m[x.b] = y.v THEN {m} ELSE {})
  ELSE IF \E k \in DOMAIN m : m[k] = y.v THEN {} ELSE {(x.b :> y.v) @@ m}
U(v) == [ty |-> "URI", v |-> v, sub |-> << >>]
TraceNext ==
  \/ Is("doc") /\ LET m == Meaning(Ev.text) IN left' = m.out /\ ok' = m.ok /\ UNCHANGED map
  \/ Is("t") /\ \E i \in 1..Len(left) :
       /\ \A j \in 1..(i - 1) : left[j] # left[i]
       /\ \E m1 \in Fits(left[i].s, U(Ev.s), map) : \E m2 \in Fits(left[i].p, U(Ev.p), m1) : \E m3 \in Fits(left[i].o, [ty |-> Ev.ty, v |-> Ev.o, sub |-> Ev.sub], m2) :
            map' = m3
       /\ left' = RemoveAt(left, i) /\ UNCHANGED ok
  \/ Is("eof") /\ ok /\ left = << >> /\ UNCHANGED vars
  \/ Is("err") /\ ~ok /\ left = << >> /\ UNCHANGED vars
  \/ Is("end") /\ UNCHANGED vars
=============================================================================
