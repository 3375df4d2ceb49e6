----------------------------- MODULE TraceSparql -----------------------------
EXTENDS TraceBase, SparqlParse
VARIABLES txt, cur, back, dead      \* the text; the current token; whether it was put back; past an error
TraceInit == TraceStart /\ txt = << >> /\ cur = T0("None", 1, 1, 1, 1) /\ back = FALSE /\ dead = FALSE
Nxt == IF back THEN cur ELSE Tok(txt, cur.n)
\* the tokens whose text matters
Texts == {"IRI", "String", "Variable", "Identifier", "Integer", "Decimal"}
Same(x) == UNCHANGED x
TraceNext ==
  \/ Is("text") /\ txt' = Ev.v /\ cur' = T0("None", 1, 1, 1, 1) /\ back' = FALSE /\ dead' = FALSE
  \/ Is("next") /\ ~dead /\ \E t \in {Nxt} : (Ev.k = t.k /\ cur' = t /\ back' = FALSE /\ dead' = (t.k = "Error") /\ Same(txt))
  \/ Is("has") /\ ~dead /\ \E t \in {Nxt} : (Ev.r = (t.k = Ev.k) /\ cur' = t /\ back' = TRUE /\ dead' = (t.k = "Error") /\ Same(txt))
  \/ Is("unget") /\ back' = TRUE /\ Same(<<txt, cur, dead>>)
  \/ Is("value") /\ (cur.k \notin Texts \/ Ev.v = Value(txt, cur)) /\ Same(<<txt, cur, back, dead>>)
  \/ Is("iri") /\ (cur.k \notin Texts \ {"String"} \/ Ev.v = Unescape(Value(txt, cur), FALSE, << >>)) /\ Same(<<txt, cur, back, dead>>)
  \/ Is("lit") /\ (cur.k \notin Texts \ {"IRI"} \/ Ev.v = Unescape(Value(txt, cur), TRUE, << >>)) /\ Same(<<txt, cur, back, dead>>)
  \/ Is("kw") /\ (cur.k = "Error" \/ Ev.r = Keyword(txt, cur, Ev.w)) /\ Same(<<txt, cur, back, dead>>)
  \/ Is("parse") /\ \E m \in {Meaning(txt)} : ((IF m.ok THEN Ev.ok /\ Ev.q = <<m.v>> ELSE m.free \/ ~Ev.ok) /\ Same(<<txt, cur, back, dead>>))
  \/ Is("end") /\ Same(<<txt, cur, back, dead>>)
  \* an error is final, and what follows it is not said
  \/ dead /\ (Is("next") \/ Is("has")) /\ Same(<<txt, cur, back, dead>>)
=============================================================================
