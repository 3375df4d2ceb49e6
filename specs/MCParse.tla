-------------------------------- MODULE MCParse --------------------------------
(* Laws of the language of groups: the spelling of keywords and the braces around a group do not matter, unions keep their
   parts, a star projects what the group binds. *)
EXTENDS SparqlParse
CONSTANTS N
Pieces == <<<<63,120,32,63,121,32,63,122>>,
  <<46>>,
  <<102,105,108,116,101,114,40,63,120,41>>,
  <<123>>,
  <<125>>,
  <<111,112,116,105,111,110,97,108>>,
  <<117,110,105,111,110>>,
  <<109,105,110,117,115>>,
  <<98,105,110,100,40,63,120,32,97,115,32,63,119,41>>,
  <<118,97,108,117,101,115,32,63,118,123,34,115,34,125>>,
  <<63,120,32,97,32,95,58,98>>,
  <<115,101,108,101,99,116,32,63,122,123,63,122,32,63,113,32,63,122,125>>>>
Others == <<<<63,120,32,63,121,32,63,122>>,
  <<46>>,
  <<70,73,76,84,69,82,40,63,120,41>>,
  <<123>>,
  <<125>>,
  <<79,112,116,105,111,110,97,108>>,
  <<85,78,73,79,78>>,
  <<77,105,78,85,83>>,
  <<66,73,78,68,40,63,120,32,65,83,32,63,119,41>>,
  <<86,97,108,117,101,115,32,63,118,123,34,115,34,125>>,
  <<63,120,32,97,32,95,58,98>>,
  <<83,101,108,101,99,116,32,63,122,123,63,122,32,63,113,32,63,122,125>>>>
VARIABLES s
Init == s = << >>
Next == Len(s) < N /\ \E i \in 1..Len(Pieces) : s' = Append(s, i)
Spec == Init /\ [][Next]_s
Sp == <<32>>
Text(q, from) == IF q = << >> THEN << >> ELSE FlattenSeq([j \in 1..Len(q) |-> Sp \o from[q[j]]])
Sel == <<115,101,108,101,99,116,32,42,32>>
Uni == <<32,117,110,105,111,110,32>>
In(b) == Sel \o <<123>> \o b \o <<32, 125>>
Group_(b) == <<123>> \o b \o <<32, 125>>
Count(q, i) == Cardinality({j \in 1..Len(q) : q[j] = i})
Pat_(m) == m.v.pat
Laws ==
  LET b == Text(s, Pieces)
      m == TLCEval(Meaning(In(b)))
      u == TLCEval(Meaning(In(Text(s, Others))))
      g == TLCEval(Meaning(In(Group_(b))))
      n == TLCEval(Meaning(In(Group_(b) \o Uni \o Group_(b))))
  IN /\ u = m
     /\ (m.ok => Count(s, 4) = Count(s, 5))
     /\ ((m.ok /\ g.ok) => (Pat_(g) = Pat_(m) /\ g.v.proj = m.v.proj))
     /\ ((m.ok /\ ~g.ok) => g.free)
     \* (labels are the group's own, so that the anonymous variables differ)
     /\ ((m.ok /\ n.ok /\ Count(s, 11) = 0) => (Pat_(n) = [NoGroup EXCEPT !.un = << <<Pat_(m), Pat_(m)>> >>] /\ n.v.proj = m.v.proj))
     /\ (m.ok => n.ok)
     /\ (m.ok => (m.v.proj = Star(Pat_(m)) /\ \A j \in 1..Len(m.v.proj) : m.v.proj[j].t = "var"))
================================================================================
