-------------------------------- MODULE MCKB --------------------------------
(* Exhaustive exploration of KB over a small universe: every history of load, update, merge, open and close, with every
   dictionary a store may choose, and the laws that tie the read primitives together in every open state. *)
EXTENDS KB
CONSTANTS Univ, Ids, Updates
UnivDef == {<<0, 1, 0>>, <<1, 1, 0>>, <<0, 1, 1>>}
UpdDef == {{<<0, 1, 0>>}, {<<0, 1, 2>>, <<1, 1, 1>>}}
U == Univ
Next ==
  \/ \E T \in SUBSET U, wd \in BOOLEAN : T # {} /\ Load(T, wd, TermsOf(T))
  \/ \E T \in Updates : hasDict /\ (Add(T) \/ Remove(T))
  \/ Merge
  \/ Open
  \/ Close
  \/ named # {} /\ \E d \in [named -> Ids] : ReadDict(d)
Spec == KBInit /\ [][Next]_kbvars
------------------------------------------------------------------------------
DictOK == hasDict => Injective(dict)
\* nothing a client can read depends on the permutation it reads through
Vals == {-2, -1} \cup Ids
Pats == Vals \X Vals \X Vals
Laws == open = "ready" =>
  /\ \A c \in Pats : \A w \in {"s", "r", "d"} : CountGroups(w, c) <= CountEdges(c)
  /\ \A c \in Pats : CountGroups("sr", c) = CountGroups("rs", c) /\ CountGroups("sd", c) = CountGroups("ds", c) /\ CountGroups("rd", c) = CountGroups("dr", c)
  /\ \A i \in 0..5 : \A t \in db : UnPerm(i, Perm(i, t)) = t
  /\ \A c \in Pats : CountEdges(c) <= CountSel(c) /\ CountSel(c) <= CountEdges(<<-1, -2, -3>>)
\* removing and adding are the set operations whatever the identifiers are
Faithful == (open = "ready" /\ hasDict) => (Cardinality(db) = Cardinality(content))
FaithfulPlain == (open = "ready" /\ ~hasDict) => Cardinality(db) = Cardinality(content)
\* a client that reopens sees the same store unless an update happened in between
TypeOK == content \in SUBSET (U \cup UNION Updates)
=============================================================================
