--------------------------------- MODULE MCLex ---------------------------------
EXTENDS SparqlLex
CONSTANTS Alphabet, MaxLen
VARIABLE T
Init == T = << >>
Next == Len(T) < MaxLen /\ \E c \in Alphabet : T' = Append(T, c)
Spec == Init /\ [][Next]_T
Show(s) == [i \in 1..Len(s) |-> <<s[i].k, s[i].e - s[i].s>>]
Text(t) == SubSeq(T, t.b, t.n - 1)
RECURSIVE Spaced(_, _)
Spaced(s, i) == IF i > Len(s) THEN << >> ELSE Text(s[i]) \o (IF i % 2 = 1 THEN <<32>> ELSE <<35, 97, 60, 10>>) \o Spaced(s, i + 1)
Values(U, s) == [i \in 1..Len(s) |-> <<s[i].k, Value(U, s[i])>>]
Laws == LET s == Tokens(T) IN
  \* the tokens lie in the text one after the other, and there is only white space and comment between them
  /\ \A i \in 1..Len(s) : LET from == IF i = 1 THEN 1 ELSE s[i - 1].n IN s[i].b = Skip(T, from) /\ s[i].b <= s[i].s /\ s[i].s <= s[i].e /\ s[i].e <= s[i].n
  /\ \A i \in 1..(Len(s) - 1) : s[i].b < s[i].n
  \* a token on its own is read as that token
  /\ \A i \in 1..(Len(s) - 1) : LET u == Tokens(Text(s[i])) IN Len(u) = 2 /\ u[1].k = s[i].k /\ Value(Text(s[i]), u[1]) = Value(T, s[i])
  \* layout does not matter
  /\ s[Len(s)].k = "Eof" => LET v == Spaced(SubSeq(s, 1, Len(s) - 1), 1) IN Values(v, Tokens(v)) = [Values(T, s) EXCEPT ![Len(s)] = <<"Eof", << >> >>]
=================================================================================
