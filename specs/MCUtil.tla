-------------------------------- MODULE MCUtil --------------------------------
(* Laws of the data types, over all small values. *)
EXTENDS Util
CONSTANT N
VARIABLES s
Alphabet == {37, 43, 50, 65, 102, 47, 200}
Texts(A, n) == UNION {[1..k -> A] : k \in 0..n}
Init == s = << >>
Next == Len(s) < N /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
RoundTrip == Unescape(Escape(s)) = s
Clean == \A i \in 1..Len(Escape(s)) : Plain(Escape(s)[i]) \/ Escape(s)[i] = 37
\* numbers: the plain form of a plain form is itself, and is what the text says
NumText == [i \in 1..Len(s) |-> CASE s[i] = 37 -> 45 [] s[i] = 43 -> 43 [] s[i] = 50 -> 48 [] s[i] = 65 -> 49 [] s[i] = 102 -> 57 [] s[i] = 47 -> 32 [] OTHER -> 120]
Num == LET n == Number(NumText, MAXINT) IN n = None \/ (Number(n, MAXINT) = n /\ (Len(n) > 1 => n[1] # 48))
\* JSON: what is written is read back
Leaf == {[k |-> "s", v |-> s], [k |-> "s", v |-> <<34, 92, 10>>], [k |-> "n", v |-> <<45, 49>>]}
Lev1 == Leaf \cup {[k |-> "a", e |-> q] : q \in Texts(Leaf, 2)} \cup {[k |-> "o", f |-> << <<s, x>> >>] : x \in Leaf} \cup {[k |-> "o", f |-> << >>]}
Lev2 == {[k |-> "o", f |-> << <<s, x>>, <<(<<1>>), y>> >>] : x \in Lev1, y \in Lev1} \cup {[k |-> "a", e |-> <<x, y>>] : x \in Lev1, y \in Leaf}
Json == Len(s) > 2 \/ \A v \in (IF Len(s) = 1 THEN Lev2 ELSE Lev1) : LET p == JParse(JWrite(v)) IN p.ok /\ p.v = v
JCut == Len(s) > 1 \/ \A v \in Lev1 : v.k \in {"a", "o"} => LET t == JWrite(v) IN \A n \in 0..(Len(t) - 1) : ~JParse(SubSeq(t, 1, n)).ok
\* HTTP: two messages one after the other are two messages
Msg(b) == <<71, 13, 10>> \o CLEN \o <<32, 48 + Len(b), 13, 10, 13, 10>> \o b
Http == Len(s) > 3 \/ (Messages(Msg(s) \o Msg(<<1>>)).msgs = <<Msg(s), Msg(<<1>>)>> /\ Messages(SubSeq(Msg(s), 1, Len(Msg(s)) - 1)).msgs = << >>)
=============================================================================
