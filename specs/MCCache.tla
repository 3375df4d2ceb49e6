------------------------------- MODULE MCCache -------------------------------
(* One reader at a time over one key: the collecting algorithm, for every small store and every order of questions. *)
EXTENDS Cache, TLC, Json, Randomization
CONSTANTS N, Depth, Gen
VARIABLES db, bs, new, delta, last, asked, hist
vars == <<db, bs, new, delta, last, asked, hist>>
\* new: the sequence of ranges closed so far in this reading; delta: the open range <<s, e>> or << >>
Firsts == 0..N
Universe == Firsts \X {0, 1}
Init == /\ db \in (IF Gen THEN {RandomSubset(RandomElement(2..8), Universe) : i \in 1..30} ELSE SUBSET Universe)
        /\ bs = {} /\ new = << >> /\ delta = << >> /\ last = -2 /\ asked = {}
        /\ hist = <<[op |-> "db", t |-> SetToSortSeq(db, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))]>>
Rows(s, e) == {t \in db : t[1] >= s /\ t[1] <= e}
Goto(c) ==
  /\ hist' = Append(hist, [op |-> "goto", a |-> c])
  /\ UNCHANGED <<db, bs>>
  /\ IF Known(c, bs) THEN asked' = asked \cup {c} /\ UNCHANGED <<new, delta, last>>
     ELSE LET broken == c # last + 1 /\ delta # << >>
              nw == IF broken THEN Append(new, delta) ELSE new
              d0 == IF broken THEN << >> ELSE delta
          IN IF Of(c, db) = << >> THEN new' = nw /\ delta' = d0 /\ UNCHANGED <<last, asked>>
             ELSE /\ new' = nw /\ last' = c /\ asked' = asked \cup {c}
                  /\ delta' = (IF d0 = << >> THEN <<c, c>> ELSE <<d0[1], c>>)
All == {new[i] : i \in 1..Len(new)} \cup (IF delta = << >> THEN {} ELSE {delta})
Done == /\ hist' = Append(hist, [op |-> "done"])
        /\ bs' = bs \cup {Blk(r[1], r[2], Rows(r[1], r[2])) : r \in All}
        /\ new' = << >> /\ delta' = << >> /\ last' = -2 /\ UNCHANGED <<db, asked>>
Next == Len(hist) < Depth /\ (Done \/ \E c \in (IF Gen THEN {RandomElement(0..(N + 1)), RandomElement(0..(N + 1)), IF last >= 0 THEN last + 1 ELSE 0} ELSE Firsts \cup {N + 1}) : Goto(c))
Spec == Init /\ [][Next]_vars
InvTruthful == Truthful(bs, db)
InvKept == (new = << >> /\ delta = << >>) => \A c \in asked : Known(c, bs)       \* nothing collected is lost
View == <<db, bs, new, delta, last, asked, Len(hist)>>
Emit == Len(hist) < Depth \/ PrintT(<<"BHV", ToJson(hist)>>)
=============================================================================
