------------------------------ MODULE MCBatch ------------------------------
(* The source as it works - an array of positions, shuffled, read in windows - against the order that is only revealed. *)
EXTENDS Batch
CONSTANTS M, MaxLen
VARIABLES arr, h
vars == <<bvars, arr, h>>
Trip == {<<i, i % 2, 0>> : i \in 1..M}
Orders(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : q[i] = q[j] => i = j}
Window(from) == [i \in 1..BatchLen(from) |-> arr[from + i]]
Init == BInit /\ arr = << >> /\ h = 0
Load == T = {} /\ T' = Trip /\ UNCHANGED <<held, tr, bs, perm, cur, emb, conf, upd, saved, subs, arr>>
NewSource == T # {} /\ (\E b \in 1..M : Source(b)) /\ arr' = << >>
\* the file of training triples is written once; what it leaves out stays out
Begin == /\ T # {} /\ perm = << >>
         /\ \E c \in {<<-1, -1, -1>>, <<-1, 1, -1>>, <<1, -1, -1>>}, V \in SUBSET T, S \in SUBSET T :
              Start(c, V, S, TRUE, TRUE) /\ (V # {} => c = <<-1, -1, -1>>) /\ (\E q \in Orders(tr') : arr' = q)
Deal == \/ NextBatch(Window(cur), Window(cur) # << >>) /\ arr' = arr
        \/ \E n \in 0..M : NumberedBatch(n, Window(n * bs), Window(n * bs) # << >>) /\ arr' = arr
        \/ Shuffle /\ \E q \in Orders(tr) : arr' = q
Next == h < MaxLen /\ h' = h + 1 /\ (Load \/ NewSource \/ Begin \/ (Len(arr) = N /\ Deal))
Spec == Init /\ [][Next]_vars
\* every read that the source can make is allowed, and a finished epoch has dealt every triple exactly once
Possible == Len(arr) = N => /\ BSet(Window(cur)) \subseteq tr
                            /\ \A i \in DOMAIN perm : perm[i] = arr[i + 1]
Complete == (Len(arr) = N /\ cur = N) => {perm[i] : i \in DOMAIN perm} = tr /\ Cardinality(DOMAIN perm) = N
Apart == held # << >> => held[1] \cap held[2] = {} /\ tr \cap (held[1] \cup held[2]) = {}
Pages == Batches * bs >= N /\ (N > 0 => (Batches - 1) * bs < N)
=============================================================================
