------------------------------- MODULE MCTree -------------------------------
(* Every history of a few keys, and the node that holds them: keys as differences to the first one, a run of equal steps kept
   as first key and step only.  The node must stand for the same keys whatever is inserted, split or written and read. *)
EXTENDS Tree, FiniteSetsExt
CONSTANTS N, Cap, MaxLen
VARIABLES node, right, h
vars == <<m, w2n, n2w, seq, mode, node, right, h>>
Sorted(S) == SetToSortSeq(S, <)
\* a node: first key, number of keys, and either a step or the list of differences
Enc(S) == LET q == Sorted(S) n == Len(q)
              st == IF n >= 2 THEN q[2] - q[1] ELSE 0
          IN IF n = 0 THEN [first |-> 0, n |-> 0, step |-> 0, d |-> << >>]
             ELSE IF n >= 2 /\ \A i \in 2..n : q[i] - q[i - 1] = st THEN [first |-> q[1], n |-> n, step |-> st, d |-> << >>]
             ELSE [first |-> q[1], n |-> n, step |-> 0, d |-> [i \in 1..(n - 1) |-> q[i + 1] - q[1]]]
Key(x, i) == IF i = 1 THEN x.first ELSE IF x.step > 0 THEN x.first + (i - 1) * x.step ELSE x.first + x.d[i - 1]
Dec(x) == {Key(x, i) : i \in 1..x.n}
Ins(x, k) == IF k \in Dec(x) THEN x ELSE Enc(Dec(x) \cup {k})
Low(x) == Enc({Key(x, i) : i \in 1..(x.n \div 2)})
High(x) == Enc({Key(x, i) : i \in (x.n \div 2 + 1)..x.n})
E == Enc({})
Init == TreeInit /\ node = E /\ right = E /\ h = 0
Step ==
  \/ h' = h + 1 /\ mode = "closed" /\ (Open(FALSE) \/ Open(TRUE)) /\ UNCHANGED <<node, right>>
  \/ h' = h + 1 /\ Close /\ UNCHANGED <<node, right>>
  \/ h' = h + 1 /\ \E k \in 0..N, v \in 0..1 : /\ Put(k, v)
       /\ IF right.n > 0 THEN IF k >= right.first THEN right' = Ins(right, k) /\ UNCHANGED node ELSE node' = Ins(node, k) /\ UNCHANGED right
          ELSE IF node.n = Cap /\ k \notin Dec(node)
               THEN LET lo == Low(node) hi == High(node) IN
                    IF k >= hi.first THEN node' = lo /\ right' = Ins(hi, k) ELSE node' = Ins(lo, k) /\ right' = hi
               ELSE node' = Ins(node, k) /\ UNCHANGED right
  \/ h' = h + 1 /\ \E w \in 0..2, i \in 0..2 : i \notin DOMAIN n2w /\ (Insert(w, i, TRUE, i) \/ \E v \in 0..2 : Insert(w, i, FALSE, v)) /\ UNCHANGED <<node, right>>
Next == h < MaxLen /\ Step
Spec == Init /\ [][Next]_vars
NodeHolds == Dec(node) \cup Dec(right) = DOMAIN m
Apart == right.n > 0 => (\A a \in Dec(node), b \in Dec(right) : a < b)
BothWays == TwoWays
=============================================================================
