-------------------------------- MODULE Cursor --------------------------------
(* The cursor contract of the pair iterators: a cursor walks a lexicographically sorted sequence of pairs.
   What it walks over is fixed when it is opened: the pairs of a base set, without the removed ones, that satisfy the two
   constraints; or, once the second column is ignored, the distinct first components with the number of pairs of each.
   A cursor has consumed the first pos elements of its view and stands "at" element pos after Next; MoveTo(a, b) goes to
   the first element >= <<a, b>> that is not before the current one (which is delivered again if it qualifies).
   Mark remembers the place, Reset goes back to it. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES view,      \* sequence of [a, b, n]: what the cursor delivers, in order
          ign,       \* the second column is ignored
          pos,       \* how many elements were consumed
          at,        \* the cursor stands at an element (MoveTo is allowed)
          fresh,     \* no HasNext since the current element was reached
          mk         \* marked place: -1 or [pos, at]
cvars == <<view, ign, pos, at, fresh, mk>>

LexLt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Sel(S, c1, c2) == {x \in S : (c1 = -1 \/ x[1] = c1) /\ (c2 = -1 \/ x[2] = c2)}
Pairs(S) == LET q == SetToSortSeq(S, LexLt) IN [i \in 1..Len(q) |-> [a |-> q[i][1], b |-> q[i][2], n |-> 1]]
Firsts(S) == LET q == SetToSortSeq({x[1] : x \in S}, <) IN
             [i \in 1..Len(q) |-> [a |-> q[i], b |-> -1, n |-> Cardinality({x \in S : x[1] = q[i]})]]

Open(S, c1, c2, ig) == /\ view' = IF ig THEN Firsts(Sel(S, c1, c2)) ELSE Pairs(Sel(S, c1, c2))
                       /\ ign' = ig /\ pos' = 0 /\ at' = FALSE /\ fresh' = TRUE /\ mk' = [pos |-> -1, at |-> FALSE]
CanNext == pos < Len(view)
HasNext(r) == /\ r = CanNext /\ fresh' = FALSE /\ UNCHANGED <<view, ign, pos, at, mk>>
Next(v) == /\ CanNext /\ v = view[pos + 1]
           /\ pos' = pos + 1 /\ at' = TRUE /\ fresh' = TRUE /\ UNCHANGED <<view, ign, mk>>
Ge(x, a, b) == x.a > a \/ (x.a = a /\ (ign \/ x.b >= b))
Skipped(a, b) == {j \in pos..Len(view) : ~Ge(view[j], a, b)}
MoveTo(a, b) == /\ at
                /\ pos' = pos - 1 + Cardinality(Skipped(a, b))
                /\ at' = FALSE /\ fresh' = TRUE /\ UNCHANGED <<view, ign, mk>>
Mark == /\ at /\ fresh /\ mk' = [pos |-> pos, at |-> at] /\ UNCHANGED <<view, ign, pos, at, fresh>>
Reset == /\ mk.pos >= 0 /\ pos' = mk.pos /\ at' = mk.at /\ fresh' = TRUE /\ UNCHANGED <<view, ign, mk>>
Total == FoldLeft(LAMBDA acc, x : acc + x.n, 0, view)
=============================================================================
