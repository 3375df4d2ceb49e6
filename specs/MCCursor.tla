------------------------------- MODULE MCCursor -------------------------------
(* Exhaustive check of the cursor contract over every set of pairs of a small grid, and generator of call sequences. *)
EXTENDS Cursor, TLC, Json, Randomization
CONSTANTS MaxV, Depth, Gen
VARIABLES S, hist, delivered
V == 0..MaxV
Grid == V \X V
Sets == IF Gen THEN {RandomSubset(RandomElement(0..6), Grid) : i \in 1..40} ELSE SUBSET Grid
Targets(p) == LET T == (0..(MaxV + 1)) \X (0..(MaxV + 1)) IN IF Gen THEN {RandomElement(T), RandomElement(IF p = 0 THEN T ELSE T)} ELSE T
Init == /\ S \in Sets /\ \E c1, c2 \in {-1} \cup V, ig \in BOOLEAN :
           /\ (c2 # -1 => c1 # -1) /\ (ig => c2 = -1)
           /\ view = (IF ig THEN Firsts(Sel(S, c1, c2)) ELSE Pairs(Sel(S, c1, c2)))
           /\ ign = ig
           /\ hist = <<[op |-> "open", rows |-> SetToSortSeq(S, LexLt), c1 |-> c1, c2 |-> c2, ign |-> ig]>>
        /\ pos = 0 /\ at = FALSE /\ fresh = TRUE /\ mk = [pos |-> -1, at |-> FALSE] /\ delivered = {}
H(r) == hist' = Append(hist, r)
Step == \/ HasNext(CanNext) /\ fresh /\ H([op |-> "hasnext"]) /\ UNCHANGED delivered
        \/ CanNext /\ Next(view[pos + 1]) /\ H([op |-> "next"]) /\ delivered' = delivered \cup {pos + 1}
        \/ \E t \in Targets(pos) : LET a == t[1]  b == IF ign THEN 0 ELSE t[2] IN
              fresh /\ MoveTo(a, b) /\ H([op |-> "moveto", a |-> a, b |-> b])
              /\ delivered' = delivered \cup {j \in Skipped(a, b) : j > pos}     \* skipping is only allowed below the target
        \/ Mark /\ H([op |-> "mark"]) /\ UNCHANGED delivered
        \/ Reset /\ H([op |-> "reset"]) /\ delivered' = 1..mk.pos
Spec == Init /\ [][Len(hist) < Depth /\ Step /\ UNCHANGED S]_<<cvars, S, hist, delivered>>
\* everything before the cursor was delivered or skipped by a MoveTo on purpose; nothing is delivered out of order
InvPos == pos \in 0..Len(view) /\ (at => pos >= 1)
InvNoLoss == \A j \in 1..pos : j \in delivered
InvSorted == \A i, j \in 1..Len(view) : i < j => (view[i].a < view[j].a \/ (view[i].a = view[j].a /\ view[i].b < view[j].b))
Hide == <<cvars, S, Len(hist), delivered>>
Emit == Len(hist) < Depth \/ PrintT(<<"BHV", ToJson(hist)>>)
=============================================================================
