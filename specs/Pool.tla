--------------------------------- MODULE Pool ---------------------------------
(* Pools of objects: chunks of growing size, a free list threaded through the free slots, enumeration by walking the
   sorted chunks and the sorted free list side by side.  TLC checks over all histories of small pools that a slot is
   handed out to one client at a time, that none is lost, and that the enumeration is exactly what is handed out. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Chunk, MaxLive, Depth, Emit
VARIABLES chunks, free, live, hist     \* chunks: set of <<base, size>>; free: the list; live: handed out
vars == <<chunks, free, live, hist>>
Slots(c) == c[1]..(c[1] + c[2] - 1)
All == UNION {Slots(c) : c \in chunks}
RangeOf(s) == {s[i] : i \in 1..Len(s)}
H(op) == hist' = IF Emit THEN Append(hist, op) ELSE hist
Init == chunks = {} /\ free = << >> /\ live = {} /\ hist = << >>
\* memory may lie before or after what there is
NewChunk(base) == <<base, Chunk + Cardinality(chunks)>>
Alloc ==
  /\ Cardinality(live) < MaxLive
  /\ \/ free # << >> /\ live' = live \cup {Head(free)} /\ free' = Tail(free) /\ UNCHANGED chunks
     \/ /\ free = << >> /\ \E base \in {100 + (10 * Cardinality(chunks)), 100 - (10 * Cardinality(chunks))} : LET c == NewChunk(base) IN
             /\ Slots(c) \cap All = {} /\ chunks' = chunks \cup {c} /\ live' = live \cup {base} /\ free' = [i \in 1..(c[2] - 1) |-> base + i]
  /\ H(<<"alloc">>)
Nth(S, i) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1
Free == \E i \in 1..Cardinality(live) : LET x == Nth(live, i) IN live' = live \ {x} /\ free' = <<x>> \o free /\ UNCHANGED chunks /\ H(<<"free", i>>)
\* the enumeration sorts the free list, which is then used in that order
Sorted(s) == SetToSortSeq(RangeOf(s), LAMBDA a, b : a < b)
RECURSIVE WalkSlots(_, _, _)
WalkSlots(s, nf, out) ==
  IF s = << >> THEN out
  ELSE IF nf # << >> /\ Head(nf) < Head(s) THEN WalkSlots(s, Tail(nf), out)
  ELSE WalkSlots(Tail(s), nf, IF nf # << >> /\ Head(nf) = Head(s) THEN out ELSE Append(out, Head(s)))
Enumerated == WalkSlots(SetToSortSeq(All, LAMBDA a, b : a < b), Sorted(free), << >>)
Enum == free' = Sorted(free) /\ UNCHANGED <<chunks, live>> /\ H(<<"enum">>)
FreeAll == (Emit => Len(hist) % 13 = 12) /\ chunks' = {} /\ free' = << >> /\ live' = {} /\ H(<<"freeall">>)
Next == (Emit => Len(hist) < Depth) /\ (Alloc \/ Free \/ Enum \/ FreeAll)
Spec == Init /\ [][Next]_vars
Exclusive == RangeOf(free) \cap live = {} /\ Len(free) = Cardinality(RangeOf(free))
NoneLost == RangeOf(free) \cup live = All
EnumRight == RangeOf(Enumerated) = live /\ Len(Enumerated) = Cardinality(live)
Out == ~Emit \/ Len(hist) < Depth \/ PrintT(<<"BHV", ToJson(hist)>>)
=============================================================================
