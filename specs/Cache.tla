-------------------------------- MODULE Cache --------------------------------
(* The range cache.  For a key it holds blocks; a block says that everything about the first terms startKey..endKey is
   known, and points at the pairs.  A reader asks for first terms in any order: what a block covers comes from the cache, the
   rest is read from the store and collected; when the reader is done, what it collected becomes blocks. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
\* ---- the cache as a data structure: a block [s, e, rows]
Blk(s, e, rows) == [s |-> s, e |-> e, rows |-> rows]
Slice(ps, from, to) == SubSeq(ps, from + 1, to)
Blocks(bl, ps) == [i \in 1..Len(bl) |-> Blk(bl[i][1], bl[i][2], Slice(ps, bl[i][3], bl[i][4]))]
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
SortedBlocks(b) == \A i \in 1..(Len(b) - 1) : b[i].s <= b[i + 1].s
InRange(bl, ps) == \A i \in 1..Len(bl) : bl[i][3] >= 0 /\ bl[i][3] <= bl[i][4] /\ bl[i][4] <= Len(ps)
\* ---- the cache as a view of a store (a set of <<first, second>> for the key)
Known(c, bs) == \E b \in bs : b.s <= c /\ c <= b.e
Truthful(bs, db) == \A b \in bs : /\ \A t \in db : t[1] >= b.s /\ t[1] <= b.e => t \in b.rows
                                 /\ b.rows \subseteq db
                                 /\ \A c \in b.s..b.e : \E t \in db : t[1] = c
Of(c, db) == SetToSortSeq({t[2] : t \in {u \in db : u[1] = c}}, LAMBDA x, y : x < y)
=============================================================================
