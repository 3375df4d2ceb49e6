------------------------------ MODULE TraceCache ------------------------------
EXTENDS TraceBase, Cache
VARIABLES held,      \* the raw cache: key -> sequence of blocks; times stored
          db,        \* the store's triples
          rd,        \* reader -> [key, got (first terms it has collected or found)]
          kept       \* key -> first terms that readers that are done had found
vars == <<held, db, rd, kept>>
TraceInit == TraceStart /\ held = << >> /\ db = {} /\ rd = << >> /\ kept = << >>
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
View(key) == {<<t[1], t[3]>> : t \in {u \in db : u[2] = key}}
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
TraceNext ==
  \/ Is("store") /\ held' = (Ev.key :> [n |-> At(held, Ev.key, [n |-> 0]).n + 1, b |-> At(held, Ev.key, [b |-> << >>]).b \o Blocks(Ev.blocks, Ev.pairs)]) @@ held
       /\ UNCHANGED <<db, rd, kept>>
  \/ Is("get") /\ UNCHANGED vars
       /\ ~Ev.half /\ (Ev.found <=> Ev.key \in DOMAIN held)
       /\ (Ev.found => /\ InRange(Ev.blocks, Ev.pairs)
                       /\ SameBag(Blocks(Ev.blocks, Ev.pairs), held[Ev.key].b)
                       /\ (held[Ev.key].n > 1 => SortedBlocks(Blocks(Ev.blocks, Ev.pairs))))
  \* ---- over a store
  \/ Is("load") /\ db' = {<<t[1], t[2], t[3]>> : t \in ToSet(Ev.triples)} /\ UNCHANGED <<held, rd, kept>>
  \/ \E o \in {"open", "size", "dict", "close"} : Is(o) /\ UNCHANGED vars
  \/ Is("cnew") /\ rd' = (Ev.it :> [key |-> Ev.key, got |-> {}]) @@ rd /\ UNCHANGED <<held, db, kept>>
  \/ Is("cgoto") /\ UNCHANGED <<held, db, kept>>
       /\ LET r == rd[Ev.it]  full == Of(Ev.a, View(r.key))
              hit == \E i \in 1..Len(full) : full[i] = Ev.b
              want == IF Ev.b = -1 THEN full ELSE IF hit THEN SelectSeq(full, LAMBDA x : x >= Ev.b) ELSE << >>
          IN /\ (full # << >> => Ev.r)
             /\ (IF Ev.ended THEN Ev.objs = want ELSE IsPrefixOf(Ev.objs, want) /\ Len(Ev.objs) < Len(want))
             /\ rd' = (Ev.it :> [r EXCEPT !.got = IF full = << >> THEN @ ELSE @ \cup {Ev.a}]) @@ rd
  \/ Is("cclear") /\ UNCHANGED <<held, db, rd>> /\ kept' = (rd[Ev.it].key :> (At(kept, rd[Ev.it].key, {}) \cup rd[Ev.it].got)) @@ kept
  \/ Is("cpeek") /\ UNCHANGED vars
       /\ LET k == At(kept, Ev.key, {}) IN
          /\ (Ev.found <=> k # {})
          /\ Ev.found => /\ InRange(Ev.blocks, Ev.pairs)
                         /\ LET b == Blocks(Ev.blocks, Ev.pairs)
                                bs == {[s |-> b[i].s, e |-> b[i].e, rows |-> {<<x[1], x[2]>> : x \in ToSet(b[i].rows)}] : i \in 1..Len(b)}
                            IN SortedBlocks(b) /\ Truthful(bs, View(Ev.key)) /\ \A c \in k : Known(c, bs)
  \/ Is("end") /\ UNCHANGED vars
=============================================================================
