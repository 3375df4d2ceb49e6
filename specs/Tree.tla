-------------------------------- MODULE Tree --------------------------------
(* Stored maps.  A number map (numbers to values, in order), a dictionary (words to numbers and back), and a string buffer
   (an append-only sequence of words).  Everything put in is there after closing and reopening. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES m,      \* number -> value
          w2n,    \* word -> number
          n2w,    \* number -> word
          seq,    \* the string buffer
          mode    \* "closed", "rw", "ro"
tvars == <<m, w2n, n2w, seq, mode>>
Lookup(f, k) == IF k \in DOMAIN f THEN f[k] ELSE -1
TreeInit == m = << >> /\ w2n = << >> /\ n2w = << >> /\ seq = << >> /\ mode = "closed"
Open(ro) == mode = "closed" /\ mode' = (IF ro THEN "ro" ELSE "rw") /\ UNCHANGED <<m, w2n, n2w, seq>>
Close == mode # "closed" /\ mode' = "closed" /\ UNCHANGED <<m, w2n, n2w, seq>>
Put(k, v) == mode = "rw" /\ m' = (k :> v) @@ m /\ UNCHANGED <<w2n, n2w, seq, mode>>
\* inserting a word: the first number given to a word stays; r says whether the word was new, v is its number now
Insert(w, i, r, v) ==
  /\ mode = "rw" /\ r = (w \notin DOMAIN w2n) /\ v = (IF r THEN i ELSE w2n[w])
  /\ w2n' = (w :> v) @@ w2n /\ n2w' = (v :> w) @@ n2w /\ UNCHANGED <<m, seq, mode>>
AppendWord(w) == mode = "rw" /\ seq' = Append(seq, w) /\ UNCHANGED <<m, w2n, n2w, mode>>
\* what a traversal shows: every key once, in order, with its value
InOrder(f, rows) == /\ Len(rows) = Cardinality(DOMAIN f)
                    /\ \A i \in 1..Len(rows) : rows[i][1] \in DOMAIN f /\ f[rows[i][1]] = rows[i][2]
                    /\ \A i \in 1..(Len(rows) - 1) : rows[i][1] < rows[i + 1][1]
TwoWays == /\ \A w \in DOMAIN w2n : n2w[w2n[w]] = w
             /\ \A n \in DOMAIN n2w : w2n[n2w[n]] = n
=============================================================================
