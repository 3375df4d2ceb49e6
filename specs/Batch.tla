-------------------------------- MODULE Batch --------------------------------
(* Training input.  A batch source goes through the training triples in an order that it chooses anew at every shuffle; the
   order is not known in advance but revealed by what is delivered, by the next batch or by a batch with a number.
   Embeddings are a matrix with two counters per row that survives storage.  Subgraphs are the groups of triples with the same
   object and predicate (then subject and predicate) with more than a minimum of members, with the average of their vectors. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
VARIABLES T,        \* the stored triples
          held,     \* <<validation, test>> of the stored file, <<>> before it exists
          tr,       \* training triples of the source
          bs,       \* batch size
          perm,     \* position -> triple, as far as revealed
          cur,      \* next position
          emb, conf, upd, saved,     \* embeddings; what was stored
          subs      \* the subgraphs last computed
bvars == <<T, held, tr, bs, perm, cur, emb, conf, upd, saved, subs>>
BSet(q) == {q[i] : i \in 1..Len(q)}
Unset == [m |-> << >>, conf |-> << >>, upd |-> << >>]
BInit == /\ T = {} /\ held = << >> /\ tr = {} /\ bs = 1 /\ perm = << >> /\ cur = 0 /\ emb = << >> /\ conf = << >> /\ upd = << >>
         /\ saved = Unset /\ subs = << >>
Match(c, t) == \A k \in 1..3 : c[k] < 0 \/ c[k] = t[k]
Source(b) == bs' = b /\ tr' = {} /\ perm' = << >> /\ cur' = 0 /\ UNCHANGED <<T, held, emb, conf, upd, saved, subs>>
\* v and t: may there be triples kept for validation and test
Start(c, V, S, v, t) ==
  /\ V \cap S = {} /\ V \subseteq T /\ S \subseteq T /\ (v \/ V = {}) /\ (t \/ S = {})
  /\ (held = << >> \/ held = <<V, S>>) /\ held' = <<V, S>>
  /\ tr' = {x \in T \ (V \cup S) : Match(c, x)} /\ perm' = << >> /\ cur' = 0 /\ UNCHANGED <<T, bs, emb, conf, upd, saved, subs>>
N == Cardinality(tr)
Batches == (N + bs - 1) \div bs
Shuffle == perm' = << >> /\ cur' = 0 /\ UNCHANGED <<T, held, tr, bs, emb, conf, upd, saved, subs>>
\* rows are what stands at positions from .. from + Len(rows) - 1
Reveal(from, rows) ==
  /\ BSet(rows) \subseteq tr /\ Cardinality(BSet(rows)) = Len(rows)
  /\ perm' = [i \in DOMAIN perm \cup (from..(from + Len(rows) - 1)) |-> IF i >= from /\ i < from + Len(rows) THEN rows[i - from + 1] ELSE perm[i]]
  /\ \A i \in 1..Len(rows) : from + i - 1 \in DOMAIN perm => perm[from + i - 1] = rows[i]
  /\ Cardinality({perm'[i] : i \in DOMAIN perm'}) = Cardinality(DOMAIN perm')
BatchLen(from) == IF from >= N THEN 0 ELSE Min({bs, N - from})
NextBatch(rows, r) == /\ Len(rows) = BatchLen(cur) /\ r = (Len(rows) > 0) /\ Reveal(cur, rows) /\ cur' = cur + Len(rows)
                      /\ UNCHANGED <<T, held, tr, bs, emb, conf, upd, saved, subs>>
NumberedBatch(n, rows, r) == /\ Len(rows) = BatchLen(n * bs) /\ r = (Len(rows) > 0) /\ Reveal(n * bs, rows)
                             /\ UNCHANGED <<T, held, tr, bs, cur, emb, conf, upd, saved, subs>>
\* ------------------------------------------------------------ embeddings
Rest == UNCHANGED <<T, held, tr, bs, perm, cur>>
NewEmb(m) == emb' = m /\ conf' = [i \in 1..Len(m) |-> 0] /\ upd' = [i \in 1..Len(m) |-> 0] /\ UNCHANGED <<saved, subs>> /\ Rest
SameCounts == Rest /\ UNCHANGED <<saved, subs>>
Fill(m) == Len(m) = Len(emb) /\ (\A i \in 1..Len(m) : Len(m[i]) = Len(emb[i])) /\ emb' = m /\ UNCHANGED <<conf, upd>> /\ SameCounts
SetCell(i, k, v) == emb' = [emb EXCEPT ![i][k] = v] /\ UNCHANGED <<conf, upd>> /\ SameCounts
Conflict(i) == conf' = [conf EXCEPT ![i] = @ + 1] /\ UNCHANGED <<emb, upd>> /\ SameCounts
Update(i) == upd' = [upd EXCEPT ![i] = @ + 1] /\ UNCHANGED <<emb, conf>> /\ SameCounts
Save == saved' = [m |-> emb, conf |-> conf, upd |-> upd] /\ UNCHANGED <<emb, conf, upd, subs>> /\ Rest
Restore == emb' = saved.m /\ conf' = saved.conf /\ upd' = saved.upd /\ UNCHANGED <<saved, subs>> /\ Rest
\* ------------------------------------------------------------ subgraphs
K == 720720
Lt2(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Ent(d, t) == IF d = 0 THEN t[3] ELSE t[1]
Mem(d, t) == IF d = 0 THEN t[1] ELSE t[3]
Members(d, g) == {Mem(d, t) : t \in {u \in T : Ent(d, u) = g[1] /\ u[2] = g[2]}}
Groups(d, mc) == LET G == {<<Ent(d, t), t[2]>> : t \in T} IN SetToSortSeq({g \in G : Cardinality(Members(d, g)) > mc}, Lt2)
SumOf(M, f(_)) == FoldSet(LAMBDA x, a : f(x) + a, 0, M)
Cell(x, k) == emb[x + 1][k] \div K        \* whole numbers
Avg(M, k) == (K \div Cardinality(M)) * SumOf(M, LAMBDA x : Cell(x, k))
\* K times the variance (with the number of members less one)
Var(M, k) == LET c == Cardinality(M) s == SumOf(M, LAMBDA x : Cell(x, k)) q == SumOf(M, LAMBDA x : Cell(x, k) * Cell(x, k))
             IN IF c = 1 THEN 0 ELSE ((K \div (c * (c - 1))) * (c * q - s * s))
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Dim == Len(emb[1])
SubgraphsOf(mc) == [j \in 1..2 |-> Groups(j - 1, mc)]
Row(d, g, var) == [meta |-> <<d, g[1], g[2], Cardinality(Members(d, g))>>, par |-> [k \in 1..Dim |-> Avg(Members(d, g), k)],
                   dist |-> IF var THEN SumOf(1..Dim, LAMBDA k : Var(Members(d, g), k)) ELSE SumOf(1..Dim, LAMBDA k : Abs(Avg(Members(d, g), k)))]
AllSubs(mc, var) == LET G == SubgraphsOf(mc) IN [i \in 1..Len(G[1]) |-> Row(0, G[1][i], var)] \o [i \in 1..Len(G[2]) |-> Row(1, G[2][i], var)]
Shown(S, meta, par, dist) == /\ Len(meta) = Len(S) /\ Len(par) = Len(S) /\ Len(dist) = Len(S)
                             /\ \A i \in 1..Len(S) : /\ meta[i] = S[i].meta \o <<i - 1>> /\ par[i] = S[i].par /\ dist[i] = <<S[i].dist>>
Compute(mc, var, meta, par, dist) ==
  /\ LET S == AllSubs(mc, var) IN Shown(S, meta, par, dist) /\ subs' = [s |-> S, mc |-> mc]
  /\ UNCHANGED <<emb, conf, upd, saved>> /\ Rest
=============================================================================
