----------------------------- MODULE TraceBatch -----------------------------
EXTENDS TraceBase, Batch
VARIABLES mv, mt
tb == <<mv, mt>>
TraceInit == TraceStart /\ BInit /\ mv = FALSE /\ mt = FALSE
TraceNext ==
  \/ Is("source") /\ Source(Ev.bs) /\ mv' = (Ev.v > 0) /\ mt' = (Ev.t > 0)
  \/ UNCHANGED tb /\
     ( \/ Is("load") /\ T = {} /\ T' = BSet(Ev.triples) /\ UNCHANGED <<held, tr, bs, perm, cur, emb, conf, upd, saved, subs>>
       \/ Is("start") /\ Start(Ev.c, BSet(Ev.valid), BSet(Ev.test), mv, mt) /\ Ev.batches = Batches'
            /\ Len(Ev.valid) = Cardinality(BSet(Ev.valid)) /\ Len(Ev.test) = Cardinality(BSet(Ev.test))
       \/ Is("batch") /\ NextBatch(Ev.rows, Ev.r)
       \/ Is("batchnr") /\ NumberedBatch(Ev.n, Ev.rows, Ev.r)
       \/ Is("shuffle") /\ Shuffle
       \/ Is("emb") /\ NewEmb(Ev.rows) /\ Ev.n = Len(Ev.rows) /\ (\A i \in 1..Ev.n : Len(Ev.rows[i]) = Ev.dim)
            /\ (\A i \in 1..Ev.n : Ev.conf[i] = 0 /\ Ev.upd[i] = 0)
       \/ Is("einit") /\ Ev.ok /\ UNCHANGED bvars
       \/ Is("filled") /\ Fill(Ev.rows) /\ Ev.conf = conf /\ Ev.upd = upd
       \/ Is("eset") /\ SetCell(Ev.i + 1, Ev.k + 1, Ev.v)
       \/ Is("econf") /\ Conflict(Ev.i + 1)
       \/ Is("eupd") /\ Update(Ev.i + 1)
       \/ Is("epost") /\ UNCHANGED bvars
       \/ Is("estore") /\ Save
       \/ Is("eload") /\ Restore /\ emb' = Ev.rows /\ conf' = Ev.conf /\ upd' = Ev.upd /\ Ev.n = Len(emb')
       \/ Is("avg") /\ Compute(Ev.mincard, FALSE, Ev.meta, Ev.par, Ev.dist) /\ Ev.left = 0
       \/ Is("var") /\ Compute(Ev.mincard, TRUE, Ev.meta, Ev.par, Ev.dist) /\ Ev.left = 0
       \/ Is("again") /\ Shown(subs.s, Ev.meta, Ev.par, Ev.dist) /\ Ev.left = 0 /\ Ev.mincard = subs.mc /\ UNCHANGED bvars
       \/ Is("end") /\ UNCHANGED bvars )
=============================================================================
