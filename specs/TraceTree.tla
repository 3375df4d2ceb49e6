------------------------------ MODULE TraceTree ------------------------------
EXTENDS TraceBase, Tree
TraceInit == TraceStart /\ TreeInit
TraceNext ==
  \/ Is("cfg") /\ UNCHANGED tvars
  \/ Is("open") /\ Open(Ev.ro)
  \/ Is("close") /\ Close
  \/ Is("put") /\ Put(Ev.k, Ev.v)
  \/ Is("dput") /\ Insert(Ev.w, Ev.i, Ev.r, Ev.v)
  \/ Is("sapp") /\ AppendWord(Ev.w)
  \/ UNCHANGED tvars /\ mode # "closed" /\
     ( \/ Is("get") /\ Ev.f = (Ev.k \in DOMAIN m) /\ Ev.v = Lookup(m, Ev.k)
       \/ Is("dget") /\ Ev.f = (Ev.w \in DOMAIN w2n) /\ Ev.v = Lookup(w2n, Ev.w)
       \/ Is("dtext") /\ Ev.f = (Ev.i \in DOMAIN n2w) /\ Ev.w = Lookup(n2w, Ev.i)
       \/ Is("iter") /\ InOrder(IF DOMAIN n2w # {} THEN n2w ELSE m, Ev.rows)
       \/ Is("sget") /\ Ev.w = seq[Ev.k]
       \/ Is("scmp") /\ Ev.r = (seq[Ev.k] = Ev.w) )
  \/ Is("end") /\ UNCHANGED tvars
=============================================================================
