------------------------------- MODULE TraceRel -------------------------------
EXTENDS TraceBase, Rel
VARIABLES cur, want      \* the current tree event; the rows it denotes
TraceInit == TraceStart /\ cur = [vis |-> << >>] /\ want = << >>
Delivered(e) == [i \in 1..Len(e.rows) |-> Row([x \in Rng(cur.vis) |-> e.rows[i][CHOOSE j \in 1..Len(cur.vis) : cur.vis[j] = x]], e.rows[i][Len(cur.vis) + 1])]
\* NULL may come before or after all values
Sorted(s, regs) == \E n \in {NULL, 1000000000} :
  LET K(i) == [j \in 1..Len(regs) |-> LET v == s[i].r[regs[j]] IN IF v = NULL THEN n ELSE v] IN \A i \in 1..(Len(s) - 1) : ~Lex(K(i + 1), K(i))
InBag(a, b) == DOMAIN a \subseteq DOMAIN b /\ \A k \in DOMAIN a : a[k] <= b[k]
\* a limit over rows whose order is open: any rows of the input, the right number of them
Open == cur.tree.k = "limit" /\ cur.tree.open
Visible(regs) == LET bad == {i \in 1..Len(regs) : regs[i] \notin Rng(cur.vis)} IN IF bad = {} THEN regs ELSE SubSeq(regs, 1, Min(bad) - 1)
Good(e) ==
  LET d == Delivered(e)
      got == Bag(d, cur.vis)
      exp == Bag(want, cur.vis)
  IN /\ \A i \in 1..Len(d) : d[i].c > 0
     /\ IF e.ended THEN IF Open THEN InBag(got, exp) /\ SumC(d) = Len(Slice(Expand(want), cur.tree.off, cur.tree.lim)) ELSE got = exp
                   ELSE InBag(got, exp)
     /\ Sorted(d, Visible(SortBy(cur.tree)))
     /\ (cur.tree.k = "hg" \/ (cur.tree.k = "gb" /\ cur.tree.distinct)) => Cardinality(DOMAIN got) = Len(d)   \* every group once
TraceNext ==
  \/ Is("tree") /\ cur' = Ev
       /\ want' = (LET env == [x \in {Ev.preset[i][1] : i \in 1..Len(Ev.preset)} |-> (CHOOSE q \in Rng(Ev.preset) : q[1] = x)[2]]
                       t == IF Ev.tree.k = "limit" /\ Ev.tree.open THEN Ev.tree.l ELSE Ev.tree
                   IN Eval(t, env, Rng(Ev.db)))
  \/ Is("rows") /\ Good(Ev) /\ UNCHANGED <<cur, want>>
  \/ Is("domain") /\ UNCHANGED <<cur, want>>
       /\ LET both == {v \in Rng(Ev.sets[1]) : \A i \in 1..Len(Ev.sets) : v \in Rng(Ev.sets[i])} IN
          \A i \in 1..Len(Ev.probes) : LET p == Ev.probes[i] IN
             /\ (p[1] \in both => p[2] = 1)
             /\ \A x \in both : x >= p[1] => p[3] # -1 /\ p[3] <= x
             /\ (p[3] # -1 => p[3] >= p[1]) /\ p[4] = 1
             /\ (p[2] = 1 => p[3] = p[1]) /\ p[5] = 1
  \* a temporary dictionary: terms of the store keep their identifiers, every other term gets one of its own, for good
  \/ Is("tdict") /\ UNCHANGED <<cur, want>>
       /\ LET q == Ev.q  n == Len(q)  known(i) == q[i].id < Ev.base IN
          /\ \A i \in 1..n : /\ q[i].ok /\ (q[i].kid >= 0 <=> known(i)) /\ (known(i) => q[i].id = q[i].kid)
                            /\ q[i].rok
                            /\ LET k == q[i].k IN q[i].rt = q[k].t /\ (~known(k) => q[i].rty = q[k].ty /\ q[i].rst = q[k].st)
          /\ \A i, j \in 1..n : ~known(i) /\ ~known(j) => ((q[i].id = q[j].id) <=> (q[i].t = q[j].t /\ q[i].ty = q[j].ty /\ q[i].st = q[j].st))
  \/ Is("free") /\ UNCHANGED <<cur, want>>
  \/ Is("end") /\ UNCHANGED <<cur, want>>
=============================================================================
