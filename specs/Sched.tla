-------------------------------- MODULE Sched --------------------------------
(* The scheduler of asynchronous execution points: what a client sees.  A point is registered with a class, a priority and
   the points it depends on; it is dispatched when there is a free worker and it is the best of those whose dependencies
   have been executed; it runs once; the main part of the plan runs after all of them. *)
EXTENDS Naturals, Integers, FiniteSets, Sequences, TLC
\* q.k: workers (0: everything happens in the caller).  q.p[i]: a registered point
New(k) == [k |-> k, p |-> << >>, ph |-> "idle", left |-> 0]
Threads(max) == IF max < 2 \/ max > 1000 THEN 0 ELSE max
Reg(q, cls, prio, dep) == [q EXCEPT !.p = Append(@, [cls |-> cls, prio |-> prio, deps |-> (dep + 1)..Len(q.p), st |-> "reg"])]
Ids(q) == 1..Len(q.p)
In(q, S) == {i \in Ids(q) : q.p[i].st \in S}
Ready(q) == {i \in In(q, {"reg"}) : q.p[i].deps \subseteq In(q, {"over"})}
Better(a, b) == a.cls < b.cls \/ (a.cls = b.cls /\ a.prio > b.prio)
Best(q) == {i \in Ready(q) : \A j \in Ready(q) : ~Better(q.p[j], q.p[i])}
CanDispatch(q, i) == q.k > 0 /\ q.ph = "points" /\ i \in Best(q) /\ Cardinality(In(q, {"disp", "run", "done"})) < q.k
To(q, i, st) == [q EXCEPT !.p[i].st = st]
CanRun(q, i) == i \in Ids(q) /\ q.p[i].st = "disp"
CanEnd(q, i) == i \in Ids(q) /\ q.p[i].st = "run"
CanRetire(q, i) == i \in Ids(q) /\ q.p[i].st = "done"
CanMain(q) == q.ph = "points" /\ \A i \in Ids(q) : q.p[i].st \in {"done", "over"}
SchedInv(q) ==
  /\ Cardinality(In(q, {"run"})) <= q.k
  /\ \A i \in In(q, {"disp", "run", "done", "over"}) : q.p[i].deps \subseteq In(q, {"over"})
=============================================================================
