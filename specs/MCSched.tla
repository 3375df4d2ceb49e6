------------------------------- MODULE MCSched -------------------------------
(* The algorithm: one lock, one event, a queue, NW workers, and a main thread that constructs, executes and destroys,
   step by step as the threads can interleave; it is checked against Sched, for every set of NP points. *)
EXTENDS Sched, Json
CONSTANTS NW, NP, Emit
VARIABLES own, waits, pc, reg, queue, active, alive, die, job, q, hist
vars == <<own, waits, pc, reg, queue, active, alive, die, job, q, hist>>
W == 1..NW
P == 0..NW                             \* 0 is the main thread
Pts == 1..NP
Defs == {d \in [Pts -> [cls : {0, 1}, prio : {1, 2}, dep : 0..(NP - 1)]] : \A i \in Pts : d[i].dep < i /\ (i > 1 => d[i].prio = 1 \/ d[i].cls = 0)}
RECURSIVE RegAll(_, _, _)
RegAll(z, d, i) == IF i > NP THEN z ELSE RegAll(Reg(z, d[i].cls, d[i].prio, d[i].dep), d, i + 1)
Init == /\ own = 0 /\ waits = {} /\ queue = << >> /\ active = 0 /\ alive = NW /\ die = FALSE
        /\ job = [w \in W |-> 0] /\ pc = [p \in P |-> "start"] /\ hist = << >>
        /\ \E d \in Defs : q = [RegAll(New(NW), d, 1) EXCEPT !.ph = "points"]
        /\ reg = {[i |-> i, deps |-> q.p[i].deps] : i \in Pts}
Step(p, from, to) == pc[p] = from /\ pc' = [pc EXCEPT ![p] = to] /\ hist' = IF Emit THEN Append(hist, p) ELSE hist
Rest(S) == UNCHANGED S
Acquire(p, from, to) == Step(p, from, to) /\ own = 0 /\ own' = p + 1 /\ Rest(<<waits, reg, queue, active, alive, die, job, q>>)
Wake == waits' = {}
WaitOn(p, from, to) == Step(p, from, to) /\ own' = 0 /\ waits' = waits \cup {p} /\ Rest(<<reg, queue, active, alive, die, job, q>>)
Woken(p, from, to) == Step(p, from, to) /\ p \notin waits /\ own = 0 /\ own' = p + 1 /\ Rest(<<waits, reg, queue, active, alive, die, job, q>>)
BestReg == LET R == {r \in reg : r.deps = {}} IN {r \in R : \A s \in R : ~Better(q.p[s.i], q.p[r.i])}
\* main
M1 == Acquire(0, "start", "loop")
M2 == /\ pc[0] = "loop" /\ reg # {} /\ (Len(queue) + active >= NW \/ BestReg = {}) /\ WaitOn(0, "loop", "slept")
M3 == Woken(0, "slept", "loop")
M4 == /\ Step(0, "loop", "loop") /\ Len(queue) + active < NW /\ \E r \in BestReg :
           /\ reg' = reg \ {r} /\ queue' = Append(queue, r.i) /\ q' = To(q, r.i, "disp")
           /\ Assert(CanDispatch(q, r.i), "dispatch")
      /\ Wake /\ Rest(<<own, active, alive, die, job>>)
M5 == /\ pc[0] = "loop" /\ reg = {} /\ (queue # << >> \/ active # 0) /\ WaitOn(0, "loop", "slept")
M6 == /\ Step(0, "loop", "main") /\ reg = {} /\ queue = << >> /\ active = 0 /\ own' = 0 /\ Assert(CanMain(q), "main")
      /\ q' = [q EXCEPT !.ph = "main"] /\ Rest(<<waits, reg, queue, active, alive, die, job>>)
M7 == Acquire(0, "main", "dying")
M8 == /\ Step(0, "dying", "drain") /\ die' = TRUE /\ Wake /\ Rest(<<own, reg, queue, active, alive, job, q>>)
M9 == /\ pc[0] = "drain" /\ alive > 0 /\ WaitOn(0, "drain", "drained?")
M10 == Woken(0, "drained?", "drain")
M11 == /\ Step(0, "drain", "end") /\ alive = 0 /\ own' = 0 /\ Rest(<<waits, reg, queue, active, alive, die, job, q>>)
\* workers
W1(w) == Acquire(w, "start", "top")
W2(w) == /\ pc[w] = "top" /\ ~die /\ queue = << >> /\ WaitOn(w, "top", "slept")
W3(w) == Woken(w, "slept", "top")
W4(w) == /\ Step(w, "top", "grabbed") /\ ~die /\ queue # << >> /\ job' = [job EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
         /\ active' = active + 1 /\ Wake /\ own' = 0 /\ Rest(<<reg, alive, die, q>>)
W5(w) == Step(w, "grabbed", "running") /\ Assert(CanRun(q, job[w]), "run") /\ q' = To(q, job[w], "run") /\ Rest(<<own, waits, reg, queue, active, alive, die, job>>)
W6(w) == Step(w, "running", "ran") /\ q' = To(q, job[w], "done") /\ Rest(<<own, waits, reg, queue, active, alive, die, job>>)
W7(w) == Acquire(w, "ran", "book")
W8(w) == /\ Step(w, "book", "top") /\ active' = active - 1 /\ reg' = {[r EXCEPT !.deps = @ \ {job[w]}] : r \in reg} /\ q' = To(q, job[w], "over")
         /\ job' = [job EXCEPT ![w] = 0] /\ Wake /\ Rest(<<own, queue, alive, die>>)
W9(w) == /\ Step(w, "top", "end") /\ die /\ alive' = alive - 1 /\ Wake /\ own' = 0 /\ Rest(<<reg, queue, active, die, job, q>>)
Main == M1 \/ M2 \/ M3 \/ M4 \/ M5 \/ M6 \/ M7 \/ M8 \/ M9 \/ M10 \/ M11
Worker(w) == W1(w) \/ W2(w) \/ W3(w) \/ W4(w) \/ W5(w) \/ W6(w) \/ W7(w) \/ W8(w) \/ W9(w)
AllEnd == \A p \in P : pc[p] = "end"
Out == (Emit /\ AllEnd) => PrintT(<<"BHV", ToJson([pts |-> [i \in Pts |-> <<q.p[i].cls, q.p[i].prio, i - 1 - Cardinality(q.p[i].deps)>>], plan |-> hist])>>)
Next == Main \/ (\E w \in W : Worker(w)) \/ (AllEnd /\ ~Emit /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ \A w \in W : WF_vars(Worker(w))
OwnOk == own \in {0} \cup {p + 1 : p \in P}
Inv == SchedInv(q) /\ OwnOk /\ active <= NW /\ \A w \in W : pc[w] \in {"running"} => q.p[job[w]].st = "run"
\* nothing that the destructor frees is used afterwards
Freed == pc[0] = "end" => \A w \in W : pc[w] = "end"
Once == [][\A i \in Pts : (q.p[i].st = "over" => q'.p[i].st = "over")]_vars
Ends == <>[]AllEnd
=============================================================================
