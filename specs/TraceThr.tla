------------------------------- MODULE TraceThr -------------------------------
EXTENDS TraceBase, Integers, FiniteSets
M == INSTANCE Mon WITH Slack <- 1
S == INSTANCE Sched
VARIABLE m, q, x        \* the monitors; the scheduler; threads: x.spawned, x.begun, x.fin, x.ids
TraceInit == TraceStart /\ m = M!Start({0}, 0..3) /\ q = S!New(0) /\ x = [n |-> 0, spawned |-> {0}, begun |-> {}, fin |-> {}, ids |-> << >>, main |-> 0]
Same(v) == UNCHANGED v
Num(a) == Cardinality(a)
Rng(s) == {s[i] : i \in 1..Len(s)}
IdOk(t, r) == \A i \in 1..Len(x.ids) : (x.ids[i][1] = t) <=> (x.ids[i][2] = r)

Monitor ==
  \/ Is("mon") /\ m' = [M!Start(0..Ev.n, 0..3) EXCEPT !.clk = Ev.clk] /\ x' = [x EXCEPT !.n = Ev.n] /\ Same(q)
  \/ Is("spawn") /\ Ev.n \notin x.spawned /\ x' = [x EXCEPT !.spawned = @ \cup {Ev.n}] /\ Same(<<m, q>>)
  \/ Is("started") /\ Ev.r = 1 /\ Num(x.spawned) = Ev.n + 1 /\ Same(<<m, q, x>>)
  \* every program begins once, in a thread of its own
  \/ Is("begin") /\ Ev.t # 0 /\ Ev.t \in x.spawned /\ (\A p \in x.begun : p[1] # Ev.t /\ p[2] # Ev.n) /\ x' = [x EXCEPT !.begun = @ \cup {<<Ev.t, Ev.n>>}] /\ Same(<<m, q>>)
  \/ Is("fin") /\ <<Ev.t, Ev.n>> \in x.begun /\ x' = [x EXCEPT !.fin = @ \cup {Ev.n}] /\ m.at[Ev.t].f = "idle" /\ Same(<<m, q>>)
  \/ Is("texit") /\ x' = [x EXCEPT !.ids = SelectSeq(@, LAMBDA p : p[1] # Ev.t)] /\ Same(<<m, q>>)      \* its id may be used again
  \/ Is("call") /\ M!CanCall(m, Ev.t, Ev.f, Ev.m, Ev.c) /\ m' = M!Call(m, Ev.t, Ev.f, Ev.m, Ev.c, Ev.ms) /\ Same(<<q, x>>)
  \/ /\ Is("ret") /\ m.at[Ev.t].f = Ev.f /\ Ev.clk = m.clk /\ Same(q)
     /\ (IF Ev.f = "id" THEN IdOk(Ev.t, Ev.r) /\ x' = [x EXCEPT !.ids = Append(@, <<Ev.t, Ev.r>>)] /\ m' = [m EXCEPT !.at[Ev.t] = M!Idle]
         ELSE m' \in M!Rets(m, Ev.t, Ev.r) /\ Same(x))
     /\ M!MonInv(m')
  \/ Is("jump") /\ M!CanJump(m, Ev.clk) /\ m' = M!Clocked(m, Ev.clk) /\ Same(<<q, x>>)
  \* nobody can go on: right only for programs that wait for what never comes
  \/ Is("stuck") /\ x.n > 0 /\ M!StuckOk(m, Rng(Ev.ts) \ {0}) /\ {p[2] : p \in {p \in x.begun : p[1] \in Rng(Ev.ts)}} \cup x.fin = 1..x.n /\ Same(<<m, q, x>>)
  \/ Is("quiet") /\ x.n > 0 /\ x.fin = 1..x.n /\ Same(<<m, q, x>>)

Scheduler ==
  \/ Is("new") /\ q' = S!New(S!Threads(Ev.max)) /\ Same(<<m, x>>)
  \/ Is("made") /\ Num(x.spawned) = q.k + 1 /\ Same(<<m, q, x>>)
  \/ Is("exec") /\ q' = [q EXCEPT !.p = << >>, !.ph = IF q.k = 0 \/ Ev.single = 1 THEN "main" ELSE "points", !.left = Ev.n] /\ x' = [x EXCEPT !.main = 0] /\ Same(m)
  \/ Is("reg") /\ q.ph = "points" /\ Ev.had = Len(q.p) /\ Ev.i = Len(q.p) + 1 /\ q' = S!Reg(q, Ev.cls, Ev.prio, Ev.dep) /\ Same(<<m, x>>)
  \/ Is("run") /\ S!CanRun(q, Ev.i) /\ Ev.t # 0 /\ q' = S!To(q, Ev.i, "run") /\ S!SchedInv(q') /\ Same(<<m, x>>)
  \/ Is("done") /\ S!CanEnd(q, Ev.i) /\ q' = S!To(q, Ev.i, "done") /\ Same(<<m, x>>)
  \* the main part: once, in the caller, to its end
  \/ Is("first") /\ Ev.t = 0 /\ x.main = 0 /\ (q.ph = "main" \/ S!CanMain(q)) /\ q' = [q EXCEPT !.ph = "main"] /\ x' = [x EXCEPT !.main = 1] /\ Same(m)
  \/ Is("next") /\ Ev.t = 0 /\ q.ph = "main" /\ x.main > 0 /\ x.main <= q.left /\ x' = [x EXCEPT !.main = @ + 1] /\ Same(<<m, q>>)
  \/ Is("execd") /\ q.ph = "main" /\ x.main = q.left + 1 /\ q' = [q EXCEPT !.ph = "idle"] /\ Same(<<m, x>>)
  \/ Is("del") /\ q.ph = "idle" /\ Same(<<m, q, x>>)
  \/ Is("gone") /\ Same(<<m, q, x>>)
  \/ Is("quiet") /\ x.n = 0 /\ Same(<<m, q, x>>)
  \* not recorded: dispatching a point, and taking note of its end
  \/ /\ q.ph = "points" /\ Stay /\ Same(<<m, x>>)
     /\ \E i \in S!Ids(q) : (S!CanDispatch(q, i) /\ q' = S!To(q, i, "disp")) \/ (S!CanRetire(q, i) /\ q' = S!To(q, i, "over"))
TraceNext == Monitor \/ Scheduler \/ (Is("end") /\ Same(<<m, q, x>>))
=============================================================================
