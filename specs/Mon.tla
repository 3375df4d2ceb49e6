--------------------------------- MODULE Mon ---------------------------------
(* Locks and events as monitors.  A thread's call takes effect somewhere between its call and its return: a lock is free
   for others from the call of unlock or wait on, and held from the return of lock, of a successful tryLock, or of wait on,
   so two threads that ever hold one lock together are seen to.  Notifications are owed to the threads that wait when
   they are made, and to nobody else. *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANT Slack                       \* rounding of the clock, in ms
(* s.own[m]: the holder or 0.  s.at[t]: what thread t is doing.  s.owed: a sequence-less bag of notifications that still
   have to wake somebody: records [c, who] *)
Idle == [f |-> "idle", m |-> 0, c |-> 0, dl |-> 0, seen |-> FALSE]
Start(T, M) == [own |-> [m \in M |-> 0], at |-> [t \in T |-> Idle], owed |-> {}, no |-> 0, clk |-> 0]
Waiters(s, c) == {t \in DOMAIN s.at : s.at[t].f \in {"wait", "twait"} /\ s.at[t].c = c}
Owed(s, c) == {o \in s.owed : o.c = c}
\* the lock may have been busy at some moment since: held, or being taken or released
Busy(s, m) == s.own[m] # 0 \/ \E t \in DOMAIN s.at : s.at[t].m = m /\ s.at[t].f \in {"lock", "try", "wait", "twait", "unlock"}
Look(s) == [s EXCEPT !.at = [t \in DOMAIN s.at |-> IF s.at[t].f = "try" /\ (\E u \in DOMAIN s.at \ {t} : s.at[u].m = s.at[t].m /\ s.at[u].f \in {"lock", "try", "wait", "twait", "unlock"}) THEN [s.at[t] EXCEPT !.seen = TRUE]
                                                   ELSE IF s.at[t].f = "try" /\ s.own[s.at[t].m] # 0 THEN [s.at[t] EXCEPT !.seen = TRUE] ELSE s.at[t]]]
\* obligations that nobody can fulfil any more, or not all of them together, are void
Meetable(O) == \A P \in SUBSET O : Cardinality(UNION {o.who : o \in P}) >= Cardinality(P)
RECURSIVE Keep(_, _)
Keep(O, K) == IF O = {} THEN K ELSE LET o == CHOOSE o \in O : \A u \in O : o.no <= u.no IN Keep(O \ {o}, IF Meetable(K \cup {o}) THEN K \cup {o} ELSE K)
Trim(s) == LET O == {[o EXCEPT !.who = @ \cap Waiters(s, o.c)] : o \in s.owed} IN [s EXCEPT !.owed = UNION {Keep({o \in O : o.c = c /\ o.who # {}}, {}) : c \in {o.c : o \in O}}]

CanCall(s, t, f, m, c) == s.at[t].f = "idle" /\ (f \in {"unlock", "wait", "twait"} => s.own[m] = t)
Call(s, t, f, m, c, ms) ==
  LET a == [s EXCEPT !.at[t] = [f |-> f, m |-> m, c |-> c, dl |-> s.clk + ms, seen |-> FALSE]]
      b == IF f \in {"unlock", "wait", "twait"} THEN [a EXCEPT !.own[m] = 0] ELSE a
      n == Cardinality(Waiters(b, c))
      k == Cardinality(Owed(b, c))
      d == IF f = "notify" /\ k < n THEN [b EXCEPT !.owed = @ \cup {[c |-> c, who |-> Waiters(b, c), no |-> b.no]}, !.no = @ + 1]
           ELSE IF f = "all" THEN [b EXCEPT !.owed = {o \in @ : o.c # c} \cup {[c |-> c, who |-> {w}, no |-> b.no + w] : w \in Waiters(b, c)}, !.no = @ + 100]
           ELSE b
  IN Look(d)
\* the states after the return of f with result r
Rets(s, t, r) ==
  LET f == s.at[t].f  m == s.at[t].m  c == s.at[t].c
      back(x) == Look(Trim([x EXCEPT !.at[t] = Idle]))
      take == [s EXCEPT !.own[m] = t]
  IN CASE f \in {"lock"} -> IF r = 1 /\ s.own[m] = 0 THEN {back(take)} ELSE {}
       [] f = "try" -> IF r = 1 THEN IF s.own[m] = 0 THEN {back(take)} ELSE {} ELSE IF s.at[t].seen THEN {back(s)} ELSE {}
       [] f = "wait" -> IF r = 1 /\ s.own[m] = 0 THEN {back([take EXCEPT !.owed = @ \ {o}]) : o \in {o \in Owed(s, c) : t \in o.who}} ELSE {}
       [] f = "twait" -> IF s.own[m] # 0 THEN {}
                         ELSE IF r = 1 THEN {back([take EXCEPT !.owed = @ \ {o}]) : o \in {o \in Owed(s, c) : t \in o.who}}
                         ELSE IF s.clk + Slack >= s.at[t].dl THEN {back(take)} ELSE {}
       [] f = "sleep" -> IF s.clk + Slack >= s.at[t].dl THEN {back(s)} ELSE {}
       [] f = "ticks" -> IF r = s.clk THEN {back(s)} ELSE {}
       [] OTHER -> IF r = 1 THEN {back(s)} ELSE {}
\* when nobody can go on, the clock may go to the next deadline, and not past it
CanJump(s, clk) ==
  LET T == {t \in DOMAIN s.at : s.at[t].f \in {"twait", "sleep"}}
  IN /\ clk >= s.clk /\ T # {}
     \* a thread whose wait is over may still have to wait for the lock
     /\ \A t \in T : clk <= s.at[t].dl + 10 \/ (s.at[t].f = "twait" /\ s.own[s.at[t].m] # 0)
\* threads that stay blocked for ever, T, are rightly so: they wait un-notified, or for a lock whose holder has left it locked
StuckOk(s, T) == \A t \in T :
  \/ s.at[t].f = "lock" /\ s.own[s.at[t].m] # 0
  \/ s.at[t].f = "wait" /\ (s.own[s.at[t].m] # 0 \/ ~\E o \in Owed(s, s.at[t].c) : t \in o.who)
  \/ s.at[t].f = "twait" /\ s.own[s.at[t].m] # 0
Clocked(s, clk) == [s EXCEPT !.clk = clk]
MonInv(s) == /\ \A o \in s.owed : o.who # {} /\ o.who \subseteq Waiters(s, o.c)
             /\ \A c \in {o.c : o \in s.owed} : Cardinality(Owed(s, c)) <= Cardinality(Waiters(s, c))
             /\ \A m \in DOMAIN s.own : s.own[m] # 0 => s.own[m] \in DOMAIN s.at
=============================================================================
