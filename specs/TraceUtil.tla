------------------------------ MODULE TraceUtil ------------------------------
EXTENDS TraceBase, Util
VARIABLES conf,     \* object -> (key -> text)
          file      \* name -> bytes
vars == <<conf, file>>
TraceInit == TraceStart /\ conf = << >> /\ file = << >>
Keep == UNCHANGED vars
J(x) == x        \* values arrive as the records of the specification
\* memory: bytes written into a file at an offset
Patch(f, at, b) == [i \in 1..Len(f) |-> IF i > at /\ i <= at + Len(b) THEN b[i - at] ELSE f[i]]
TraceNext ==
  \* ---- configuration maps
  \/ Is("cnew") /\ conf' = (Ev.o :> [k \in {Ev.init[i][1][1] : i \in 1..Len(Ev.init)} |-> (CHOOSE e \in ToSet(Ev.init) : e[1][1] = k)[2]]) @@ conf /\ UNCHANGED file
  \/ Is("ccopy") /\ conf' = (Ev.to :> conf[Ev.o]) @@ conf /\ UNCHANGED file
  \/ Is("cset") /\ conf' = [conf EXCEPT ![Ev.o] = (Ev.k :> (IF Ev.how = "str" THEN Ev.v ELSE Typed(Ev.how, Ev.v))) @@ @] /\ UNCHANGED file
  \/ Is("cget") /\ Keep /\ LET has == Ev.k \in DOMAIN conf[Ev.o]
                               want == IF has THEN Typed(Ev.how, conf[Ev.o][Ev.k]) ELSE IF Ev.hasdef THEN Ev.dflt ELSE None
                           IN IF want = None THEN Ev.threw ELSE ~Ev.threw /\ Ev.v = want
  \* ---- texts
  \/ Is("esc") /\ Keep /\ Ev.r = Escape(Ev.s)
  \/ Is("une") /\ Keep /\ Ev.r = Unescape(Ev.s)
  \/ Is("url") /\ Keep /\ LET u == Url(Ev.s) IN Ev.protocol = u.protocol /\ Ev.host = u.host /\ Ev.port = u.port /\ Ev.path = u.path /\ Ev.query = u.query
  \/ Is("jw") /\ Keep /\ LET p == JParse(Ev.text) IN p.ok /\ JSame(p.v, JHeld(Ev.v))
  \/ Is("jr") /\ Keep /\ LET p == JParse(Ev.text) IN IF ~p.ok THEN Ev.threw ELSE ~Ev.threw /\ LET q == JParse(Ev.out) IN q.ok /\ JSame(q.v, JHeld(p.v))
  \/ Is("lf") /\ Keep /\ LET bad == \E i \in 1..Len(Ev.lines) : Number(Ev.lines[i], MAXLONG) = None
                         IN IF bad THEN Ev.threw ELSE ~Ev.threw /\ Ev.r = [i \in 1..Len(Ev.lines) |-> Number(Ev.lines[i], MAXLONG)]
  \/ Is("lp") /\ Keep /\ LET cut(x) == Find(x, 1, {Ev.sep})
                             a(x) == Number(SubSeq(x, 1, cut(x) - 1), MAXLONG)  b(x) == Number(SubSeq(x, cut(x) + 1, Len(x)), MAXLONG)
                             bad == \E i \in 1..Len(Ev.lines) : a(Ev.lines[i]) = None \/ b(Ev.lines[i]) = None
                         IN IF bad THEN Ev.threw ELSE ~Ev.threw /\ Ev.r = FlattenSeq([i \in 1..Len(Ev.lines) |-> <<a(Ev.lines[i]), b(Ev.lines[i])>>])
  \* ---- HTTP: the requests that the handler got, the answers that arrived
  \/ Is("srv") /\ Keep /\ LET m == Messages(MergeBags(Ev.segs)) IN Ev.got = m.msgs /\ Ev.answers = [i \in 1..Len(m.msgs) |-> Ev.reply]
  \/ Is("cli") /\ Keep /\ LET r == Response(MergeBags(Ev.segs)) IN
        /\ Ev.sent = Request(Ev.req)
        /\ (IF r.ok THEN Ev.r /\ Ev.head = r.head /\ Ev.body = r.body ELSE ~Ev.r)
  \* ---- files in memory
  \/ Is("fnew") /\ file' = (Ev.f :> Ev.b) @@ file /\ UNCHANGED conf
  \/ Is("fput") /\ file' = [file EXCEPT ![Ev.f] = Patch(@, Ev.at, Ev.b)] /\ UNCHANGED conf
  \/ Is("fget") /\ Keep /\ Ev.len = Ev.b2len /\ Ev.b = SubSeq(file[Ev.f], Ev.from + 1, Ev.from + Ev.len)
  \* ---- parallel tasks
  \/ Is("sort") /\ Keep /\ Bag(Ev.r) = Bag(Ev.a) /\ (IF Ev.desc THEN Sorted(Reverse(Ev.r)) ELSE Sorted(Ev.r))
  \/ Is("pfor") /\ Keep /\ Ev.r = [i \in 1..Len(Ev.r) |-> IF i - 1 >= Ev.from /\ i - 1 < Ev.to THEN 1 ELSE 0]
  \/ Is("queue") /\ Keep                    \* everything once; what one producer put comes out in order at every consumer
        /\ Bag(MergeBags(Ev.out)) = Bag(MergeBags(Ev.in)) /\ Ev.empty
        /\ \A i \in 1..Len(Ev.in) : \A j \in 1..Len(Ev.out) : IsSubseq(SelectSeq(Ev.out[j], LAMBDA x : x \in ToSet(Ev.in[i])), Ev.in[i])
  \/ Is("end") /\ Keep
=============================================================================
