--------------------------------- MODULE Util ---------------------------------
(* The data types of the shared utilities.  All text is a sequence of bytes. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Dig(c) == c >= 48 /\ c <= 57
\* ---------------------------------------------------------------- decimal texts of any length
White(c) == c = 32 \/ (c >= 9 /\ c <= 13)
RECURSIVE Skip(_, _)
Skip(s, i) == IF i <= Len(s) /\ White(s[i]) THEN Skip(s, i + 1) ELSE i
RECURSIVE DigEnd(_, _)
DigEnd(s, i) == IF i <= Len(s) /\ Dig(s[i]) THEN DigEnd(s, i + 1) ELSE i
RECURSIVE NoZeros(_)
NoZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN NoZeros(Tail(d)) ELSE d
RECURSIVE LexLe(_, _)
LexLe(a, b) == a = << >> \/ a[1] < b[1] \/ (a[1] = b[1] /\ LexLe(Tail(a), Tail(b)))
MagLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLe(a, b))
MAXINT == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
MAXLONG == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>
Inc(d) == SubSeq(d, 1, Len(d) - 1) \o <<d[Len(d)] + 1>>
None == <<0>>
\* the number at the start of a text, in its plainest form, or None
Number(s, max) ==
  LET i == Skip(s, 1)  neg == i <= Len(s) /\ s[i] = 45  j == IF i <= Len(s) /\ s[i] \in {43, 45} THEN i + 1 ELSE i
      k == DigEnd(s, j)  d == IF k = j THEN << >> ELSE NoZeros(SubSeq(s, j, k - 1))
  IN IF d = << >> THEN None ELSE IF ~MagLe(d, IF neg THEN Inc(max) ELSE max) THEN None ELSE IF neg /\ d # <<48>> THEN <<45>> \o d ELSE d
Typed(how, s) == CASE how = "str" -> s [] how = "int" -> Number(s, MAXINT) [] how = "long" -> Number(s, MAXLONG)
                   [] how = "bool" -> LET n == Number(s, MAXINT) IN IF n = None THEN None ELSE IF n = <<48>> THEN <<48>> ELSE <<49>>
\* ---------------------------------------------------------------- URLs
HexD(c) == Dig(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexV(c) == IF Dig(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
RECURSIVE Une(_, _)
Une(s, i) == IF i > Len(s) THEN << >>
             ELSE IF s[i] = 37 /\ i + 2 <= Len(s) /\ HexD(s[i + 1]) /\ HexD(s[i + 2]) THEN <<HexV(s[i + 1]) * 16 + HexV(s[i + 2])>> \o Une(s, i + 3)
             ELSE <<IF s[i] = 43 THEN 32 ELSE s[i]>> \o Une(s, i + 1)
Unescape(s) == Une(s, 1)
Plain(c) == Dig(c) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c \in {45, 95, 46, 126}
HexU(v) == IF v < 10 THEN 48 + v ELSE 55 + v
Escape(s) == FlattenSeq([i \in 1..Len(s) |-> IF Plain(s[i]) THEN <<s[i]>> ELSE <<37, HexU(s[i] \div 16), HexU(s[i] % 16)>>])
Lower(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
\* first position from i on where one of cs stands, or past the end
RECURSIVE Find(_, _, _)
Find(s, i, cs) == IF i > Len(s) THEN i ELSE IF s[i] \in cs THEN i ELSE Find(s, i + 1, cs)
RECURSIVE FindSub(_, _, _)
FindSub(s, i, x) == IF i + Len(x) - 1 > Len(s) THEN 0 ELSE IF SubSeq(s, i, i + Len(x) - 1) = x THEN i ELSE FindSub(s, i + 1, x)
RECURSIVE ToNat(_)
ToNat(d) == IF d = << >> THEN 0 ELSE ToNat(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)] - 48
Url(s) == LET p == FindSub(s, 1, <<58, 47, 47>>) IN
  IF p = 0 THEN [protocol |-> Lower(s), host |-> << >>, port |-> 80, path |-> << >>, query |-> << >>]
  ELSE LET a == p + 3  e == Find(s, a, {47, 63})  c == Find(SubSeq(s, 1, e - 1), a, {58})  q == Find(s, e, {63}) IN
       [protocol |-> Lower(SubSeq(s, 1, p - 1)), host |-> Lower(SubSeq(s, a, c - 1)), port |-> IF c < e THEN ToNat(SubSeq(s, c + 1, e - 1)) ELSE 80,
        path |-> SubSeq(s, e, q - 1), query |-> SubSeq(s, q + 1, Len(s))]
\* ---------------------------------------------------------------- JSON texts
\* values: [k |-> "s", v], [k |-> "n", v] (any other scalar), [k |-> "a", e (sequence)], [k |-> "o", f (sequence of <<name, value>>)]
Utf8(u) == IF u < 128 THEN <<u>> ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
           ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
           ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
J0 == [m |-> "v", v |-> << >>, h |-> 0, k |-> 0, hi |-> 0, st |-> <<[f |-> "top", r |-> << >>]>>, err |-> FALSE]
JTop(s) == s.st[Len(s.st)]
JPut(s, x) == [s EXCEPT !.st = [@ EXCEPT ![Len(@)] = x]]
JPop(s) == [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
JBad(s) == [s EXCEPT !.err = TRUE]
JGive(s, x) == LET t == JTop(s) IN          \* a value is complete
  CASE t.f = "top" -> [JPut(s, [t EXCEPT !.r = <<x>>]) EXCEPT !.m = "end", !.v = << >>]
    [] t.f = "arr" -> [JPut(s, [t EXCEPT !.e = Append(@, x)]) EXCEPT !.m = ",", !.v = << >>]
    [] t.f = "obj" -> [JPut(s, [t EXCEPT !.e = Append(@, <<t.n, x>>)]) EXCEPT !.m = ",", !.v = << >>]
JClose(s, c) == LET t == JTop(s) IN
  IF t.f = "arr" /\ c = 93 THEN JGive(JPop(s), [k |-> "a", e |-> t.e]) ELSE IF t.f = "obj" /\ c = 125 THEN JGive(JPop(s), [k |-> "o", f |-> t.e]) ELSE JBad(s)
JStart(s, c) == CASE White(c) -> s
  [] c = 34 -> [s EXCEPT !.m = "s"]
  [] c = 91 -> [s EXCEPT !.m = "v]", !.st = Append(@, [f |-> "arr", e |-> << >>])]
  [] c = 123 -> [s EXCEPT !.m = "n}", !.st = Append(@, [f |-> "obj", e |-> << >>, n |-> << >>])]
  [] Dig(c) \/ c = 45 \/ (c >= 97 /\ c <= 122) -> [s EXCEPT !.m = "t", !.v = <<c>>]
  [] OTHER -> JBad(s)
JAfter(s, c) == CASE White(c) -> s
  [] c = 44 -> IF JTop(s).f = "obj" THEN [s EXCEPT !.m = "n"] ELSE [s EXCEPT !.m = "v"]
  [] OTHER -> JClose(s, c)
JAdd(s, cs) == IF s.hi # 0 THEN JBad(s) ELSE [s EXCEPT !.v = @ \o cs, !.m = "s"]
JEsc(s, c) == CASE c \in {34, 47, 92} -> JAdd(s, <<c>>) [] c = 98 -> JAdd(s, <<8>>) [] c = 102 -> JAdd(s, <<12>>) [] c = 110 -> JAdd(s, <<10>>) [] c = 114 -> JAdd(s, <<13>>) [] c = 116 -> JAdd(s, <<9>>)
                [] c = 117 -> [s EXCEPT !.m = "x", !.h = 0, !.k = 4] [] OTHER -> JBad(s)
JCode(s, u) == IF u >= 55296 /\ u < 56320 THEN (IF s.hi # 0 THEN JBad(s) ELSE [s EXCEPT !.hi = u, !.m = "s"])
               ELSE IF u >= 56320 /\ u < 57344 THEN (IF s.hi = 0 THEN JBad(s) ELSE [s EXCEPT !.v = @ \o Utf8(65536 + (s.hi - 55296) * 1024 + u - 56320), !.hi = 0, !.m = "s"])
               ELSE JAdd(s, Utf8(u))
JNumber(t) == \* -?(0|[1-9][0-9]*)(.[0-9]+)?([eE][+-]?[0-9]+)?
  LET a == IF t[1] = 45 THEN 2 ELSE 1  b == DigEnd(t, a)
      f == IF b <= Len(t) /\ t[b] = 46 THEN DigEnd(t, b + 1) ELSE b
      g == IF f <= Len(t) /\ t[f] \in {69, 101} THEN (IF f + 1 <= Len(t) /\ t[f + 1] \in {43, 45} THEN f + 2 ELSE f + 1) ELSE f
      h == IF g > f THEN DigEnd(t, g) ELSE g
  IN b > a /\ (t[a] = 48 => b = a + 1) /\ (f > b => f > b + 1) /\ (g > f => h > g) /\ h = Len(t) + 1
JTok(s) == IF s.v \in {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<110, 117, 108, 108>>} \/ JNumber(s.v) THEN JGive(s, [k |-> "n", v |-> s.v]) ELSE JBad(s)
JString(s) == IF s.hi # 0 THEN JBad(s) ELSE IF JTop(s).f = "obj" /\ JTop(s).n = << >> THEN s ELSE s
JStep(s, c) == IF s.err THEN s ELSE
  CASE s.m = "v" -> JStart(s, c)
    [] s.m = "v]" -> IF c = 93 THEN JClose(s, c) ELSE JStart(s, c)
    [] s.m \in {"n", "n}"} -> IF White(c) THEN s ELSE IF c = 34 THEN [s EXCEPT !.m = "s", !.st = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.f = "name"]]] ELSE IF c = 125 /\ s.m = "n}" THEN JClose(s, c) ELSE JBad(s)
    [] s.m = "s" -> IF c = 34 THEN (IF s.hi # 0 THEN JBad(s) ELSE IF JTop(s).f = "name" THEN [JPut(s, [JTop(s) EXCEPT !.f = "obj", !.n = s.v]) EXCEPT !.m = ":", !.v = << >>] ELSE JGive(s, [k |-> "s", v |-> s.v]))
                    ELSE IF c = 92 THEN [s EXCEPT !.m = "e"] ELSE IF c < 32 THEN JBad(s) ELSE JAdd(s, <<c>>)
    [] s.m = "e" -> JEsc(s, c)
    [] s.m = "x" -> IF ~HexD(c) THEN JBad(s) ELSE LET h == s.h * 16 + HexV(c) IN IF s.k = 1 THEN JCode(s, h) ELSE [s EXCEPT !.h = h, !.k = @ - 1]
    [] s.m = ":" -> IF White(c) THEN s ELSE IF c = 58 THEN [s EXCEPT !.m = "v"] ELSE JBad(s)
    [] s.m = "," -> JAfter(s, c)
    [] s.m = "t" -> IF Dig(c) \/ c \in {43, 45, 46, 69} \/ (c >= 97 /\ c <= 122) THEN [s EXCEPT !.v = Append(@, c)] ELSE LET q == JTok(s) IN IF q.err THEN q ELSE IF q.m = "end" THEN (IF White(c) THEN q ELSE JBad(q)) ELSE JAfter(q, c)
    [] s.m = "end" -> IF White(c) THEN s ELSE JBad(s)
JParse(t) == LET s == FoldLeft(JStep, J0, t)  e == IF s.err THEN s ELSE IF s.m = "t" THEN JTok(s) ELSE s IN
  IF e.err \/ e.m # "end" THEN [ok |-> FALSE, v |-> << >>] ELSE [ok |-> TRUE, v |-> JTop(e).r[1]]
\* two values say the same: the order of the members of an object does not matter
RECURSIVE JSame(_, _)
JSame(a, b) == /\ a.k = b.k
               /\ CASE a.k \in {"s", "n"} -> a.v = b.v
                    [] a.k = "a" -> Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : JSame(a.e[i], b.e[i])
                    [] a.k = "o" -> Len(a.f) = Len(b.f) /\ \A i \in 1..Len(a.f) : \E j \in 1..Len(b.f) : a.f[i][1] = b.f[j][1] /\ JSame(a.f[i][2], b.f[j][2])
\* how the JSON class holds a value: every scalar as text, an empty array as an empty object
JText(t) == CASE t = <<116, 114, 117, 101>> -> <<49>> [] t = <<102, 97, 108, 115, 101>> -> <<48>> [] t = <<110, 117, 108, 108>> -> <<78, 85, 76, 76>> [] OTHER -> t
RECURSIVE JHeld(_)
JHeld(a) == CASE a.k = "s" -> a [] a.k = "n" -> [k |-> "s", v |-> JText(a.v)]
              [] a.k = "a" -> IF a.e = << >> THEN [k |-> "o", f |-> << >>] ELSE [a EXCEPT !.e = [i \in 1..Len(@) |-> JHeld(@[i])]]
              [] a.k = "o" -> [a EXCEPT !.f = [i \in 1..Len(@) |-> <<@[i][1], JHeld(@[i][2])>>]]
\* a JSON text, for the model
Quote(v) == <<34>> \o FlattenSeq([i \in 1..Len(v) |-> IF v[i] < 32 \/ v[i] \in {34, 92} THEN <<92, 117, 48, 48, HexU(v[i] \div 16), HexU(v[i] % 16)>> ELSE <<v[i]>>]) \o <<34>>
RECURSIVE JWrite(_)
Commas(q) == FlattenSeq([i \in 1..Len(q) |-> IF i = 1 THEN q[i] ELSE <<44, 32>> \o q[i]])
JWrite(a) == CASE a.k = "s" -> Quote(a.v) [] a.k = "n" -> a.v [] a.k = "a" -> <<91>> \o Commas([i \in 1..Len(a.e) |-> JWrite(a.e[i])]) \o <<93>>
               [] a.k = "o" -> <<123>> \o Commas([i \in 1..Len(a.f) |-> Quote(a.f[i][1]) \o <<32, 58>> \o JWrite(a.f[i][2])]) \o <<125>>
\* ---------------------------------------------------------------- HTTP
CRLF == <<13, 10>>
CLEN == <<99, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104, 58>>
CHUNKED == <<116, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103, 58, 32, 99, 104, 117, 110, 107, 101, 100>>
HeadEnd(s) == FindSub(s, 1, CRLF \o CRLF)
BodyLen(head) == LET p == FindSub(Lower(head), 1, CRLF \o CLEN) IN IF p = 0 THEN 0 ELSE LET a == Skip(head, p + 17) IN ToNat(SubSeq(head, a, DigEnd(head, a) - 1))
\* the messages of a stream: [msgs, rest]
RECURSIVE Messages(_)
Messages(s) == LET h == HeadEnd(s)  n == IF h = 0 THEN 0 ELSE h + 3 + BodyLen(SubSeq(s, 1, h - 1)) IN
               IF h = 0 \/ n > Len(s) THEN [msgs |-> << >>, rest |-> s]
               ELSE LET r == Messages(SubSeq(s, n + 1, Len(s))) IN [msgs |-> <<SubSeq(s, 1, n)>> \o r.msgs, rest |-> r.rest]
RECURSIVE HexNat(_)
HexNat(d) == IF d = << >> THEN 0 ELSE HexNat(SubSeq(d, 1, Len(d) - 1)) * 16 + HexV(d[Len(d)])
RECURSIVE HexEnd(_, _)
HexEnd(s, i) == IF i <= Len(s) /\ HexD(s[i]) THEN HexEnd(s, i + 1) ELSE i
RECURSIVE Chunks(_, _)
Chunks(s, i) == LET n == HexNat(SubSeq(s, i, HexEnd(s, i) - 1))  a == FindSub(s, i, CRLF) + 2 IN IF n = 0 THEN << >> ELSE SubSeq(s, a, a + n - 1) \o Chunks(s, a + n + 2)
\* what a client gets from the bytes of a response
Response(s) == LET h == HeadEnd(s)  head == SubSeq(s, 1, h - 1) IN
  [head |-> head, body |-> IF FindSub(Lower(head), 1, CHUNKED) # 0 THEN Chunks(s, h + 4) ELSE SubSeq(s, h + 4, h + 3 + BodyLen(head)), ok |-> SubSeq(s, 10, 12) = <<50, 48, 48>>]
\* what a client sends; the port is spelt PORT.  q: [get, path, accept, params (sequence of <<name, value>>), ctype]
Str1 == [sp |-> <<32>>, get |-> <<71, 69, 84, 32>>, post |-> <<80, 79, 83, 84, 32>>, host |-> <<32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 72, 111, 115, 116, 58, 32, 49, 50, 55, 46, 48, 46, 48, 46, 49, 58, 80, 79, 82, 84>>,
         accept |-> <<13, 10, 65, 99, 99, 101, 112, 116, 58, 32>>, ctype |-> <<13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 84, 121, 112, 101, 58, 32>>, clen |-> <<13, 10, 67, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104, 58, 32>>]
RECURSIVE FromNat(_)
FromNat(n) == IF n < 10 THEN <<48 + n>> ELSE FromNat(n \div 10) \o <<48 + (n % 10)>>
Form(ps) == FlattenSeq([i \in 1..Len(ps) |-> (IF i = 1 THEN << >> ELSE <<38>>) \o (IF ps[i][1] = << >> THEN ps[i][2] ELSE ps[i][1] \o <<61>> \o ps[i][2])])
Request(q) == IF q.get THEN Str1.get \o q.path \o Str1.host \o (IF q.accept = << >> THEN << >> ELSE Str1.accept \o q.accept) \o CRLF \o CRLF
              ELSE LET b == Form(q.params) IN Str1.post \o q.path \o Str1.host \o Str1.ctype \o q.ctype \o Str1.clen \o FromNat(Len(b)) \o CRLF \o CRLF \o b
\* ---------------------------------------------------------------- collections
Sorted(q) == \A i \in 1..(Len(q) - 1) : q[i] <= q[i + 1]
Bag(q) == [x \in ToSet(q) |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
RECURSIVE MergeBags(_)
IsSubseq(a, b) == LET idx == FoldLeft(LAMBDA acc, x : IF acc <= Len(a) /\ a[acc] = x THEN acc + 1 ELSE acc, 1, b) IN idx = Len(a) + 1
MergeBags(qs) == IF qs = << >> THEN << >> ELSE Head(qs) \o MergeBags(Tail(qs))
=============================================================================
