-------------------------------- MODULE Turtle --------------------------------
(* Turtle documents.  Text (a sequence of bytes) is read by a machine over characters, which gives tokens; tokens are read by a
   machine with a stack, which gives triples.  Both are written as step functions, so that a document is a run of them.
   A term is [ty, v, sub, b]: the type, the value, the language or datatype, and for a blank node (b # <<>>) which one it is.
   Documented choices: a URI is absolute iff "://" occurs near its start, a relative one is put behind the base; a dot belongs
   to a number iff a digit or an exponent follows; a stands for rdf:type everywhere. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
\* ---------------------------------------------------------------- characters
Up(c) == c >= 65 /\ c <= 90
Lo(c) == c >= 97 /\ c <= 122
Dig(c) == c >= 48 /\ c <= 57
NStart(c) == Up(c) \/ Lo(c) \/ c = 95
NChar(c) == NStart(c) \/ Dig(c) \/ c = 45
Hex(c) == Dig(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF Dig(c) THEN c - 48 ELSE IF Up(c) THEN c - 55 ELSE c - 87
Utf8(u) == IF u < 128 THEN <<u>>
           ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
           ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
           ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
Tok(t, v) == [t |-> t, v |-> v, p |-> << >>]
Pn(p, v) == [t |-> "pn", v |-> v, p |-> p]
L0 == [m |-> "s", v |-> << >>, w |-> << >>, h |-> 0, k |-> 0, ret |-> "s", toks |-> << >>, err |-> FALSE]
Put(s, tok) == [s EXCEPT !.m = "s", !.v = << >>, !.w = << >>, !.toks = Append(@, tok)]
Go(s, m) == [s EXCEPT !.m = m]
Add(s, c) == [s EXCEPT !.v = Append(@, c)]
Bad(s) == [s EXCEPT !.err = TRUE]
Word(s) == IF s.v = <<97>> THEN Put(s, Tok("a", << >>)) ELSE IF s.v = <<116, 114, 117, 101>> THEN Put(s, Tok("bool", s.v))
           ELSE IF s.v = <<102, 97, 108, 115, 101>> THEN Put(s, Tok("bool", s.v)) ELSE Bad(s)
Local(s) == IF s.w = <<95>> THEN (IF s.v = << >> THEN Bad(s) ELSE Put(s, Tok("bl", s.v))) ELSE Put(s, Pn(s.w, s.v))
Start(s, c) ==
  CASE c \in {32, 9, 13, 10} -> s
    [] c = 35 -> Go(s, "c")
    [] c = 46 -> Go(s, ".")
    [] c = 58 -> Go(s, "l")
    [] c = 59 -> Put(s, Tok(";", << >>))
    [] c = 44 -> Put(s, Tok(",", << >>))
    [] c = 91 -> Put(s, Tok("[", << >>))
    [] c = 93 -> Put(s, Tok("]", << >>))
    [] c = 40 -> Put(s, Tok("(", << >>))
    [] c = 41 -> Put(s, Tok(")", << >>))
    [] c = 64 -> Go(s, "@")
    [] c \in {43, 45} -> Go(Add(s, c), "n0")
    [] Dig(c) -> Go(Add(s, c), "n1")
    [] c = 94 -> Go(s, "^")
    [] c = 34 -> Go(s, "q1")
    [] c = 60 -> Go(s, "u")
    [] NStart(c) -> Go(Add(s, c), "n")
    [] OTHER -> Bad(s)
EscVal(c) == CASE c = 116 -> 9 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 34 -> 34 [] c = 62 -> 62 [] c = 92 -> 92 [] OTHER -> -1
Escaped(s, c) == IF c = 117 THEN [s EXCEPT !.m = "x", !.h = 0, !.k = 4] ELSE IF c = 85 THEN [s EXCEPT !.m = "x", !.h = 0, !.k = 8]
                 ELSE IF EscVal(c) < 0 THEN Bad(s) ELSE Go(Add(s, EscVal(c)), s.ret)
NumTok(m) == CASE m = "n1" -> "int" [] m = "n2" -> "dec" [] m = "e2" -> "dbl"
Exp(c) == c \in {69, 101}
Body(s, c) ==      \* inside a string
  IF c = 92 THEN [s EXCEPT !.ret = s.m, !.m = "\\"] ELSE Add(s, c)
Lex(s, c) == IF s.err THEN s ELSE
  CASE s.m = "s" -> Start(s, c)
    [] s.m = "c" -> IF c \in {10, 13} THEN Go(s, "s") ELSE s
    [] s.m = "." -> IF Dig(c) THEN Go([s EXCEPT !.v = <<46, c>>], "n2") ELSE Start(Put(s, Tok(".", << >>)), c)
    [] s.m = "n" -> IF NChar(c) THEN Add(s, c) ELSE IF c = 58 THEN [s EXCEPT !.m = "l", !.w = s.v, !.v = << >>] ELSE LET q == Word(s) IN IF q.err THEN q ELSE Start(q, c)
    [] s.m = "l" -> IF (IF s.v = << >> THEN NStart(c) ELSE NChar(c)) THEN Add(s, c) ELSE LET q == Local(s) IN IF q.err THEN q ELSE Start(q, c)
    [] s.m = "@" -> IF (IF s.v = << >> THEN NStart(c) ELSE NChar(c)) THEN Add(s, c) ELSE IF s.v = << >> THEN Bad(s) ELSE Start(Put(s, Tok("at", s.v)), c)
    [] s.m = "^" -> IF c = 94 THEN Put(s, Tok("^^", << >>)) ELSE Bad(s)
    [] s.m = "u" -> IF c = 62 THEN Put(s, Tok("uri", s.v)) ELSE Body(s, c)
    [] s.m = "q1" -> IF c = 34 THEN Go(s, "q2") ELSE Body(Go(s, "q"), c)
    [] s.m = "q2" -> IF c = 34 THEN Go(s, "Q") ELSE Start(Put(s, Tok("str", << >>)), c)
    [] s.m = "q" -> IF c = 34 THEN Put(s, Tok("str", s.v)) ELSE Body(s, c)
    [] s.m = "Q" -> IF c = 34 THEN Go(s, "Q1") ELSE Body(s, c)
    [] s.m = "Q1" -> IF c = 34 THEN Go(s, "Q2") ELSE Body(Go(Add(s, 34), "Q"), c)
    [] s.m = "Q2" -> IF c = 34 THEN Put(s, Tok("str", s.v)) ELSE Body(Go(Add(Add(s, 34), 34), "Q"), c)
    [] s.m = "\\" -> Escaped(s, c)
    [] s.m = "x" -> IF ~Hex(c) THEN Bad(s) ELSE LET h == s.h * 16 + HexVal(c) IN IF s.k = 1 THEN [s EXCEPT !.m = s.ret, !.v = @ \o Utf8(h)] ELSE [s EXCEPT !.h = h, !.k = @ - 1]
    [] s.m = "n0" -> IF Dig(c) THEN Go(Add(s, c), "n1") ELSE IF c = 46 THEN Go(Add(s, c), "n3") ELSE Bad(s)
    [] s.m = "n3" -> IF Dig(c) THEN Go(Add(s, c), "n2") ELSE Bad(s)
    [] s.m = "n1" -> IF Dig(c) THEN Add(s, c) ELSE IF c = 46 THEN Go(s, "n4") ELSE IF Exp(c) THEN Go(Add(s, c), "e0") ELSE Start(Put(s, Tok("int", s.v)), c)
    [] s.m = "n4" -> IF Dig(c) THEN Go(Add(Add(s, 46), c), "n2") ELSE IF Exp(c) THEN Go(Add(Add(s, 46), c), "e0") ELSE Start(Put(Put(s, Tok("int", s.v)), Tok(".", << >>)), c)
    [] s.m = "n2" -> IF Dig(c) THEN Add(s, c) ELSE IF Exp(c) THEN Go(Add(s, c), "e0") ELSE Start(Put(s, Tok("dec", s.v)), c)
    [] s.m = "e0" -> IF Dig(c) THEN Go(Add(s, c), "e2") ELSE IF c \in {43, 45} THEN Go(Add(s, c), "e1") ELSE Bad(s)
    [] s.m = "e1" -> IF Dig(c) THEN Go(Add(s, c), "e2") ELSE Bad(s)
    [] s.m = "e2" -> IF Dig(c) THEN Add(s, c) ELSE Start(Put(s, Tok("dbl", s.v)), c)
LexEnd(s) == IF s.err THEN s ELSE IF s.m \in {"s", "c"} THEN s
             ELSE CASE s.m = "." -> Put(s, Tok(".", << >>)) [] s.m = "n" -> Word(s) [] s.m = "l" -> Local(s) [] s.m = "@" /\ s.v # << >> -> Put(s, Tok("at", s.v))
                    [] s.m = "q2" -> Put(s, Tok("str", << >>)) [] s.m = "n4" -> Put(Put(s, Tok("int", s.v)), Tok(".", << >>)) [] s.m \in {"n1", "n2", "e2"} -> Put(s, Tok(NumTok(s.m), s.v)) [] OTHER -> Bad(s)
\* the tokens of a text; a lexical error is a token of its own
Tokens(text) == LET s == LexEnd(FoldLeft(Lex, L0, text)) IN IF s.err THEN Append(s.toks, Tok("error", << >>)) ELSE s.toks
\* ---------------------------------------------------------------- the grammar
RDF == <<104, 116, 116, 112, 58, 47, 47, 119, 119, 119, 46, 119, 51, 46, 111, 114, 103, 47, 49, 57, 57, 57, 47, 48, 50, 47, 50, 50, 45, 114, 100, 102, 45, 115, 121, 110, 116, 97, 120, 45, 110, 115, 35>>
XSD == <<104, 116, 116, 112, 58, 47, 47, 119, 119, 119, 46, 119, 51, 46, 111, 114, 103, 47, 50, 48, 48, 49, 47, 88, 77, 76, 83, 99, 104, 101, 109, 97, 35>>
TYPE == RDF \o <<116, 121, 112, 101>>
FIRST == RDF \o <<102, 105, 114, 115, 116>>
REST == RDF \o <<114, 101, 115, 116>>
NIL == RDF \o <<110, 105, 108>>
PREFIX == <<112, 114, 101, 102, 105, 120>>
BASE == <<98, 97, 115, 101>>
XT(n) == XSD \o n
Uri(v) == [ty |-> "URI", v |-> v, sub |-> << >>, b |-> << >>]
Anon(n) == [ty |-> "URI", v |-> << >>, sub |-> << >>, b |-> <<0, n>>]
Named(l) == [ty |-> "URI", v |-> << >>, sub |-> << >>, b |-> <<1>> \o l]
Lit(ty, v, sub) == [ty |-> ty, v |-> v, sub |-> sub, b |-> << >>]
Typed(v, u) == CASE u = XT(<<115, 116, 114, 105, 110, 103>>) -> Lit("String", v, << >>)
                 [] u = XT(<<105, 110, 116, 101, 103, 101, 114>>) -> Lit("Integer", v, << >>)
                 [] u = XT(<<100, 101, 99, 105, 109, 97, 108>>) -> Lit("Decimal", v, << >>)
                 [] u = XT(<<100, 111, 117, 98, 108, 101>>) -> Lit("Double", v, << >>)
                 [] u = XT(<<98, 111, 111, 108, 101, 97, 110>>) -> Lit("Boolean", v, << >>)
                 [] OTHER -> Lit("CustomType", v, u)
HasScheme(u) == \E i \in 1..(IF Len(u) - 2 < 10 THEN Len(u) - 2 ELSE 10) : u[i] = 58 /\ u[i + 1] = 47 /\ u[i + 2] = 47
Abs(base, u) == IF base = << >> \/ HasScheme(u) THEN u ELSE base \o u
\* the state: the stack (top last), the triples of the statement being read, those of the complete statements
P0 == [st |-> <<[f |-> "stmt"]>>, cur |-> << >>, out |-> << >>, pre |-> {}, base |-> << >>, nb |-> 0, err |-> FALSE]
Top(s) == s.st[Len(s.st)]
Pop(s) == [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
Push(s, f) == [s EXCEPT !.st = Append(@, f)]
Repl(s, f) == Push(Pop(s), f)
PErr(s) == [s EXCEPT !.err = TRUE]
Tr(a, p, o) == [s |-> a, p |-> p, o |-> o]
\* a complete term arrives at the frame that waits for it
Deliver(s, x) == LET t == Top(s) IN
  CASE t.f = "stmt" -> IF x.ty = "URI" THEN Push(s, [f |-> "pred", s |-> x, close |-> ".", first |-> TRUE]) ELSE PErr(s)
    [] t.f = "obj" -> Repl([s EXCEPT !.cur = Append(@, Tr(t.s, t.p, x))], [f |-> "after", s |-> t.s, p |-> t.p, close |-> t.close])
    [] t.f = "coll" -> Repl(s, [t EXCEPT !.items = Append(@, x)])
Known(s, p) == \E e \in s.pre : e[1] = p
Expand(s, tok) == (CHOOSE e \in s.pre : e[1] = tok.p)[2] \o tok.v
Begins(s, tok) ==       \* a term is expected
  CASE tok.t = "uri" -> Deliver(s, Uri(Abs(s.base, tok.v)))
    [] tok.t = "pn" -> IF Known(s, tok.p) THEN Deliver(s, Uri(Expand(s, tok))) ELSE PErr(s)
    [] tok.t = "bl" -> Deliver(s, Named(tok.v))
    [] tok.t = "a" -> Deliver(s, Uri(TYPE))
    [] tok.t = "[" -> Push([s EXCEPT !.nb = @ + 1], [f |-> "pred", s |-> Anon(s.nb), close |-> "]", first |-> TRUE])
    [] tok.t = "(" -> Push(s, [f |-> "coll", items |-> << >>])
    [] tok.t = "int" -> Deliver(s, Lit("Integer", tok.v, << >>))
    [] tok.t = "dec" -> Deliver(s, Lit("Decimal", tok.v, << >>))
    [] tok.t = "dbl" -> Deliver(s, Lit("Double", tok.v, << >>))
    [] tok.t = "bool" -> Deliver(s, Lit("Boolean", tok.v, << >>))
    [] tok.t = "str" -> IF Top(s).f = "stmt" THEN PErr(s) ELSE Push(s, [f |-> "lit", v |-> tok.v])
    [] OTHER -> PErr(s)
Closed(s) ==            \* the closing token of a predicate list arrived
  LET t == Top(s)  r == Pop(s) IN
  IF t.close = "]" THEN Deliver(r, t.s) ELSE [r EXCEPT !.out = @ \o r.cur, !.cur = << >>]
Predicate(s, x) == LET t == Top(s) IN Repl(s, [f |-> "obj", s |-> t.s, p |-> x, close |-> t.close])
List(s) ==              \* a collection ends: its cells
  LET it == Top(s).items  n == Len(it)  r == Pop(s)
      cell(i) == IF i > n THEN Uri(NIL) ELSE Anon(s.nb + i - 1)
      cells == [j \in 1..(2 * n) |-> LET i == (j + 1) \div 2 IN IF (j % 2) = 1 THEN Tr(cell(i), Uri(FIRST), it[i]) ELSE Tr(cell(i), Uri(REST), cell(i + 1))]
  IN Deliver([r EXCEPT !.nb = @ + n, !.cur = @ \o cells], cell(1))
Step1(s, tok) == LET t == Top(s) IN
  CASE t.f = "stmt" -> IF tok.t = "at" THEN (IF tok.v = PREFIX THEN Push(s, [f |-> "dp"]) ELSE IF tok.v = BASE THEN Push(s, [f |-> "db"]) ELSE PErr(s)) ELSE Begins(s, tok)
    [] t.f = "dp" -> IF tok.t = "pn" /\ tok.v = << >> THEN Repl(s, [f |-> "du", p |-> tok.p]) ELSE PErr(s)
    [] t.f = "du" -> IF tok.t = "uri" THEN Repl([s EXCEPT !.pre = {e \in @ : e[1] # t.p} \cup {<<t.p, Abs(s.base, tok.v)>>}], [f |-> "dd"]) ELSE PErr(s)
    [] t.f = "db" -> IF tok.t = "uri" THEN Repl([s EXCEPT !.base = Abs(@, tok.v)], [f |-> "dd"]) ELSE PErr(s)
    [] t.f = "dd" -> IF tok.t = "." THEN Pop(s) ELSE PErr(s)
    [] t.f = "pred" ->
         CASE tok.t = "uri" -> Predicate(s, Uri(Abs(s.base, tok.v)))
           [] tok.t = "pn" -> IF Known(s, tok.p) THEN Predicate(s, Uri(Expand(s, tok))) ELSE PErr(s)
           [] tok.t = "a" -> Predicate(s, Uri(TYPE))
           [] tok.t = t.close /\ (~t.first \/ t.close = "]") -> Closed(s)       \* "[]", or ";" before the end
           [] OTHER -> PErr(s)
    [] t.f = "obj" -> Begins(s, tok)
    [] t.f = "coll" -> IF tok.t = ")" THEN List(s) ELSE Begins(s, tok)
    [] t.f = "after" ->
         CASE tok.t = "," -> Repl(s, [f |-> "obj", s |-> t.s, p |-> t.p, close |-> t.close])
           [] tok.t = ";" -> Repl(s, [f |-> "pred", s |-> t.s, close |-> t.close, first |-> FALSE])
           [] tok.t = t.close -> Closed(s)
           [] OTHER -> PErr(s)
    [] t.f = "dt" -> CASE tok.t = "uri" -> Deliver(Pop(s), Typed(t.v, Abs(s.base, tok.v)))
                       [] tok.t = "pn" -> IF Known(s, tok.p) THEN Deliver(Pop(s), Typed(t.v, Expand(s, tok))) ELSE PErr(s)
                       [] OTHER -> PErr(s)
Parse(s, tok) == IF s.err THEN s ELSE
  IF Top(s).f = "lit" THEN
    (IF tok.t = "at" THEN Deliver(Pop(s), Lit("CustomLanguage", Top(s).v, tok.v))
     ELSE IF tok.t = "^^" THEN Repl(s, [f |-> "dt", v |-> Top(s).v])
     ELSE Step1(Deliver(Pop(s), Lit("Literal", Top(s).v, << >>)), tok))
  ELSE Step1(s, tok)
Complete(s) == ~s.err /\ Len(s.st) = 1
Denote(toks) == FoldLeft(Parse, P0, toks)
\* what a text means: its triples up to the first error, and whether there is one
Meaning(text) == LET s == Denote(Tokens(text)) IN [out |-> s.out, ok |-> Complete(s)]
=============================================================================
