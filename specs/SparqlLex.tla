------------------------------- MODULE SparqlLex -------------------------------
(* The tokens of a query text.  A text is a sequence of character codes; reading at position p gives a token: its kind k,
   its text b..n-1, its value s..e-1 (without delimiters), and the position n from which reading goes on. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Chars == 0..255
Wss == {9, 10, 12, 13, 32}
Eols == {10, 13}
Digits == 48..57
Uppers == 65..90
Alphas == Uppers \cup 97..122
NameChars == Digits \cup Alphas \cup {95}
Ws(c) == c \in Wss
Upper(c) == c \in Uppers
\* the first position from p on that is not in S
RECURSIVE While(_, _, _)
While(T, p, S) == IF p <= Len(T) /\ T[p] \in S THEN While(T, p + 1, S) ELSE p
\* the first position from p on whose character is in S, where a backslash takes the next character along
RECURSIVE Escaped(_, _, _)
Escaped(T, p, S) == IF p > Len(T) THEN p
                       ELSE IF T[p] = 92 THEN IF p = Len(T) THEN p + 1 ELSE Escaped(T, p + 2, S)
                       ELSE IF T[p] \in S THEN p ELSE Escaped(T, p + 1, S)
RECURSIVE Skip(_, _)
Skip(T, p) == IF p > Len(T) THEN p
              ELSE IF Ws(T[p]) THEN Skip(T, p + 1)
              ELSE IF T[p] = 35 THEN LET q == While(T, p, Chars \ Eols) IN Skip(T, IF q > Len(T) THEN q ELSE q + 1)
              ELSE p
At(T, p) == IF p <= Len(T) THEN T[p] ELSE 0
Single == [c \in {58, 59, 44, 46, 95, 123, 125, 40, 41, 64, 43, 45, 42, 47, 61, 93} |->
  CASE c = 58 -> "Colon" [] c = 59 -> "Semicolon" [] c = 44 -> "Comma" [] c = 46 -> "Dot" [] c = 95 -> "Underscore" [] c = 123 -> "LCurly" [] c = 125 -> "RCurly"
    [] c = 40 -> "LParen" [] c = 41 -> "RParen" [] c = 64 -> "At" [] c = 43 -> "Plus" [] c = 45 -> "Minus" [] c = 42 -> "Mul" [] c = 47 -> "Div" [] c = 61 -> "Equal" [] OTHER -> "RBracket"]
\* what a character between < and > cannot be
NotIris == {60, 62, 34, 123, 125, 94, 124, 96} \cup 0..32
T0(k, b, s, e, n) == [k |-> k, b |-> b, s |-> s, e |-> e, n |-> n]
Plain(k, b, n) == T0(k, b, b, n, n)
Two(T, b, second, yes, no) == IF At(T, b + 1) = second THEN Plain(yes, b, b + 2) ELSE Plain(no, b, b + 1)
Number(T, b) ==
  LET i == While(T, b, Digits)
  IN IF At(T, i) = 46 THEN Plain("Decimal", b, While(T, i + 1, Digits)) ELSE Plain("Integer", b, i)
\* an identifier does not end with a dot
RECURSIVE Undot(_, _)
Undot(T, q) == IF T[q - 1] = 46 THEN Undot(T, q - 1) ELSE q
Ident(T, b) == Plain("Identifier", b, Undot(T, While(T, b, NameChars \cup {45, 46})))
Quoted(T, b) == LET q == Escaped(T, b + 1, {T[b]})
                IN IF q > Len(T) THEN Plain("Error", b, q) ELSE T0("String", b, b + 1, q, q + 1)
Angle(T, b) == LET q == Escaped(T, b + 1, NotIris)
               IN IF At(T, q) = 62 THEN T0("IRI", b, b + 1, q, q + 1) ELSE Two(T, b, 61, "LessOrEqual", "Less")
Var(T, b) == LET q == While(T, b + 1, NameChars) IN IF q = b + 1 THEN Plain("Error", b, q) ELSE T0("Variable", b, b + 1, q, q)
Bracket(T, b) == LET q == While(T, b + 1, Wss) IN IF At(T, q) = 93 THEN Plain("Anon", b, q + 1) ELSE Plain("LBracket", b, b + 1)
Tok(T, p) ==
  LET b == Skip(T, p)  c == At(T, b)
  IN CASE b > Len(T) -> T0("Eof", b, b, b, b)
       [] c \in DOMAIN Single -> Plain(Single[c], b, b + 1)
       [] c = 33 -> Two(T, b, 61, "NotEqual", "Not")
       [] c = 62 -> Two(T, b, 61, "GreaterOrEqual", "Greater")
       [] c = 94 -> Two(T, b, 94, "Type", "Error")
       [] c = 124 -> Two(T, b, 124, "Or", "Error")
       [] c = 38 -> Two(T, b, 38, "And", "Error")
       [] c = 91 -> Bracket(T, b)
       [] c = 60 -> Angle(T, b)
       [] c \in {34, 39} -> Quoted(T, b)
       [] c \in {36, 63} -> Var(T, b)
       [] c \in Digits -> Number(T, b)
       [] c \in Alphas -> Ident(T, b)
       [] OTHER -> Plain("Error", b, b + 1)
Value(T, t) == SubSeq(T, t.s, t.e - 1)
\* a backslash gives the next character; in a literal some letters name control characters
Control(c) == CASE c = 116 -> 9 [] c = 98 -> 8 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 102 -> 12 [] OTHER -> c
RECURSIVE Unescape(_, _, _)
Unescape(s, lit, out) == IF s = << >> THEN out
                         ELSE IF s[1] = 92 THEN IF Len(s) = 1 THEN out ELSE Unescape(SubSeq(s, 3, Len(s)), lit, Append(out, IF lit THEN Control(s[2]) ELSE s[2]))
                         ELSE Unescape(Tail(s), lit, Append(out, s[1]))
Lower(s) == [i \in 1..Len(s) |-> IF Upper(s[i]) THEN s[i] + 32 ELSE s[i]]
Keyword(T, t, w) == t.k = "Identifier" /\ Lower(Value(T, t)) = Lower(w)
\* all tokens, up to the end or the first error
RECURSIVE Lex(_, _, _)
Lex(T, p, out) == LET t == Tok(T, p) IN IF t.k \in {"Eof", "Error"} THEN Append(out, t) ELSE Lex(T, t.n, Append(out, t))
Tokens(T) == TLCEval(Lex(T, 1, << >>))
================================================================================
