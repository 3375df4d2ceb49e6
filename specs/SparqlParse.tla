------------------------------ MODULE SparqlParse ------------------------------
(* The meaning of a query text: the structure it spells, or that it spells none.  Reading is by descent over the tokens.
   A result is [ok, v: what was read, i: the next token, av: the anonymous variables so far, in order].  A text that is
   ill-formed has no result (free = FALSE); where the language here is deliberately left open -- see the places marked
   Free -- any reading will do. *)
EXTENDS SparqlLex, SparqlWords, SequencesExt, Integers
Bad == [ok |-> FALSE, free |-> FALSE]
Free == [ok |-> FALSE, free |-> TRUE]
R(v, i, av) == [ok |-> TRUE, v |-> v, i |-> i, av |-> av]
(* X: the text's tokens k (kinds), v (values), w (in lower case), and pre: pairs <<name, iri>> *)
Is_(X, i, w) == X.k[i] = "Identifier" /\ X.w[i] = W[w]
OneOf(X, i, ws) == X.k[i] = "Identifier" /\ \E w \in ws : X.w[i] = W[w]
Known(X, name) == \E j \in 1..Len(X.pre) : X.pre[j][1] = name
Expand(X, name) == LET j == CHOOSE j \in 1..Len(X.pre) : X.pre[j][1] = name IN X.pre[j][2]
Lit(X, i) == Unescape(X.v[i], TRUE, << >>)
Iri(X, i) == Unescape(X.v[i], FALSE, << >>)

(* elements of patterns *)
El(t, n, x, y, k) == [t |-> t, n |-> n, x |-> x, y |-> y, k |-> k]
EVar(n) == El("var", n, 0, << >>, 0)
EAnon(k) == El("anon", << >>, 0, << >>, k)
EIri(n) == El("iri", n, 0, << >>, 0)
IsVar(e) == e.t \in {"var", "anon"}
Rank(av, key) == CHOOSE j \in 1..Len(av) : av[j] = key
Note(av, key) == IF \E j \in 1..Len(av) : av[j] = key THEN av ELSE Append(av, key)
\* a literal with what may follow it: R(<<value, 0 / 1 language / 2 type, its value>>)
Literal(X, i, av) ==
  CASE X.k[i + 1] = "At" -> IF X.k[i + 2] = "Identifier" THEN R(<<Lit(X, i), 1, X.v[i + 2]>>, i + 3, av) ELSE Bad
    [] X.k[i + 1] = "Type" ->
         IF X.k[i + 2] = "IRI" THEN R(<<Lit(X, i), 2, Iri(X, i + 2)>>, i + 3, av)
         ELSE IF X.k[i + 2] = "Identifier" /\ X.k[i + 3] = "Colon" /\ Known(X, X.v[i + 2]) /\ X.k[i + 4] = "Identifier"
         THEN R(<<Lit(X, i), 2, Expand(X, X.v[i + 2]) \o X.v[i + 4]>>, i + 5, av)
         ELSE IF X.k[i + 2] = "Identifier" /\ X.k[i + 3] = "Minus" THEN Free ELSE Bad
    [] OTHER -> R(<<Lit(X, i), 0, << >> >>, i + 1, av)
ElemStart == {"IRI", "Variable", "Identifier", "String", "Underscore", "Colon", "LBracket", "Anon"}

(* expressions *)
Fx(f, a, n, x, y, d, q, g) == [f |-> f, a |-> a, n |-> n, x |-> x, y |-> y, d |-> d, q |-> q, g |-> g]
\* up to four arguments, each there or not
Args(s) == [j \in 1..4 |-> IF j <= Len(s) THEN <<s[j]>> ELSE << >>]
F(f, s) == Fx(f, Args(s), << >>, 0, << >>, 0, << >>, << >>)
FLit(v, x, y) == Fx("lit", Args(<< >>), v, x, y, 0, << >>, << >>)
FIri(v) == Fx("iri", Args(<< >>), v, 0, << >>, 0, << >>, << >>)
FVar(v) == Fx("var", Args(<< >>), v, 0, << >>, 0, << >>, << >>)
RECURSIVE ArgList(_)
ArgList(s) == IF Len(s) = 1 THEN F("list", s) ELSE F("list", <<s[1], ArgList(Tail(s))>>)
Aggr == {"min", "max", "sum", "avg", "sample", "count", "group_concat"}
One == [str |-> "str", lang |-> "lang", datatype |-> "datatype", isiri |-> "isiri", isuri |-> "isiri", isblank |-> "isblank", isliteral |-> "isliteral"]
Casts == [decimal |-> "xsddecimal", double |-> "xsddecimal", float |-> "xsddecimal", string |-> "xsdstring"]
\* with a list of arguments: least and greatest number
Some == [contains |-> <<2, 2>>, langmatches |-> <<2, 2>>, sameterm |-> <<2, 2>>, regex |-> <<2, 3>>, replace |-> <<2, 4>>]
BinOps == <<[Or |-> "or"], [And |-> "and"],
            [Equal |-> "eq", NotEqual |-> "ne", Less |-> "lt", LessOrEqual |-> "le", Greater |-> "gt", GreaterOrEqual |-> "ge"],
            [Plus |-> "plus", Minus |-> "minus"], [Mul |-> "mul", Div |-> "div"]>>
RECURSIVE Level(_, _, _, _), Loop(_, _, _), ExprList(_, _, _, _), NotIn(_, _, _, _), Unary(_, _, _), Primary(_, _, _), BuiltIn(_, _, _), IriOrCall(_, _, _, _), Group(_, _, _), Items(_, _, _, _, _), Unions(_, _, _, _),
          Elem(_, _, _, _), Tail_(_, _, _, _, _, _, _), Query(_, _, _)
Expr(X, i, av) == Level(X, i, av, 1)
Bracketed(X, i, av) == IF X.k[i] # "LParen" THEN Bad
                       ELSE LET e == Expr(X, i + 1, av) IN IF ~e.ok THEN e ELSE IF X.k[e.i] = "RParen" THEN R(e.v, e.i + 1, e.av) ELSE Bad
Level(X, i, av, n) == LET e == IF n = 5 THEN Unary(X, i, av) ELSE Level(X, i, av, n + 1) IN IF ~e.ok THEN e ELSE Loop(X, e, n)
\* comparisons are not chained
Compared(X, r) == IF X.k[r.i] \in DOMAIN BinOps[3] \/ OneOf(X, r.i, {"in", "not"}) THEN Free ELSE r
Loop(X, e, n) ==
  IF X.k[e.i] \in DOMAIN BinOps[n]
  THEN LET r == IF n = 5 THEN Unary(X, e.i + 1, e.av) ELSE Level(X, e.i + 1, e.av, n + 1)
                  v == R(F(BinOps[n][X.k[e.i]], <<e.v, r.v>>), r.i, r.av)
       IN IF ~r.ok THEN r ELSE IF n = 3 THEN Compared(X, v) ELSE Loop(X, v, n)
  ELSE IF n = 3 /\ Is_(X, e.i, "in") THEN Bad
  ELSE IF n = 3 /\ Is_(X, e.i, "not") THEN
    IF ~Is_(X, e.i + 1, "in") THEN Bad ELSE IF X.k[e.i + 2] # "LParen" THEN Bad
    ELSE IF X.k[e.i + 3] = "RParen" THEN Free
    ELSE LET s == NotIn(X, e.i + 3, e.av, << >>) IN IF ~s.ok THEN s ELSE Compared(X, R(F("notin", <<e.v, s.v>>), s.i, s.av))
  ELSE e
\* the values that something is not in
RECURSIVE NotInList(_)
NotInList(s) == Fx("list", Args(IF Len(s) = 1 THEN << >> ELSE <<NotInList(Tail(s))>>), s[1], 0, << >>, 0, << >>, << >>)
NotIn(X, i, av, out) ==
  LET e == Elem(X, i, 0, av) IN IF ~e.ok THEN e ELSE IF IsVar(e.v) THEN Free
  ELSE LET o == Append(out, e.v.n) IN CASE X.k[e.i] = "Comma" -> NotIn(X, e.i + 1, e.av, o) [] X.k[e.i] = "RParen" -> R(NotInList(o), e.i + 1, e.av) [] OTHER -> Bad
Unary(X, i, av) ==
  IF X.k[i] \in {"Not", "Plus", "Minus"}
  THEN LET e == Primary(X, i + 1, av) IN IF ~e.ok THEN e ELSE R(F(CASE X.k[i] = "Not" -> "not" [] X.k[i] = "Plus" -> "uplus" [] OTHER -> "uminus", <<e.v>>), e.i, e.av)
  ELSE Primary(X, i, av)
Bool(X, i, av) == R(FLit(X.w[i], 2, Xsdboolean), i + 1, av)
Primary(X, i, av) ==
  CASE X.k[i] = "LParen" -> Bracketed(X, i, av)
    [] X.k[i] = "Identifier" ->
         IF Known(X, X.v[i]) THEN
           IF X.v[i] = W.xsd THEN BuiltIn(X, i, av)
           ELSE IF X.k[i + 1] # "Colon" THEN Free                              \* a prefix with the name of a function
           ELSE IF X.k[i + 2] # "Identifier" THEN Bad ELSE R(FIri(Expand(X, X.v[i]) \o X.v[i + 2]), i + 3, av)
         ELSE IF OneOf(X, i, {"true", "false"}) THEN Bool(X, i, av) ELSE BuiltIn(X, i, av)
    [] X.k[i] = "IRI" -> IriOrCall(X, i, av, FALSE)
    [] X.k[i] = "String" -> LET e == Literal(X, i, av) IN IF ~e.ok THEN e ELSE R(FLit(e.v[1], e.v[2], e.v[3]), e.i, av)
    [] X.k[i] = "Integer" -> R(FLit(X.v[i], 2, Xsdinteger), i + 1, av)
    [] X.k[i] = "Decimal" -> R(FLit(X.v[i], 2, Xsddecimal), i + 1, av)
    [] X.k[i] = "Variable" -> R(FVar(X.v[i]), i + 1, av)
    [] OTHER -> Bad
\* expressions up to the closing parenthesis
ExprList(X, i, av, out) ==
  LET e == Expr(X, i, av)  o == Append(out, e.v)
  IN IF ~e.ok THEN e ELSE CASE X.k[e.i] = "Comma" -> ExprList(X, e.i + 1, e.av, o) [] X.k[e.i] = "RParen" -> R(o, e.i + 1, e.av) [] OTHER -> Bad
IriOrCall(X, i, av, must) ==
  LET f == FIri(Iri(X, i))
  IN IF X.k[i + 1] = "LParen" THEN
       IF X.k[i + 2] = "RParen" THEN R(F("call", <<f>>), i + 3, av)
       ELSE LET s == ExprList(X, i + 2, av, << >>) IN IF ~s.ok THEN s ELSE R(F("call", <<f, ArgList(s.v)>>), s.i, s.av)
     ELSE IF must THEN Bad ELSE R(f, i + 1, av)
Aggregate(X, i, av, f) ==
  IF X.k[i + 1] # "LParen" THEN Bad
  ELSE LET d == IF Is_(X, i + 2, "distinct") THEN 1 ELSE 0
           j == i + 2 + d
           done(e, a, k) == IF X.k[k] = "RParen" THEN R(Fx(f, Args(a), e[1], 0, << >>, d, << >>, << >>), k + 1, e[2]) ELSE Bad
       IN IF f = "count" /\ X.k[j] = "Mul" THEN done(<< << >>, av>>, << >>, j + 1)
          ELSE LET e == Expr(X, j, av)
               IN IF ~e.ok THEN e
                  ELSE IF f = "group_concat" /\ X.k[e.i] = "Semicolon"
                  THEN IF Is_(X, e.i + 1, "separator") /\ X.k[e.i + 2] = "Equal" /\ X.k[e.i + 3] = "String" THEN done(<<Lit(X, e.i + 3), e.av>>, <<e.v>>, e.i + 4) ELSE Bad
                  ELSE done(<< << >>, e.av>>, <<e.v>>, e.i)
BuiltIn(X, i, av) ==
  IF X.k[i] # "Identifier" THEN Bad
  ELSE IF OneOf(X, i, Aggr) THEN Aggregate(X, i, av, CHOOSE f \in Aggr : X.w[i] = W[f])
  ELSE IF OneOf(X, i, DOMAIN One) THEN
    LET e == Bracketed(X, i + 1, av) IN IF ~e.ok THEN e ELSE R(F(One[CHOOSE f \in DOMAIN One : X.w[i] = W[f]], <<e.v>>), e.i, e.av)
  ELSE IF Is_(X, i, "xsd") THEN
    IF X.k[i + 1] = "Colon" /\ OneOf(X, i + 2, DOMAIN Casts)
    THEN LET e == Bracketed(X, i + 3, av) IN IF ~e.ok THEN e ELSE R(F(Casts[CHOOSE f \in DOMAIN Casts : X.w[i + 2] = W[f]], <<e.v>>), e.i, e.av)
    ELSE Bad
  ELSE IF OneOf(X, i, DOMAIN Some) THEN
    IF X.k[i + 1] # "LParen" THEN Bad
    ELSE LET f == CHOOSE f \in DOMAIN Some : X.w[i] = W[f]
             s == ExprList(X, i + 2, av, << >>)
         IN IF ~s.ok THEN s ELSE IF Len(s.v) < Some[f][1] \/ Len(s.v) > Some[f][2] THEN Bad ELSE R(F(f, s.v), s.i, s.av)
  ELSE IF Is_(X, i, "bound") THEN
    IF X.k[i + 1] = "LParen" /\ X.k[i + 2] = "Variable" /\ X.k[i + 3] = "RParen" THEN R(F("bound", <<FVar(X.v[i + 2])>>), i + 4, av) ELSE Bad
  ELSE IF Is_(X, i, "not") THEN
    IF ~(Is_(X, i + 1, "exists") /\ X.k[i + 2] = "LCurly") THEN Bad
    ELSE IF Is_(X, i + 3, "select") THEN
      LET q == Query(X, i + 3, av)
      IN IF ~q.ok THEN q ELSE IF X.k[q.i] = "Comma" THEN Free ELSE IF X.k[q.i] # "RCurly" THEN Bad
         ELSE R(Fx("notexists", Args(<< >>), << >>, 0, << >>, 0, <<q.v>>, << >>), q.i + 1, q.av)
    ELSE LET g == Group(X, i + 3, av) IN IF ~g.ok THEN g ELSE R(Fx("notexists", Args(<< >>), << >>, 0, << >>, 0, << >>, <<g.v>>), g.i, g.av)
  ELSE IF Is_(X, i, "in") THEN Free                                            \* in(x, a, b)
  ELSE Bad
Constraint(X, i, av) == CASE X.k[i] = "LParen" -> Bracketed(X, i, av) [] X.k[i] = "Identifier" -> BuiltIn(X, i, av) [] X.k[i] = "IRI" -> IriOrCall(X, i, av, TRUE) [] OTHER -> Bad

(* patterns.  Elem's results have also ps, the patterns that the element brings with it; g: the group whose labels are meant *)
ER(v, i, av, ps) == [ok |-> TRUE, v |-> v, i |-> i, av |-> av, ps |-> ps]
Pat(s, p, o) == [s |-> s, p |-> p, o |-> o]
Elem(X, i, g, av) ==
  CASE X.k[i] = "Variable" -> ER(EVar(X.v[i]), i + 1, av, << >>)
    [] X.k[i] = "String" -> LET e == Literal(X, i, av) IN IF ~e.ok THEN e ELSE ER(El("lit", e.v[1], e.v[2], e.v[3], 0), e.i, av, << >>)
    [] X.k[i] = "IRI" -> ER(EIri(Iri(X, i)), i + 1, av, << >>)
    [] X.k[i] = "Anon" -> LET a == Append(av, <<0, i>>) IN ER(EAnon(Len(a)), i + 1, a, << >>)
    [] X.k[i] = "LBracket" ->
         LET a == Append(av, <<0, i>>)
             t == Tail_(X, i + 1, g, a, EAnon(Len(a)), << >>, << >>)
         IN IF ~t.ok THEN t ELSE IF X.k[t.i] = "RBracket" THEN ER(EAnon(Len(a)), t.i + 1, t.av, t.v)
            ELSE IF X.k[t.i] \in {"Dot", "Identifier"} THEN Free ELSE Bad
    [] X.k[i] = "Underscore" ->
         IF X.k[i + 1] = "Colon" /\ X.k[i + 2] = "Identifier"
         THEN LET key == <<1, g>> \o X.v[i + 2]  a == Note(av, key) IN ER(EAnon(Rank(a, key)), i + 3, a, << >>) ELSE Bad
    [] X.k[i] = "Colon" -> IF X.k[i + 1] = "Identifier" THEN Free ELSE Bad      \* relative to a base that cannot be given
    [] X.k[i] = "Identifier" ->
         IF X.v[i] = W.a THEN ER(EIri(RdfType), i + 1, av, << >>)
         ELSE IF X.k[i + 1] = "Colon" /\ Known(X, X.v[i]) /\ X.k[i + 2] = "Identifier" THEN ER(EIri(Expand(X, X.v[i]) \o X.v[i + 2]), i + 3, av, << >>)
         ELSE IF X.k[i + 1] = "Minus" THEN Free ELSE Bad                         \* a name with a hyphen apart
    [] OTHER -> Bad
\* predicates and objects of a subject, as far as they go; pr: the predicate that a comma repeats
Tail_(X, i, g, av, s, pr, ps) ==
  LET p == IF pr = << >> THEN Elem(X, i, g, av) ELSE ER(pr[1], i, av, << >>)
      o == Elem(X, p.i, g, p.av)
      out == ps \o p.ps \o o.ps \o <<Pat(s, p.v, o.v)>>
  IN IF ~p.ok THEN p ELSE IF ~o.ok THEN o
     ELSE CASE X.k[o.i] = "Semicolon" -> Tail_(X, o.i + 1, g, o.av, s, << >>, out)
            [] X.k[o.i] = "Comma" -> Tail_(X, o.i + 1, g, o.av, s, <<p.v>>, out)
            [] OTHER -> R(out, o.i, o.av)
Assign(X, i, av) ==
  IF X.k[i] # "LParen" THEN Bad
  ELSE LET e == Expr(X, i + 1, av)
       IN IF ~e.ok THEN e ELSE IF ~Is_(X, e.i, "as") THEN Bad ELSE IF X.k[e.i + 1] \in {"Anon", "Underscore", "LBracket"} THEN Free
          ELSE IF X.k[e.i + 1] = "Variable" /\ X.k[e.i + 2] = "RParen" THEN R([e |-> e.v, v |-> EVar(X.v[e.i + 1])], e.i + 3, e.av) ELSE Bad
\* VALUES: one variable or a list, then the rows
RECURSIVE ValVars(_, _, _), Row(_, _, _, _), Rows(_, _, _, _, _)
ValVars(X, i, out) == CASE X.k[i] = "Variable" -> ValVars(X, i + 1, Append(out, EVar(X.v[i]))) [] X.k[i] = "RParen" -> R(out, i + 1, << >>) [] OTHER -> Bad
Row(X, i, n, out) == IF n = 0 THEN R(out, i, << >>)
                     ELSE IF X.k[i] \notin {"IRI", "String", "Identifier", "Colon"} THEN Bad
                     ELSE LET e == Elem(X, i, 0, << >>) IN IF ~e.ok THEN e ELSE Row(X, e.i, n - 1, Append(out, e.v))
Rows(X, i, n, paren, out) ==
  IF X.k[i] = "RCurly" THEN R(out, i + 1, << >>)
  ELSE IF X.k[i] = "LParen" THEN
    IF ~paren THEN Free
    ELSE LET r == Row(X, i + 1, n, << >>) IN IF ~r.ok THEN r ELSE IF X.k[r.i] = "RParen" THEN Rows(X, r.i + 1, n, paren, out \o r.v) ELSE Bad
  ELSE IF paren /\ n = 1 THEN Free ELSE IF paren THEN Bad
  ELSE LET r == Row(X, i, 1, << >>) IN IF ~r.ok THEN r ELSE Rows(X, r.i, n, paren, out \o r.v)
Values(X, i) ==
  LET paren == X.k[i] = "LParen"
      vs == IF X.k[i] = "Variable" THEN R(<<EVar(X.v[i])>>, i + 1, << >>) ELSE IF paren THEN ValVars(X, i + 1, << >>) ELSE Bad
  IN IF ~vs.ok THEN vs ELSE IF vs.v = << >> THEN Free ELSE IF X.k[vs.i] # "LCurly" THEN Bad
     ELSE LET r == Rows(X, vs.i + 1, Len(vs.v), paren, << >>) IN IF ~r.ok THEN r ELSE R([vars |-> vs.v, vals |-> r.v], r.i, << >>)
NoGroup == [p |-> << >>, as |-> << >>, fl |-> << >>, opt |-> << >>, un |-> << >>, sq |-> << >>, mi |-> << >>, va |-> << >>]
Merge(a, b) == [f \in DOMAIN NoGroup |-> a[f] \o b[f]]
Group(X, i, av) == Items(X, i, av, [g |-> NoGroup, at |-> i], "")
Dotted(X, i) == IF X.k[i] = "Dot" THEN i + 1 ELSE i
\* G.g: the group so far, G.at: where it began; last: what was read before
Items(X, i, av, G, last) ==
  LET put(f, v, j, a, what) == Items(X, j, a, [G EXCEPT !.g[f] = Append(@, v)], what)
      kw == "keyword"
  IN
  CASE X.k[i] = "RCurly" -> R(G.g, i + 1, av)
    [] Is_(X, i, "select") ->
         IF G.g # NoGroup THEN Free
         ELSE LET q == Query(X, i, av) IN IF ~q.ok THEN q ELSE IF X.k[q.i] = "RCurly" THEN R([NoGroup EXCEPT !.sq = <<q.v>>], q.i + 1, q.av) ELSE Bad
    [] Is_(X, i, "optional") ->
         IF X.k[i + 1] # "LCurly" THEN Bad ELSE LET g == Group(X, i + 2, av) IN IF ~g.ok THEN g ELSE put("opt", g.v, Dotted(X, g.i), g.av, kw)
    [] Is_(X, i, "minus") ->
         IF X.k[i + 1] # "LCurly" THEN Bad ELSE LET g == Group(X, i + 2, av) IN IF ~g.ok THEN g ELSE put("mi", g.v, Dotted(X, g.i), g.av, kw)
    [] Is_(X, i, "filter") -> LET e == Constraint(X, i + 1, av) IN IF ~e.ok THEN e ELSE put("fl", e.v, Dotted(X, e.i), e.av, kw)
    [] Is_(X, i, "bind") -> LET e == Assign(X, i + 1, av) IN IF ~e.ok THEN e ELSE put("as", e.v, Dotted(X, e.i), e.av, kw)
    [] Is_(X, i, "values") -> LET e == Values(X, i + 1) IN IF ~e.ok THEN e ELSE put("va", e.v, Dotted(X, e.i), av, kw)
    [] X.k[i] = "LCurly" ->
         LET g == Group(X, i + 1, av)
         IN IF ~g.ok THEN g
            ELSE IF Is_(X, g.i, "union") THEN LET u == Unions(X, g.i, g.av, <<g.v>>) IN IF ~u.ok THEN u ELSE put("un", u.v, Dotted(X, u.i), u.av, kw)
            ELSE Items(X, Dotted(X, g.i), g.av, [G EXCEPT !.g = Merge(@, g.v)], kw)      \* a group in a group is a part of it
    [] X.k[i] \in ElemStart ->
         IF last = "block" THEN Free                                           \* the dot before it is missing
         ELSE LET s == Elem(X, i, G.at, av)
                  t == Tail_(X, s.i, G.at, s.av, s.v, << >>, s.ps)
              IN IF ~s.ok THEN s ELSE IF ~t.ok THEN t
                 ELSE Items(X, Dotted(X, t.i), t.av, [G EXCEPT !.g.p = @ \o t.v], IF X.k[t.i] = "Dot" THEN "" ELSE "block")
    [] X.k[i] \in {"Semicolon", "Comma"} /\ last = kw -> Free                    \* an interrupted list of predicates
    [] X.k[i] = "Dot" /\ last = kw -> Free
    [] OTHER -> Bad
Unions(X, i, av, out) ==
  IF Is_(X, i, "union")
  THEN IF X.k[i + 1] # "LCurly" THEN Bad ELSE LET g == Group(X, i + 2, av) IN IF ~g.ok THEN g ELSE Unions(X, g.i, g.av, Append(out, g.v))
  ELSE R(out, i, av)

(* queries *)
RECURSIVE InScope(_), SeqUnion(_, _)
SeqUnion(s, f) == IF s = << >> THEN {} ELSE InScope(s[1]) \cup SeqUnion(Tail(s), f)
\* the named variables that a group can bind
InScope(g) ==
  LET el(e) == IF e.t = "var" THEN {e.n} ELSE {}
  IN UNION ({el(g.p[j].s) \cup el(g.p[j].p) \cup el(g.p[j].o) : j \in 1..Len(g.p)} \cup {el(g.as[j].v) : j \in 1..Len(g.as)}
            \cup {UNION {el(g.va[j].vars[h]) : h \in 1..Len(g.va[j].vars)} : j \in 1..Len(g.va)}
            \cup {UNION {el(g.sq[j].proj[h]) : h \in 1..Len(g.sq[j].proj)} : j \in 1..Len(g.sq)})
     \cup SeqUnion(g.opt, 0) \cup UNION {SeqUnion(g.un[j], 0) : j \in 1..Len(g.un)}
RECURSIVE Lexi(_, _)
Lexi(a, b) == IF a = << >> THEN TRUE ELSE IF b = << >> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Lexi(Tail(a), Tail(b))
Star(g) == LET s == SetToSortSeq(InScope(g), LAMBDA a, b : a # b /\ Lexi(a, b)) IN [j \in 1..Len(s) |-> EVar(s[j])]
RECURSIVE Proj(_, _, _, _), Distinct_(_, _), GroupBy(_, _, _, _), Having(_, _, _, _), OrderBy(_, _, _, _), Limits(_, _, _)
\* out: [pr: elements, as: assignments, star]
Proj(X, i, av, out) ==
  CASE X.k[i] = "Variable" -> Proj(X, i + 1, av, [out EXCEPT !.pr = Append(@, EVar(X.v[i]))])
    [] X.k[i] = "Mul" -> Proj(X, i + 1, av, [out EXCEPT !.star = @ + 1])
    [] X.k[i] = "LParen" -> LET e == Assign(X, i, av) IN IF ~e.ok THEN e ELSE Proj(X, Dotted(X, e.i), e.av, [out EXCEPT !.pr = Append(@, e.v.v), !.as = Append(@, e.v)])
    [] X.k[i] = "Identifier" /\ ~Is_(X, i, "where") -> Free                      \* expressions without a name
    [] OTHER -> IF out.pr = << >> /\ out.star = 0 THEN Bad ELSE IF out.star > 1 \/ (out.star = 1 /\ out.pr # << >>) THEN Free ELSE R(out, i, av)
Distinct_(s, out) == IF s = << >> THEN out ELSE Distinct_(Tail(s), IF ~IsVar(s[1]) \/ \E j \in 1..Len(out) : out[j] = s[1] THEN out ELSE Append(out, s[1]))
RECURSIVE Flat(_)
Flat(ps) == IF ps = << >> THEN << >> ELSE <<ps[1].s, ps[1].p, ps[1].o>> \o Flat(Tail(ps))
Mods == [distinct |-> 1, reduced |-> 2, count |-> 3, duplicates |-> 4]
By(e, v, d) == [e |-> e, v |-> v, d |-> d]
GroupBy(X, i, av, out) ==
  CASE OneOf(X, i, {"having", "order", "limit", "offset"}) -> IF out = << >> THEN Free ELSE R(out, i, av)
    [] X.k[i] = "Identifier" -> LET e == BuiltIn(X, i, av) IN IF ~e.ok THEN e ELSE GroupBy(X, e.i, e.av, Append(out, By(<<e.v>>, << >>, 0)))
    [] X.k[i] = "IRI" -> LET e == IriOrCall(X, i, av, FALSE) IN IF ~e.ok THEN e ELSE GroupBy(X, e.i, e.av, Append(out, By(<<e.v>>, << >>, 0)))
    [] X.k[i] = "Variable" -> GroupBy(X, i + 1, av, Append(out, By(<< >>, <<EVar(X.v[i])>>, 0)))
    [] X.k[i] = "LParen" ->
         LET e == Expr(X, i + 1, av)
         IN IF ~e.ok THEN e
            ELSE IF X.k[e.i] = "RParen" THEN GroupBy(X, e.i + 1, e.av, Append(out, By(<<e.v>>, << >>, 0)))
            ELSE IF Is_(X, e.i, "as") /\ X.k[e.i + 1] = "Variable" /\ X.k[e.i + 2] = "RParen" THEN GroupBy(X, e.i + 3, e.av, Append(out, By(<<e.v>>, <<EVar(X.v[e.i + 1])>>, 0)))
            ELSE Bad
    [] OTHER -> IF out = << >> THEN Free ELSE R(out, i, av)
Having(X, i, av, out) ==
  IF out # << >> /\ (X.k[i] \notin {"LParen", "Identifier", "IRI"} \/ OneOf(X, i, {"order", "limit", "offset"})) THEN R(out, i, av)
  ELSE LET e == Constraint(X, i, av) IN IF ~e.ok THEN e ELSE Having(X, e.i, e.av, Append(out, e.v))
OrderBy(X, i, av, out) ==
  CASE OneOf(X, i, {"limit", "offset"}) -> IF out = << >> THEN Free ELSE R(out, i, av)
    [] OneOf(X, i, {"asc", "desc"}) -> LET e == Bracketed(X, i + 1, av) IN IF ~e.ok THEN e ELSE OrderBy(X, e.i, e.av, Append(out, By(<<e.v>>, << >>, IF Is_(X, i, "desc") THEN 1 ELSE 0)))
    [] Is_(X, i, "count") -> Free                                              \* by the number of duplicates
    [] X.k[i] \in {"Identifier", "LParen", "IRI"} -> LET e == Constraint(X, i, av) IN IF ~e.ok THEN e ELSE OrderBy(X, e.i, e.av, Append(out, By(<<e.v>>, << >>, 0)))
    [] X.k[i] = "Variable" -> OrderBy(X, i + 1, av, Append(out, By(<< >>, <<EVar(X.v[i])>>, 0)))
    [] OTHER -> IF out = << >> THEN Free ELSE R(out, i, av)
RECURSIVE Number_(_, _)
\* a number beyond TLC's, and one beyond any limit
Great == -1
TooGreat == -2
Number_(s, n) == IF s = << >> THEN n ELSE IF n > 214748363 THEN (IF Len(s) = 1 THEN Great ELSE TooGreat) ELSE Number_(Tail(s), n * 10 + (s[1] - 48))
Limits(X, i, out) ==
  IF OneOf(X, i, {"limit", "offset"})
  THEN LET f == IF Is_(X, i, "limit") THEN "lim" ELSE "off"
           n == IF X.k[i + 1] = "Integer" THEN Number_(X.v[i + 1], 0) ELSE TooGreat
       IN IF n = Great THEN Free ELSE IF out[f] # << >> \/ n < 0 \/ (f = "lim" /\ n = 0) THEN Bad ELSE Limits(X, i + 2, [out EXCEPT ![f] = <<n>>])
  ELSE R(out, i, << >>)
ByPart(X, i, av, w, P(_, _, _, _)) == IF ~Is_(X, i, w) THEN R(<< >>, i, av) ELSE IF Is_(X, i + 1, "by") THEN P(X, i + 2, av, << >>) ELSE Bad
Query(X, i, av) ==
  LET con == Is_(X, i, "construct")
      mod == IF OneOf(X, i + 1, DOMAIN Mods) THEN Mods[CHOOSE m \in DOMAIN Mods : X.w[i + 1] = W[m]] ELSE 0
      cg == IF X.k[i + 1] = "LCurly" THEN Group(X, i + 2, av) ELSE IF Is_(X, i + 1, "where") THEN Free ELSE Bad
      pr == IF ~con THEN Proj(X, i + 1 + (IF mod = 0 THEN 0 ELSE 1), av, [pr |-> << >>, as |-> << >>, star |-> 0])
            ELSE IF ~cg.ok THEN cg ELSE R([pr |-> Distinct_(Flat(cg.v.p), << >>), as |-> << >>, star |-> 0], cg.i, cg.av)
      wi == IF Is_(X, pr.i, "where") THEN pr.i + 1 ELSE pr.i
      gr == Group(X, wi + 1, pr.av)
      gb == ByPart(X, gr.i, gr.av, "group", GroupBy)
      hv == IF Is_(X, gb.i, "having") THEN Having(X, gb.i + 1, gb.av, << >>) ELSE R(<< >>, gb.i, gb.av)
      ob == ByPart(X, hv.i, hv.av, "order", OrderBy)
      lm == Limits(X, ob.i, [lim |-> << >>, off |-> << >>])
  IN IF ~(con \/ Is_(X, i, "select")) THEN Bad
     ELSE IF ~pr.ok THEN pr ELSE IF X.k[wi] # "LCurly" THEN Bad
     ELSE IF ~gr.ok THEN gr ELSE IF ~gb.ok THEN gb ELSE IF ~hv.ok THEN hv ELSE IF ~ob.ok THEN ob ELSE IF ~lm.ok THEN lm
     \* a template without variables projects like a star
     ELSE R([mod |-> mod, proj |-> IF pr.v.pr = << >> THEN Star(gr.v) ELSE pr.v.pr, gas |-> pr.v.as, pat |-> gr.v, gb |-> gb.v, hv |-> hv.v, ob |-> ob.v,
             lim |-> lm.v.lim, off |-> IF lm.v.off = <<0>> THEN << >> ELSE lm.v.off], lm.i, ob.av)
RECURSIVE Prologue(_, _)
Prologue(X, i) ==
  IF Is_(X, i, "prefix")
  THEN IF X.k[i + 1] = "Identifier" /\ X.k[i + 2] = "Colon" /\ X.k[i + 3] = "IRI" /\ ~Known(X, X.v[i + 1]) THEN
         IF X.v[i + 1] = W.a THEN Free ELSE Prologue([X EXCEPT !.pre = Append(@, <<X.v[i + 1], Iri(X, i + 3)>>)], i + 4)
       ELSE IF X.k[i + 1] = "Identifier" /\ X.k[i + 2] = "Minus" THEN Free ELSE Bad
  ELSE LET q == Query(X, i, << >>) IN IF ~q.ok THEN q ELSE IF X.k[q.i] = "Eof" THEN q ELSE Bad
\* (a few end tokens more, so that looking ahead is always possible)
Meaning(T) ==
  LET s == Tokens(T)
      end == T0("Eof", 0, 1, 1, 1)
      t == s \o <<end, end, end, end, end>>
  IN IF s[Len(s)].k = "Error" THEN Bad
     ELSE LET v == TLCEval([j \in 1..Len(t) |-> Value(T, t[j])])
          IN Prologue([k |-> TLCEval([j \in 1..Len(t) |-> t[j].k]), v |-> v, w |-> TLCEval([j \in 1..Len(v) |-> Lower(v[j])]), pre |-> << >>], 1)
================================================================================
