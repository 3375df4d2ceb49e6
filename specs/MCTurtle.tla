------------------------------- MODULE MCTurtle -------------------------------
(* Documents, token by token, as the grammar allows: all of them up to a length, or (Gen) random long ones. *)
EXTENDS Turtle, TLC, Json
CONSTANTS Depth, Gen, MaxOpen
VARIABLES toks, p
vars == <<toks, p>>
T(t) == Tok(t, << >>)
Small == {Tok("at", PREFIX), Tok("uri", <<117>>), Pn(<<112>>, << >>), Pn(<<112>>, <<120>>), Tok("bl", <<98>>), T("a"), T("."), T(","), T(";"), T("["), T("]"), T("("), T(")"), Tok("int", <<49>>), Tok("str", <<115>>), T("^^")}
Rich == Small \cup {Tok("at", BASE), Tok("at", <<101, 110>>), Tok("uri", <<118>>), Tok("uri", <<119>>), Pn(<< >>, << >>), Pn(<< >>, <<121>>), Pn(<<113>>, << >>), Pn(<<113>>, <<122>>), Tok("bl", <<99>>), Tok("bool", <<116>>),
                    Tok("dec", <<50>>), Tok("dbl", <<51>>), Tok("str", <<116>>), Tok("str", << >>)}
Preamble == <<Tok("at", PREFIX), Pn(<<112>>, << >>), Tok("uri", <<117>>), T(".")>>
Rich0 == <<Tok("at", PREFIX), Pn(<<113>>, << >>), Tok("uri", <<118>>), T("."), Tok("at", PREFIX), Pn(<< >>, << >>), Tok("uri", <<119>>), T(".")>>
Init == /\ toks \in (IF Gen THEN {<< >>, Preamble, Rich0, Rich0 \o Preamble} ELSE {<< >>, Preamble}) /\ p = Denote(toks)
Opening == {"[", "("}
\* a choice of few tokens keeps the random documents varied: closing ones are as likely as opening ones
Choice == IF ~Gen THEN Small
          ELSE LET bag == {RandomElement(Rich), RandomElement(Rich), RandomElement({Pn(<<112>>, <<120>>), Pn(<<113>>, <<122>>), Tok("uri", <<117>>), Tok("bl", <<98>>)}),
                           RandomElement({T("."), T(";"), T(","), T("]"), T(")")}), T("."), RandomElement({T("["), T("("), Tok("str", <<115>>), T(".")}), RandomElement({T("."), T("]"), T(")"), T("^^"), Tok("at", <<101, 110>>)})} IN bag
Next == /\ Len(toks) < Depth
        /\ \E tok \in Choice : LET q == Parse(p, tok) IN
             /\ (tok.t \in Opening => Len(p.st) < MaxOpen) /\ ~q.err
             /\ toks' = Append(toks, tok) /\ p' = q
Spec == Init /\ [][Next]_vars
\* ---- what a document denotes
AllTriples == p.out \o p.cur
WellTyped == \A i \in 1..Len(AllTriples) : LET t == AllTriples[i] IN t.s.ty = "URI" /\ t.p.ty = "URI" /\ t.p.b = << >>
\* the machine is a fold: reading the tokens in one go or one by one is the same
Fold == Denote(toks) = p
\* a document and its triples written out one by one denote the same
Spell(x) == IF x.b # << >> THEN <<Tok("bl", <<98>> \o x.b)>>
            ELSE CASE x.ty = "URI" -> <<Tok("uri", x.v)>> [] x.ty = "Integer" -> <<Tok("int", x.v)>> [] x.ty = "Literal" -> <<Tok("str", x.v)>>
                   [] x.ty = "CustomType" -> <<Tok("str", x.v), T("^^"), Tok("uri", x.sub)>> [] x.ty = "CustomLanguage" -> <<Tok("str", x.v), Tok("at", x.sub)>>
Plain == FlattenSeq([i \in 1..Len(p.out) |-> Spell(p.out[i].s) \o Spell(p.out[i].p) \o Spell(p.out[i].o) \o <<T(".")>>])
Blank(x) == IF x.b = << >> THEN x ELSE Named(<<98>> \o x.b)
Same == Complete(p) => LET q == Denote(Plain) IN Complete(q) /\ q.out = [i \in 1..Len(p.out) |-> [p.out[i] EXCEPT !.s = Blank(@), !.o = Blank(@)]]
\* a cut document is not well-formed
Cut == Complete(p) <=> (toks = << >> \/ (Last(toks).t = "." /\ Len(p.st) = 1))
\* anonymous nodes are never mixed up: each is the subject of what its brackets hold and is used once outside
Nodes == {t.s.b : t \in ToSet(AllTriples)} \cup {t.o.b : t \in ToSet(AllTriples)}
Fresh == \A b \in Nodes : (b # << >> /\ b[1] = 0) => b[2] < p.nb
\* ---- text: however the tokens are laid out, they are read back
Text(tok) == CASE tok.t = "uri" -> <<60>> \o tok.v \o <<62>> [] tok.t = "pn" -> tok.p \o <<58>> \o tok.v [] tok.t = "bl" -> <<95, 58>> \o tok.v [] tok.t = "a" -> <<97>>
              [] tok.t = "at" -> <<64>> \o tok.v [] tok.t = "str" -> <<34>> \o tok.v \o <<34>> [] tok.t = "int" -> tok.v [] tok.t = "^^" -> <<94, 94>>
              [] tok.t = "." -> <<46>> [] tok.t = "," -> <<44>> [] tok.t = ";" -> <<59>> [] tok.t = "[" -> <<91>> [] tok.t = "]" -> <<93>> [] tok.t = "(" -> <<40>> [] tok.t = ")" -> <<41>>
LongText(tok) == IF tok.t = "str" THEN <<34, 34, 34>> \o tok.v \o <<34, 34, 34>> ELSE Text(tok)
Render(sep) == FlattenSeq([i \in 1..Len(toks) |-> (IF i % 2 = 0 THEN LongText(toks[i]) ELSE Text(toks[i])) \o sep])
ReadBack == \A sep \in {<<32>>, <<10>>, <<9, 13>>, <<35, 46, 34, 10>>, <<32, 35, 60, 13>>} : Tokens(Render(sep)) = toks
View == <<toks, p>>
Emit == ~((Complete(p) /\ Len(toks) > 12) \/ Len(toks) = Depth) \/ PrintT(<<"BHV", ToJson(toks)>>)
=============================================================================
