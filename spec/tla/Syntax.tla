------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The grammar of Yul objects as a pushdown machine.  A behaviour reads    *)
(* one token after the other; `stack` is what may still come and `ev` is   *)
(* the tree read so far, as a list of events: <<"o", tag>> opens a node,   *)
(* <<"a", i>> is a leaf spelled by token i, <<"c">> closes a node.         *)
(*                                                                         *)
(* `full` is the shortest way to finish: <<verdict, tokens, events>>.  For *)
(* a live text the verdict is "tree" and the events are the tree the       *)
(* parser has to build for those tokens; for a dead text (its last token   *)
(* cannot follow) it is "reject".                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Tokens, MaxLen, MaxDepth, Start,
          RejectFrom   \* a wrong token may come from this length on

VARIABLES toks, stack, ev, status, full

vars == <<toks, stack, ev, status, full>>

Literals == {"dec", "hexnum", "str", "true", "false"}
AllTokens == {"{", "}", "(", ")", ",", ":", ":=", "->", "object", "code", "dataname", "hexdata", "id", "function",
              "let", "if", "for", "switch", "case", "default", "leave", "break", "continue"} \cup Literals

\* A stack symbol: s its name, p the token positions it carries.
S(s) == [s |-> s, p |-> <<>>]
T(t) == [s |-> t, p |-> <<>>]
Nt(s, p) == [s |-> s, p |-> p]
Close == S("!c")
Open(tag) == [s |-> "!o", p |-> <<tag>>]
Leaf == S("!a")          \* the next token is a leaf

ObjectBody == <<Open("object"), Leaf, T("str"), T("{"), T("code"), S("Block"), S("Segments")>>

\* The replacement of symbol x when the next token is t; <<"bad">> if t cannot come.
Bad == <<S("!bad")>>

Expand(x, t) ==
    CASE x.s = "Object" -> IF t = "object" THEN <<T("object")>> \o ObjectBody ELSE Bad
      [] x.s = "Segments" ->
           (CASE t = "}" -> <<T("}"), Close>>
              [] t = "dataname" -> <<Open("data"), Leaf, T("dataname"), Open("hexdata"), Leaf, T("hexdata"), Close, Close, S("Segments")>>
              [] t = "object" -> <<S("Object"), S("Segments")>>
              [] OTHER -> Bad)
      [] x.s = "Block" -> IF t = "{" THEN <<T("{"), Open("block"), S("Stmts")>> ELSE Bad
      [] x.s = "Stmts" -> IF t = "}" THEN <<T("}"), Close>> ELSE <<S("Stmt"), S("Stmts")>>
      [] x.s = "Stmt" ->
           (CASE t = "{" -> <<S("Block")>>
              [] t = "function" -> <<T("function"), Open("function"), Leaf, T("id"), T("("), Open("params"), S("Params"), Close,
                                     S("Returns"), S("Block"), Close>>
              [] t = "let" -> <<T("let"), Open("let"), Open("ids"), S("TypedIds"), Close, S("LetValue"), Close>>
              [] t = "id" -> <<S("IdStmt")>>
              [] t = "if" -> <<T("if"), Open("if"), S("Expr"), S("Block"), Close>>
              [] t = "for" -> <<T("for"), Open("for"), S("Block"), S("Expr"), S("Block"), S("Block"), Close>>
              [] t = "switch" -> <<T("switch"), Open("switch"), S("Expr"), S("Cases0"), Close>>
              [] t \in {"leave", "break", "continue"} -> <<T(t), Open(t), Close>>
              [] OTHER -> Bad)
      [] x.s = "AfterId" ->   \* p: the positions of the names read
           (CASE t = "(" /\ Len(x.p) = 1 ->
                     <<T("("), Open("exec"), Open("call"), Nt("!leaf", x.p), S("Args"), Close, Close>>
              [] t = "," -> <<T(","), Nt("MoreIds", x.p)>>
              [] t = ":=" -> <<T(":="), Open("assign"), Open("ids"), Nt("!leaf", x.p), Close, S("Expr"), Close>>
              [] OTHER -> Bad)
      [] x.s = "TypedIds" -> <<Open("id"), Leaf, T("id"), S("Type"), Close, S("TypedMore")>>
      [] x.s = "Type" -> IF t = ":" THEN <<T(":"), Leaf, T("id")>> ELSE <<>>
      [] x.s = "TypedMore" -> IF t = "," THEN <<T(","), S("TypedIds")>> ELSE <<>>
      [] x.s = "LetValue" -> IF t = ":=" THEN <<T(":="), S("Expr")>> ELSE <<>>
      [] x.s = "Params" -> IF t = ")" THEN <<T(")")>> ELSE <<S("TypedIds"), T(")")>>
      [] x.s = "Returns" -> IF t = "->" THEN <<T("->"), Open("returns"), S("TypedIds"), Close>> ELSE <<Open("returns"), Close>>
      [] x.s = "Expr" -> IF t \in Literals THEN <<S("Literal")>> ELSE IF t = "id" THEN <<S("IdExpr")>> ELSE Bad
      [] x.s = "Literal" ->
           IF t \notin Literals THEN Bad
           ELSE IF t \in {"true", "false"} THEN <<Open(t), T(t), S("Type"), Close>>
           ELSE <<Open(t), Leaf, T(t), S("Type"), Close>>
      [] x.s = "AfterIdExpr" ->
           IF t = "(" THEN <<T("("), Open("call"), Nt("!leaf", x.p), S("Args"), Close>>
           ELSE <<Open("var"), Nt("!leaf", x.p), Close>>
      [] x.s = "Args" -> IF t = ")" THEN <<T(")")>> ELSE <<S("Expr"), S("ArgsMore")>>
      [] x.s = "ArgsMore" -> IF t = "," THEN <<T(","), S("Expr"), S("ArgsMore")>> ELSE <<T(")")>>
      [] x.s = "Cases0" ->
           (CASE t = "case" -> <<S("Case"), S("Cases1")>>
              [] t = "default" -> <<S("Default")>>
              [] OTHER -> Bad)
      [] x.s = "Cases1" ->
           (CASE t = "case" -> <<S("Case"), S("Cases1")>>
              [] t = "default" -> <<S("Default")>>
              [] OTHER -> <<>>)
      [] x.s = "Case" -> <<T("case"), Open("case"), S("Literal"), S("Block"), Close>>
      [] x.s = "Default" -> <<T("default"), Open("default"), S("Block"), Close>>

Names(p) == [i \in 1..Len(p) |-> <<"a", p[i]>>]

\* Read token t as token number n: <<ok, stack, events>>.
RECURSIVE Read(_, _, _, _)
Read(st, e, t, n) ==
    IF st = <<>> THEN <<FALSE, st, e>>
    ELSE LET x == Head(st)
             r == Tail(st)
         IN CASE x.s = "!c" -> Read(r, Append(e, <<"c">>), t, n)
              [] x.s = "!o" -> Read(r, Append(e, <<"o", x.p[1]>>), t, n)
              [] x.s = "!leaf" -> Read(r, e \o Names(x.p), t, n)
              [] x.s = "!a" -> IF Head(r).s = t THEN <<TRUE, Tail(r), Append(e, <<"a", n>>)>> ELSE <<FALSE, st, e>>
              [] x.s = "!bad" -> <<FALSE, st, e>>
              [] x.s = "IdStmt" -> IF t = "id" THEN <<TRUE, <<Nt("AfterId", <<n>>)>> \o r, e>> ELSE <<FALSE, st, e>>
              [] x.s = "IdExpr" -> IF t = "id" THEN <<TRUE, <<Nt("AfterIdExpr", <<n>>)>> \o r, e>> ELSE <<FALSE, st, e>>
              [] x.s = "MoreIds" -> IF t = "id" THEN <<TRUE, <<Nt("AfterIds", Append(x.p, n))>> \o r, e>> ELSE <<FALSE, st, e>>
              [] x.s = "AfterIds" ->
                   (CASE t = "," -> <<TRUE, <<Nt("MoreIds", x.p)>> \o r, e>>
                      [] t = ":=" -> Read(Expand([x EXCEPT !.s = "AfterId"], t) \o r, e, t, n)
                      [] OTHER -> <<FALSE, st, e>>)
              [] x.s \in AllTokens -> IF x.s = t THEN <<TRUE, r, e>> ELSE <<FALSE, st, e>>
              [] OTHER -> Read(Expand(x, t) \o r, e, t, n)

\* A token that leads to the end from symbol x, the cheapest there is.
Lead(x) ==
    CASE x.s = "Object" -> "object"
      [] x.s \in {"Segments", "Stmts"} -> "}"
      [] x.s = "Block" -> "{"
      [] x.s = "Stmt" -> "leave"
      [] x.s = "AfterId" -> IF Len(x.p) = 1 THEN "(" ELSE ":="
      [] x.s = "AfterIds" -> ":="
      [] x.s \in {"Params", "Args", "ArgsMore"} -> ")"
      [] x.s \in {"Expr", "Literal"} -> "dec"
      [] x.s \in {"TypedIds", "IdStmt", "IdExpr", "MoreIds"} -> "id"
      [] x.s = "Cases0" -> "default"
      [] x.s = "Case" -> "case"
      [] x.s = "Default" -> "default"
      [] x.s \in AllTokens -> x.s
      [] OTHER -> ""        \* may be empty: look further down

RECURSIVE NextTok(_)
NextTok(st) ==
    IF st = <<>> THEN ""
    ELSE LET x == Head(st) IN
         IF x.s = "!a" THEN Head(Tail(st)).s
         ELSE IF Lead(x) # "" THEN Lead(x)
         ELSE NextTok(Tail(st))

\* Close what is left without another token.
RECURSIVE Drain(_, _)
Drain(st, e) ==
    IF st = <<>> THEN e
    ELSE LET x == Head(st) IN
         CASE x.s = "!c" -> Drain(Tail(st), Append(e, <<"c">>))
           [] x.s = "!o" -> Drain(Tail(st), Append(e, <<"o", x.p[1]>>))
           [] x.s = "!leaf" -> Drain(Tail(st), e \o Names(x.p))
           [] OTHER -> Drain(Expand(x, "") \o Tail(st), e)

RECURSIVE Finish(_, _, _)
Finish(tk, st, e) ==
    LET t == NextTok(st) IN
    IF t = "" THEN <<"tree", tk, Drain(st, e)>>
    ELSE LET r == Read(st, e, t, Len(tk) + 1) IN Finish(Append(tk, t), r[2], r[3])

\* The whole text read in one go: <<ok, events>>.
RECURSIVE ReadAll(_, _, _, _)
ReadAll(tk, i, st, e) ==
    IF i > Len(tk) THEN <<NextTok(st) = "", IF NextTok(st) = "" THEN Drain(st, e) ELSE e>>
    ELSE LET r == Read(st, e, tk[i], i) IN
         IF ~r[1] THEN <<FALSE, e>> ELSE ReadAll(tk, i + 1, r[2], r[3])

RECURSIVE Feed(_, _, _, _)
Feed(tk, i, st, e) ==
    IF i > Len(tk) THEN <<st, e>>
    ELSE LET r == Read(st, e, tk[i], i) IN Feed(tk, i + 1, r[2], r[3])

Init ==
    LET f == Feed(Start, 1, <<S("Object")>>, <<>>) IN
    /\ toks = Start
    /\ stack = f[1]
    /\ ev = f[2]
    /\ status = "live"
    /\ full = Finish(Start, f[1], f[2])

Next ==
    /\ status = "live"
    /\ Len(toks) < Len(Start) + MaxLen
    /\ \E t \in Tokens :
         LET n == Len(toks) + 1
             r == Read(stack, ev, t, n)
         IN /\ toks' = Append(toks, t)
            /\ IF r[1]
               THEN /\ Len(r[2]) <= MaxDepth
                    /\ status' = "live" /\ stack' = r[2] /\ ev' = r[3]
                    /\ full' = Finish(toks', r[2], r[3])
               ELSE /\ n > RejectFrom
                    /\ status' = "dead" /\ stack' = <<>> /\ ev' = <<>>
                    /\ full' = <<"reject", Finish(toks', stack, ev)[2], <<>>>>

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
RECURSIVE Depth(_, _, _)
Depth(e, i, d) ==
    IF i > Len(e) THEN d
    ELSE IF e[i][1] = "o" THEN Depth(e, i + 1, d + 1)
    ELSE IF e[i][1] = "c" THEN (IF d = 0 THEN 1000 ELSE Depth(e, i + 1, d - 1))
    ELSE Depth(e, i + 1, d)

\* Every finished tree is one well-nested node ...
Nested == status = "live" => Depth(full[3], 1, 0) = 0
\* ... its leaves are tokens that stand in the text, in order ...
Ordered ==
    status = "live" =>
        LET l == SelectSeq(full[3], LAMBDA x : x[1] = "a") IN
        \A i \in 1..Len(l) : l[i][2] \in 1..Len(full[2]) /\ (i > 1 => l[i - 1][2] < l[i][2])
\* ... every name and literal of the text is a leaf ...
NothingLost ==
    status = "live" =>
        LET l == {full[3][i][2] : i \in {j \in 1..Len(full[3]) : full[3][j][1] = "a"}} IN
        \A i \in 1..Len(full[2]) : full[2][i] \in {"id", "dec", "hexnum", "str", "dataname", "hexdata"} => i \in l
\* ... and reading the finished text at once gives the same tree.
Same == status = "live" => LET r == ReadAll(full[2], 1, <<S("Object")>>, <<>>) IN r = <<TRUE, full[3]>>
=============================================================================
