------------------------------ MODULE Comments ------------------------------
(***************************************************************************)
(* The comment stripper as a transducer.  A behaviour reads one character  *)
(* after the other; `out` is what has to be left of what was read, where   *)
(* "GAP" stands for a removed comment: any whitespace, and at least one    *)
(* character of it where the neighbours would otherwise run together.      *)
(* Characters are written by name: SL / ST * DQ " SQ ' BS \ NL newline.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Alphabet, MaxLen

VARIABLES src, mode, out

vars == <<src, mode, out>>

Modes == {"code", "slash", "line", "block", "star", "dq", "dqe", "sq", "sqe"}

\* One character in a mode that does not hold back a slash.
InCode(c, o) ==
    CASE c = "SL" -> <<"slash", o>>
      [] c = "DQ" -> <<"dq", Append(o, c)>>
      [] c = "SQ" -> <<"sq", Append(o, c)>>
      [] OTHER    -> <<"code", Append(o, c)>>

Delta(m, c, o) ==
    CASE m = "code"  -> InCode(c, o)
      [] m = "slash" -> (CASE c = "SL" -> <<"line", Append(o, "GAP")>>
                           [] c = "ST" -> <<"block", Append(o, "GAP")>>
                           [] OTHER    -> InCode(c, Append(o, "SL")))
      [] m = "line"  -> IF c = "NL" THEN <<"code", Append(o, c)>> ELSE <<m, o>>
      [] m = "block" -> IF c = "ST" THEN <<"star", o>> ELSE <<m, o>>
      [] m = "star"  -> (CASE c = "SL" -> <<"code", o>>
                           [] c = "ST" -> <<m, o>>
                           [] OTHER    -> <<"block", o>>)
      [] m = "dq"    -> <<CASE c = "DQ" -> "code" [] c = "BS" -> "dqe" [] OTHER -> m, Append(o, c)>>
      [] m = "sq"    -> <<CASE c = "SQ" -> "code" [] c = "BS" -> "sqe" [] OTHER -> m, Append(o, c)>>
      [] m = "dqe"   -> <<"dq", Append(o, c)>>
      [] m = "sqe"   -> <<"sq", Append(o, c)>>

Init == src = <<>> /\ mode = "code" /\ out = <<>>

Next == /\ Len(src) < MaxLen
        /\ \E c \in Alphabet :
             LET r == Delta(mode, c, out) IN
             /\ src' = Append(src, c)
             /\ mode' = r[1]
             /\ out' = r[2]

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* What the stripper must leave of the whole text.
Final(m, o) == IF m = "slash" THEN Append(o, "SL") ELSE o

RECURSIVE Run(_, _, _, _)
Run(s, i, m, o) ==
    IF i > Len(s) THEN <<m, o>>
    ELSE LET r == Delta(m, s[i], o) IN Run(s, i + 1, r[1], r[2])

Blank(s) == [i \in 1..Len(s) |-> IF s[i] = "GAP" THEN "SP" ELSE s[i]]

RECURSIVE Subsequence(_, _)
Subsequence(a, b) ==
    IF a = <<>> THEN TRUE
    ELSE IF b = <<>> THEN FALSE
    ELSE IF Head(a) = Head(b) THEN Subsequence(Tail(a), Tail(b))
    ELSE Subsequence(a, Tail(b))

TypeOK == mode \in Modes

\* Only comments go, and nothing changes places.
Kept == Subsequence(SelectSeq(Final(mode, out), LAMBDA c : c # "GAP"), src)

\* Without a slash there is no comment.
NoSlash == (\A i \in 1..Len(src) : src[i] # "SL") => out = src

\* What is left has no comment.
Idempotent ==
    LET once == Blank(Final(mode, out))
        r == Run(once, 1, "code", <<>>)
    IN Final(r[1], r[2]) = once

=============================================================================
