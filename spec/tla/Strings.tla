------------------------------- MODULE Strings ------------------------------
(***************************************************************************)
(* A string literal, character by character.  `val` is the sequence of     *)
(* code points the literal denotes so far.  A behaviour reads the text     *)
(* after the opening quote.  It is `done` at the closing quote and `dead`  *)
(* at the first character no literal can continue with; a dead text has to *)
(* be rejected, whatever follows.  `rest` closes an unfinished literal.    *)
(*                                                                         *)
(* The alphabet is given by name, code point and digit value (16: none).   *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Chars,        \* the names used by this model, a subset of those below
          Start,        \* the text every behaviour begins with
          MaxLen

VARIABLES src, mode, val, acc, rest, full

vars == <<src, mode, val, acc, rest, full>>

\* name -> code point
Code(c) ==
    CASE c = "DQ" -> 34 [] c = "BS" -> 92 [] c = "NL" -> 10 [] c = "SP" -> 32
      [] c = "TAB" -> 9 [] c = "FF" -> 12 [] c = "CR" -> 13 [] c = "SQ" -> 39 [] c = "SL" -> 47 [] c = "ST" -> 42
      [] c = "n" -> 110 [] c = "t" -> 116 [] c = "x" -> 120 [] c = "u" -> 117 [] c = "r" -> 114 [] c = "z" -> 122
      [] c = "LB" -> 123 [] c = "RB" -> 125
      [] c = "d0" -> 48 [] c = "d1" -> 49 [] c = "d2" -> 50 [] c = "d3" -> 51 [] c = "d4" -> 52
      [] c = "d5" -> 53 [] c = "d6" -> 54 [] c = "d7" -> 55 [] c = "d8" -> 56 [] c = "d9" -> 57
      [] c = "A" -> 65 [] c = "B" -> 66 [] c = "C" -> 67 [] c = "D" -> 68 [] c = "E" -> 69 [] c = "F" -> 70
      [] c = "eacute" -> 233 [] c = "han" -> 27721 [] c = "face" -> 128512

Digit(c) ==
    CASE c = "d0" -> 0 [] c = "d1" -> 1 [] c = "d2" -> 2 [] c = "d3" -> 3 [] c = "d4" -> 4
      [] c = "d5" -> 5 [] c = "d6" -> 6 [] c = "d7" -> 7 [] c = "d8" -> 8 [] c = "d9" -> 9
      [] c = "A" -> 10 [] c = "B" -> 11 [] c = "C" -> 12 [] c = "D" -> 13 [] c = "E" -> 14 [] c = "F" -> 15 [] OTHER -> 16

White(c) == c \in {"SP", "TAB", "NL", "CR", "FF"}

\* modes: in; esc; x1 x2 (digits of \x left to read); ub; u1..u4; ue; ws; done; dead
Go(m, v, a) == <<m, v, a>>
Dead == <<"dead", <<>>, 0>>

Delta(m, v, a, c) ==
    CASE m = "in" ->
           (CASE c = "DQ" -> Go("done", v, 0)
              [] c = "BS" -> Go("esc", v, 0)
              [] c = "NL" -> Dead
              [] c = "CR" -> Dead
              [] OTHER -> Go("in", Append(v, Code(c)), 0))
      [] m = "esc" ->
           (CASE c = "DQ" -> Go("in", Append(v, 34), 0)
              [] c = "BS" -> Go("in", Append(v, 92), 0)
              [] c = "n" -> Go("in", Append(v, 10), 0)
              [] c = "t" -> Go("in", Append(v, 9), 0)
              [] c = "x" -> Go("x1", v, 0)
              [] c = "u" -> Go("ub", v, 0)
              [] White(c) -> Go("ws", v, 0)
              [] OTHER -> Dead)
      [] m = "ws" ->
           (CASE White(c) -> Go("ws", v, 0)
              [] c = "BS" -> Go("in", v, 0)
              [] OTHER -> Dead)
      [] m = "x1" -> IF Digit(c) < 8 THEN Go("x2", v, Digit(c)) ELSE Dead
      [] m = "x2" -> IF Digit(c) < 16 THEN Go("in", Append(v, 16 * a + Digit(c)), 0) ELSE Dead
      [] m = "ub" -> IF c = "LB" THEN Go("u1", v, 0) ELSE Dead
      [] m = "u1" -> IF Digit(c) < 16 THEN Go("u2", v, Digit(c)) ELSE Dead
      [] m = "u2" -> IF Digit(c) < 16 /\ ~(a = 13 /\ Digit(c) >= 8) THEN Go("u3", v, 16 * a + Digit(c)) ELSE Dead
      [] m = "u3" -> IF Digit(c) < 16 THEN Go("u4", v, 16 * a + Digit(c)) ELSE Dead
      [] m = "u4" -> IF Digit(c) < 16 THEN Go("ue", v, 16 * a + Digit(c)) ELSE Dead
      [] m = "ue" -> IF c = "RB" THEN Go("in", Append(v, a), 0) ELSE Dead

\* A shortest text that finishes the literal.
Closing(m) ==
    CASE m = "in" -> <<"DQ">>
      [] m = "esc" -> <<"n", "DQ">>
      [] m = "ws" -> <<"BS", "DQ">>
      [] m = "x1" -> <<"d4", "A", "DQ">>
      [] m = "x2" -> <<"C", "DQ">>
      [] m = "ub" -> <<"LB", "d0", "d4", "d7", "F", "RB", "DQ">>
      [] m = "u1" -> <<"d0", "d4", "d7", "F", "RB", "DQ">>
      [] m = "u2" -> <<"d4", "d7", "F", "RB", "DQ">>
      [] m = "u3" -> <<"d7", "F", "RB", "DQ">>
      [] m = "u4" -> <<"F", "RB", "DQ">>
      [] m = "ue" -> <<"RB", "DQ">>
      [] OTHER -> <<>>

RECURSIVE Run3(_, _, _, _, _)
Run3(s, i, m, v, a) ==
    IF i > Len(s) \/ m = "dead" THEN <<m, v, a>>
    ELSE LET r == Delta(m, v, a, s[i]) IN Run3(s, i + 1, r[1], r[2], r[3])

Run(s, i, m, v, a) == LET r == Run3(s, i, m, v, a) IN <<r[1], r[2]>>

\* The whole literal and what it denotes: <<"done", points>>.
Whole(m, v, a) == Run(Closing(m), 1, m, v, a)

Init == LET r == Run3(Start, 1, "in", <<>>, 0) IN
        /\ src = Start /\ mode = r[1] /\ val = r[2] /\ acc = r[3]
        /\ rest = Closing(r[1]) /\ full = Whole(r[1], r[2], r[3])

Next ==
    /\ Len(src) < Len(Start) + MaxLen
    /\ mode \notin {"done", "dead"}
    /\ \E c \in Chars :
         LET r == Delta(mode, val, acc, c) IN
         /\ src' = Append(src, c)
         /\ mode' = r[1]
         /\ val' = r[2]
         /\ acc' = r[3]
         /\ rest' = IF r[1] = "dead" THEN <<"DQ">> ELSE Closing(r[1])
         /\ full' = IF r[1] = "dead" THEN <<"dead", <<>>>> ELSE Whole(r[1], r[2], r[3])

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* Every live text can be closed, and its points are Unicode scalar values.
Closable == mode # "dead" => full[1] = "done"
Scalar == \A i \in 1..Len(val) : val[i] < 55296 \/ (val[i] > 57343 /\ val[i] < 1114112)
\* Every point is spelled by at least one character.
NotLonger == Len(val) <= Len(src)
\* A text with neither escape nor quote denotes itself.
Plain == (mode = "in" /\ \A i \in 1..Len(src) : src[i] # "BS")
            => val = [i \in 1..Len(src) |-> Code(src[i])]
=============================================================================
