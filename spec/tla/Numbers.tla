------------------------------- MODULE Numbers ------------------------------
(***************************************************************************)
(* Number literals, character by character.  `digits` is the number read,  *)
(* most significant digit first and without leading zeros, in base `base`. *)
(* A text is `dead` at the first character that no number and nothing      *)
(* after a number can be; "END" is a separator.  A dead text has to be     *)
(* rejected, an ended one is exactly that number.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Chars, MaxLen

VARIABLES src, mode, digits, base

vars == <<src, mode, digits, base>>

Value(c) ==
    CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "5" -> 5 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
      [] c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12 [] c \in {"d", "D"} -> 13
      [] c \in {"e", "E"} -> 14 [] c \in {"f", "F"} -> 15 [] OTHER -> 99

Dec(c) == Value(c) < 10
Hex(c) == Value(c) < 16
Push(d, v) == IF d = <<>> /\ v = 0 THEN <<>> ELSE Append(d, v)

\* start; zero (exactly "0"); dec; x ("0x"); hex; done; dead
Delta(m, d, b, c) ==
    CASE m = "start" -> IF ~Dec(c) THEN <<"dead", d, b>> ELSE <<IF c = "0" THEN "zero" ELSE "dec", Push(d, Value(c)), 10>>
      [] m = "zero" -> (CASE c = "END" -> <<"done", d, b>>
                          [] c = "x" -> <<"x", d, 16>>
                          [] Dec(c) -> <<"dec", Push(d, Value(c)), b>>
                          [] OTHER -> <<"dead", d, b>>)
      [] m = "dec" -> (CASE c = "END" -> <<"done", d, b>>
                         [] Dec(c) -> <<m, Push(d, Value(c)), b>>
                         [] OTHER -> <<"dead", d, b>>)
      [] m = "x" -> IF Hex(c) THEN <<"hex", Push(d, Value(c)), b>> ELSE <<"dead", d, b>>
      [] m = "hex" -> (CASE c = "END" -> <<"done", d, b>>
                         [] Hex(c) -> <<m, Push(d, Value(c)), b>>
                         [] OTHER -> <<"dead", d, b>>)

Init == src = <<>> /\ mode = "start" /\ digits = <<>> /\ base = 10

Next == /\ mode \notin {"done", "dead"}
        /\ Len(src) < MaxLen
        /\ \E c \in Chars :
             LET r == Delta(mode, digits, base, c) IN
             /\ src' = Append(src, c)
             /\ mode' = r[1]
             /\ digits' = r[2]
             /\ base' = r[3]

Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
NoLeadingZero == digits # <<>> => digits[1] # 0
InBase == \A i \in 1..Len(digits) : digits[i] < base
NotLonger == Len(digits) <= Len(src)
\* Letter case makes no difference.
Upper(c) == CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C" [] c = "d" -> "D" [] c = "e" -> "E" [] c = "f" -> "F" [] OTHER -> c
RECURSIVE Run(_, _, _, _, _)
Run(s, i, m, d, b) ==
    IF i > Len(s) \/ m = "dead" THEN <<m, d, b>>
    ELSE LET r == Delta(m, d, b, s[i]) IN Run(s, i + 1, r[1], r[2], r[3])
CaseBlind == mode # "dead" => Run([i \in 1..Len(src) |-> Upper(src[i])], 1, "start", <<>>, 10) = <<mode, digits, base>>
=============================================================================
