------------------------------ MODULE Params -------------------------------
(***************************************************************************)
(* Parameters of a grid: names are case-insensitive with '-' = '_', values *)
(* too unless they are a variable name or a number.  The last value set    *)
(* wins, levels are separate, everything else has its default.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

UC == [a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", f |-> "F", g |-> "G", h |-> "H", i |-> "I",
       j |-> "J", k |-> "K", l |-> "L", m |-> "M", n |-> "N", o |-> "O", p |-> "P", q |-> "Q", r |-> "R",
       s |-> "S", t |-> "T", u |-> "U", v |-> "V", w |-> "W", x |-> "X", y |-> "Y", z |-> "Z"]
Lower == DOMAIN UC
Norm1(ch) == IF ch = "-" THEN "_" ELSE IF ch \in Lower THEN UC[ch] ELSE ch
RECURSIVE Norm(_)
Norm(s) == IF Len(s) = 0 THEN "" ELSE Norm1(SubSeq(s, 1, 1)) \o Norm(SubSeq(s, 2, Len(s)))

Digit == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
              [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
RECURSIVE Nat10(_, _)
Nat10(s, acc) == IF Len(s) = 0 THEN acc ELSE Nat10(SubSeq(s, 2, Len(s)), 10 * acc + Digit[SubSeq(s, 1, 1)])
\* the integer a decimal string denotes
Num(s) == IF SubSeq(s, 1, 1) = "-" THEN -Nat10(SubSeq(s, 2, Len(s)), 0) ELSE Nat10(s, 0)

BlockSizeName(n) == "BLOCK_SIZE_" \o ToString(n)
Numeric == {"CACHE_SIZE", "CACHE_HAND_SPREAD", "TIME_DIMENSION"} \cup {BlockSizeName(n) : n \in 0..9}
Verbatim == Numeric \cup {"VARIABLE"}

\* params: function (level, name) -> value
NoParams == <<>>
SetParam(ps, name, value, level) ==
  LET n == Norm(name)
      v == IF n \in Verbatim THEN value ELSE Norm(value)
  IN (<<level, n>> :> v) @@ ps
Get(ps, name, default, level) == IF <<level, name>> \in DOMAIN ps THEN ps[<<level, name>>] ELSE default
GetNum(ps, name, default, level) == IF <<level, name>> \in DOMAIN ps THEN Num(ps[<<level, name>>]) ELSE default

GridType(ps) == LET v == Get(ps, "GRID", "FULL", 0) IN IF v \in {"CACHE", "PASS_THROUGH"} THEN v ELSE "FULL"
ValuePos(ps) == IF Get(ps, "VALUE_POSITION", "", 0) = "VERTEX_CENTERED" THEN "VERTEX" ELSE "CELL"
NumaOff(ps) == Get(ps, "NUMA_COMMUNICATION", "ON", 0) = "OFF"
=============================================================================
