------------------------------- MODULE Draws --------------------------------
(* Random draws.  The source of randomness is swept over its whole interval (both ends included) by the driver; an answer is *)
(* the set of everything that was drawn.  A draw is specified as a relation: any member of Allowed may be drawn, and every    *)
(* member of Reachable is drawn by some value of the source.                                                                 *)
EXTENDS FuncBase
CONSTANTS Lo, Hi, MaxN
LoQ == -12
LoT == -40
Lower == [i \in 1..26 |-> 96 + i]
Upper == [i \in 1..26 |-> 64 + i]
Iota(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a < b THEN b ELSE a
Wide == {"0..2^31", "-2^31..2^31", "0..2^32", "0..2^40", "-2^52..0", "0..2^53-1", "1..2^53-1", "-5..2^33", "-2^53+1..0"}
EvalDef(c) ==
    CASE c.f \in {"range", "rangeSafe"} -> IF c.a <= c.b THEN Iota(c.a, c.b) ELSE "inside"
      [] c.f = "duration" -> IF c.a = c.b THEN <<c.a>> ELSE Iota(Least(c.a, c.b) + 1, Most(c.a, c.b))    \* above the least value
      [] c.f = "durationLeast" -> "drawn"                                                                \* ... which is drawn as well
      [] c.f = "omitted" -> IF c.n = 0 THEN <<0>> ELSE Iota(1, c.n)       \* a range from or to 0 when an end is left out (0 itself: durationLeast)
      [] c.f = "choice" -> IF c.n = 0 THEN "TypeError" ELSE [i \in 1..c.n |-> 10 * i]      \* each of the durations of a list
      [] c.f \in {"rangeWide", "rangeSafeWide"} -> "inside, both ends and neighbours of every drawn value reached"
      [] c.f \in {"rangeBad", "rangeSafeBad"} -> "TypeError"
      [] c.f = "element"  -> Iota(1, c.n)
      [] c.f = "lower"    -> Lower
      [] c.f = "upper"    -> Upper
      [] c.f = "boolean"  -> <<FALSE, TRUE>>
      [] c.f = "float"    -> "in [0,1), near both ends"
      [] c.f = "hex"      -> [i \in 1..6 |-> Iota(48, 57) \o Iota(65, 70)]
      [] c.f = "digits"   -> [len |-> c.n, chars |-> IF c.n = 0 THEN <<>> ELSE Iota(48, 57)]
CasesDef ==
    [f : {"range", "rangeSafe"}, a : Lo..Hi, b : Lo..Hi]
    \cup [f : {"duration", "durationLeast"}, a : 0..MaxN, b : 0..MaxN]
    \cup [f : {"omitted"}, n : 0..MaxN, left : {"start", "end"}, form : {"object", "function", "list"}] \cup [f : {"choice"}, n : 0..MaxN, form : {"object", "function", "texts", "points", "nested", "thunks"}]
    \cup [f : {"rangeWide", "rangeSafeWide"}, w : Wide]
    \cup ([f : {"rangeBad", "rangeSafeBad"}, a : {"1", "x", "1.5", "NaN", "Infinity", "2^53"}, b : {"1", "2.5", "-Infinity", "NaN", "-2^53"}] \ [f : {"rangeBad", "rangeSafeBad"}, a : {"1"}, b : {"1"}])
    \cup [f : {"element"}, n : 1..MaxN]
    \cup [f : {"lower", "upper", "boolean", "hex", "float"}, safe : BOOLEAN]
    \cup [f : {"digits"}, n : (0..20) \cup {255, 256, 65535, 65536, 65537, 131072, 131073, 200000}]
LawDef(c, o) == c.f \in {"range", "rangeSafe"} /\ c.a <= c.b => Len(o) = c.b - c.a + 1 /\ o[1] = c.a /\ o[Len(o)] = c.b
=============================================================================
