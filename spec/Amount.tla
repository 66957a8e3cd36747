------------------------------- MODULE Amount -------------------------------
(* Amounts written in Chinese capital words, and digits grouped with separators.                          *)
(* Words are written here as one-character texts: digits "0".."9"; S B Q (ten, hundred, thousand); W Y Z  *)
(* (sections 10^4, 10^8, 10^12); "." (yuan); j f l h (tenths .. ten-thousandths); "!" (whole); "-" sign.  *)
EXTENDS FuncBase
CONSTANTS Ones, MaxAll, MaxFrac, MaxG
D == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Dig(n) == D[n + 1]
Unit == <<"", "S", "B", "Q">>
Sect == <<"", "W", "Y", "Z">>
Frac == <<"j", "f", "l", "h">>
One(t) == IF t = "" THEN <<>> ELSE <<t>>
AllZero(q) == \A i \in 1..Len(q) : q[i] = 0
RECURSIVE Strip(_), StripEnd(_)
Strip(q) == IF q # <<>> /\ q[1] = 0 THEN Strip(Tail(q)) ELSE q
StripEnd(q) == IF q # <<>> /\ Last(q) = 0 THEN StripEnd(Front(q)) ELSE q
(* position of digit i of an n-digit number, counted from the right, from 0 *)
Pos(n, i) == n - i
(* a zero digit is read when the digit before it is not zero (it opens a run), a non-zero digit follows in the same section of four,   *)
(* or the run ends exactly in front of a section whose thousands digit is zero *)
SectionEnd(n, i) == LET p == Pos(n, i) IN n - (p \div 4) * 4          \* index of the last digit of i's section
(* the next non-zero digit after i, or 0 *)
NextNZ(q, i) == LET S == {k \in (i + 1)..Len(q) : q[k] # 0} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A m \in S : k <= m
PrevNZ(q, i) == LET S == {k \in 1..(i - 1) : q[k] # 0} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A m \in S : k >= m
(* between two consecutive non-zero digits a < b one zero is read unless they touch or b opens a section of four *)
ZeroBefore(q, b) == LET a == PrevNZ(q, b) IN a # 0 /\ b # a + 1 /\ Pos(Len(q), b) % 4 # 3
IntWords(q) ==
    LET n == Len(q)
        At(i) == LET p == Pos(n, i) IN
                 (IF q[i] = 0 THEN <<>> ELSE (IF ZeroBefore(q, i) THEN <<"0">> ELSE <<>>) \o <<Dig(q[i])>> \o One(Unit[(p % 4) + 1]))
                 \o (IF p % 4 = 0 /\ \E k \in Max(1, i - 3)..i : q[k] # 0 THEN One(Sect[(p \div 4) + 1]) ELSE <<>>)
    IN Concat([i \in 1..n |-> At(i)])
FracWords(q, whole) ==
    LET At(i) == IF q[i] = 0 THEN <<>>
                 ELSE (IF i > 1 /\ q[i - 1] = 0 /\ (whole \/ PrevNZ(q, i) # 0) THEN <<"0">> ELSE <<>>) \o <<Dig(q[i]), Frac[i]>>
    IN Concat([i \in 1..Len(q) |-> At(i)])
Words(neg, int, frac) ==
    LET i == Strip(int)
        f == StripEnd(frac)
        iw == IntWords(i)
        body == IF i = <<>> /\ f = <<>> THEN <<"0", ".", "!">>
                ELSE (IF i = <<>> THEN <<>> ELSE iw \o <<".">>) \o FracWords(f, i # <<>>) \o (IF Len(f) <= 1 THEN <<"!">> ELSE <<>>)
    IN (IF neg THEN <<"-">> ELSE <<>>) \o body
(* reading the words back: the value of each decimal position *)
Digit(t) == CHOOSE n \in 0..9 : Dig(n) = t
IsDigit(t) == \E n \in 0..9 : Dig(n) = t
UnitOf(t) == CASE t = "S" -> 1 [] t = "B" -> 2 [] t = "Q" -> 3 [] OTHER -> 0
SectOf(t) == CASE t = "W" -> 4 [] t = "Y" -> 8 [] t = "Z" -> 12 [] OTHER -> 0
FracOf(t) == CASE t = "j" -> 1 [] t = "f" -> 2 [] t = "l" -> 3 [] t = "h" -> 4 [] OTHER -> 0
(* position of the digit at word k: fraction unit right after it, or unit after it plus the next section mark before the yuan mark *)
NextSect(w, k) == LET S == {m \in (k + 1)..Len(w) : SectOf(w[m]) # 0 \/ w[m] = "."} m == CHOOSE a \in S : \A b \in S : a <= b IN SectOf(w[m])
PosOf(w, k) == IF k < Len(w) /\ FracOf(w[k + 1]) # 0 THEN -FracOf(w[k + 1]) ELSE NextSect(w, k) + (IF k < Len(w) THEN UnitOf(w[k + 1]) ELSE 0)
Value(w) == {<<PosOf(w, k), Digit(w[k])>> : k \in {m \in 1..Len(w) : IsDigit(w[m]) /\ w[m] # "0"}}
ValueOf(int, frac) == {<<Len(int) - i, int[i]>> : i \in {k \in 1..Len(int) : int[k] # 0}} \cup {<<-i, frac[i]>> : i \in {k \in 1..Len(frac) : frac[k] # 0}}
(* grouping: separators only between groups counted from the point *)
Group(q, k) == LET n == Len(q) IN Concat([i \in 1..n |-> IF i # 1 /\ (n - i + 1) % k = 0 THEN <<",", Dig(q[i])>> ELSE <<Dig(q[i])>>])
Digs(q) == [i \in 1..Len(q) |-> Dig(q[i])]
(* what converts to a finite number, and what does not *)
Convertible == {"number", "negative", "half", "text", "text with blanks", "big integer", "date", "own number", "boxed number", "hex text", "exponent text"}
Inconvertible == {"undefined", "not a number", "infinity", "negative infinity", "word", "text with a tail", "infinity text", "symbol", "bare object", "plain object", "throwing object", "function", "two items", "huge text", "bad date"}
EvalDef(c) ==
    CASE c.f = "words" -> IF Len(c.int) > 14 \/ (Len(c.frac) > 4 /\ ~AllZero(c.frac)) THEN <<"TypeError">> ELSE Words(c.neg, c.int, c.frac)
      [] c.f = "refused" -> <<"TypeError">>
      [] c.f = "group" -> (IF c.neg THEN <<"-">> ELSE <<>>) \o Group(c.int, c.k) \o (IF c.frac = <<>> THEN <<>> ELSE <<".">> \o Digs(c.frac))
      [] c.f = "inRange" -> c.v >= Min(c.a, c.b) /\ c.v <= Max(c.a, c.b)
      [] c.f = "finite" -> IF c.k \in Convertible THEN "the value" ELSE "the default"
      [] c.f = "text" -> <<IF c.n = 0 /\ c.neg THEN "-0" ELSE ToString(IF c.neg THEN -c.n ELSE c.n)>>
      [] c.f = "back" -> "the same number"     \* the text of any number reads back as that very number
      [] c.f = "toInt" -> (c.n - (c.n % c.d)) \div c.d
(* every pattern of zero and non-zero digits *)
Shape(n) == [1..n -> Ones]
Lead(n) == {q \in Shape(n) : q[1] # 0}
Pow(n) == IF n = 0 THEN {<<>>} ELSE [1..n -> {0, 1}]
Distinct(q) == [i \in 1..Len(q) |-> IF q[i] = 0 THEN 0 ELSE ((i * 3 + Len(q)) % 9) + 1]      \* fill a zero pattern with differing digits
Ints == {Distinct(q) : q \in {p \in UNION {Pow(n) : n \in 1..MaxAll} : p[1] # 0}} \cup {<<0>>}
Fracs == {Distinct(q) : q \in UNION {Pow(n) : n \in 0..4}}
SmallInts == {q \in Ints : Len(q) <= MaxFrac}
CasesDef ==
    [f : {"words"}, neg : {FALSE}, int : Ints, frac : {<<>>, <<0, 5>>}]
    \cup [f : {"words"}, neg : BOOLEAN, int : SmallInts, frac : Fracs]
    \cup [f : {"words"}, neg : {FALSE}, int : {[i \in 1..n |-> 1] : n \in 12..17}, frac : {<<>>, <<5>>, <<1, 2, 3, 4>>, <<1, 2, 3, 4, 5>>, <<0, 0, 0, 0, 1>>}]
    \cup [f : {"refused"}, t : {"", "x", "1e21", "1e-7", "0x1f", "NaN", "Infinity", "-Infinity", "1,000", "1.2.3", "--1", "1e15", "0b11", "1.5e3"} \ {""}]
    \cup [f : {"group"}, neg : BOOLEAN, int : {q \in Ints : Len(q) <= MaxG}, frac : {<<>>, <<1>>, <<1, 2, 3, 4, 5>>, <<0, 0, 0, 7>>}, k : 1..5]
    \cup [f : {"inRange"}, v : -3..3, a : -3..3, b : -3..3]
    \cup [f : {"finite"}, k : Convertible \cup Inconvertible, d : 1..4]
    \cup [f : {"text"}, neg : BOOLEAN, n : 0..1200 \cup {2147483647, 1000000, 123456789}] \cup [f : {"back"}, i : 0..900]
    \cup [f : {"toInt"}, n : -9..9, d : {1, 2, 4}]
LawDef(c, o) ==
    /\ (c.f = "words" /\ o # <<"TypeError">> =>
            /\ Value(o) = ValueOf(c.int, c.frac)                                           \* hence different amounts give different words
            /\ \A k \in 1..(Len(o) - 1) : ~(o[k] = "0" /\ o[k + 1] = "0")
            /\ (c.neg <=> o[1] = "-")
            /\ (Last(o) = "!" <=> Len(StripEnd(c.frac)) <= 1))
    /\ (c.f = "group" => SelectSeq(o, LAMBDA t : t # ",") = (IF c.neg THEN <<"-">> ELSE <<>>) \o Digs(c.int) \o (IF c.frac = <<>> THEN <<>> ELSE <<".">> \o Digs(c.frac)))
    /\ (c.f = "toInt" => o * c.d <= c.n /\ c.n < (o + 1) * c.d)
=============================================================================
