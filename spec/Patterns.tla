------------------------------ MODULE Patterns ------------------------------
(* Patterns over texts of 16-bit units, the matches found in a text from a remembered position on, and what *)
(* the functions built on them answer.  A pattern: k lit (the word w), run (n or more of the unit c),        *)
(* end (the end of the text), pair (an a, optionally followed by a b; both captured).                        *)
EXTENDS FuncBase
CONSTANTS MaxText, MaxList
A == 97  B == 98  HI == 55357  LO == 56832
Unit(t, i) == IF i + 1 \in 1..Len(t) THEN t[i + 1] ELSE 0 - 1           \* the unit at offset i
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
\* the length of the match of p in t at offset i, -1 if there is none
At(p, t, i) ==
  CASE p.k = "lit" -> IF i + Len(p.w) <= Len(t) /\ \A j \in 1..Len(p.w) : t[i + j] = p.w[j] THEN Len(p.w) ELSE 0 - 1
    [] p.k = "run" -> LET n == MaxOf({j \in 0..(Len(t) - i) : \A x \in 1..j : t[i + x] = p.c}) IN IF n >= p.n THEN n ELSE 0 - 1
    [] p.k = "end" -> IF i = Len(t) THEN 0 ELSE 0 - 1
    [] p.k = "pair" -> IF Unit(t, i) # A THEN 0 - 1 ELSE IF Unit(t, i + 1) = B THEN 2 ELSE 1
\* with the flag u nothing is found between the halves of a character
Inner(p, t, i) == p.u /\ i > 0 /\ i < Len(t) /\ t[i] = HI /\ t[i + 1] = LO
From(p, t, i) ==  \* the offset of the next match, -1 if there is none
  IF p.y THEN IF i <= Len(t) /\ At(p, t, i) >= 0 THEN i ELSE 0 - 1
  ELSE LET S == {j \in i..Len(t) : At(p, t, j) >= 0 /\ ~Inner(p, t, j)} IN IF S = {} THEN 0 - 1 ELSE MinOf(S)
Groups(p, t, i) == IF p.k # "pair" THEN <<>> ELSE <<1, IF Unit(t, i + 1) = B THEN 1 ELSE 0>>
M(p, t, i) == [at |-> i, len |-> At(p, t, i), groups |-> Groups(p, t, i)]
RECURSIVE All(_, _, _)
All(p, t, i) ==
  LET j == IF i > Len(t) THEN 0 - 1 ELSE From(p, t, i) IN
  IF j < 0 THEN <<>> ELSE <<M(p, t, j)>> \o All(p, t, IF At(p, t, j) > 0 THEN j + At(p, t, j) ELSE IF p.u /\ Unit(t, j) = HI /\ Unit(t, j + 1) = LO THEN j + 2 ELSE j + 1)
First(p, t, i) == LET j == From(p, t, i) IN IF j < 0 THEN <<>> ELSE <<M(p, t, j)>>
Found(p, t) == From(p, t, 0) >= 0
Matches(p, t) == IF p.g THEN All(p, t, 0) ELSE First(p, t, 0)
Ms(s) == [i \in 1..Len(s) |-> <<s[i].at, s[i].len>>]
EvalDef(c) ==
  CASE c.f = "all" -> IF c.p.g THEN All(c.p, c.t, c.from) ELSE First(c.p, c.t, IF c.p.y THEN c.from ELSE 0)
    [] c.f = "every" -> IF c.t = <<>> /\ c.ps = <<>> THEN "refused" ELSE \A i \in 1..Len(c.ps) : Found(c.ps[i], c.t)
    [] c.f = "some" -> IF c.t = <<>> /\ c.ps = <<>> THEN "refused" ELSE \E i \in 1..Len(c.ps) : Found(c.ps[i], c.t)
    [] c.f = "order" -> LET S == {i \in 1..Len(c.ps) : Found(c.ps[i], c.t)} IN
                        IF c.t = <<>> \/ S = {} THEN <<>> ELSE LET p == c.ps[MinOf(S)] s == Matches(p, c.t) IN [i \in 1..Len(s) |-> [from |-> MinOf(S), len |-> s[i].len, at |-> IF p.g THEN 0 - 1 ELSE s[i].at]]
    [] c.f = "split" -> LET j == From(c.p, c.t, 0) IN IF c.t = <<>> \/ j < 0 THEN <<>> ELSE LET e == j + At(c.p, c.t, j) IN <<SubSeq(c.t, 1, j), SubSeq(c.t, j + 1, e), SubSeq(c.t, e + 1, Len(c.t))>>
LawDef(c, o) ==
  CASE c.f = "all" -> /\ \A i \in 1..(Len(o) - 1) : o[i].at + o[i].len <= o[i + 1].at /\ (o[i].len = 0 => o[i].at < o[i + 1].at)   \* each match once, in order
                      /\ (c.p.g => \A i \in 1..Len(o) : o[i].at >= c.from)
                      \* complete: a place where the pattern matches is a match found, lies in one, or follows no longer
                      /\ (c.p.g /\ ~c.p.y => \A j \in c.from..Len(c.t) : At(c.p, c.t, j) >= 0 /\ ~Inner(c.p, c.t, j) => \E i \in 1..Len(o) : o[i].at = j \/ (o[i].at < j /\ j < o[i].at + o[i].len) )
    [] c.f = "split" -> o = <<>> \/ o[1] \o o[2] \o o[3] = c.t
    [] OTHER -> TRUE
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
\* (fields in the same order for every kind)
Kinds == {[k |-> "lit", w |-> <<A>>, c |-> 0, n |-> 0], [k |-> "lit", w |-> <<A, B>>, c |-> 0, n |-> 0], [k |-> "lit", w |-> <<>>, c |-> 0, n |-> 0], [k |-> "lit", w |-> <<B, A, B>>, c |-> 0, n |-> 0],
          [k |-> "run", w |-> <<>>, c |-> A, n |-> 0], [k |-> "run", w |-> <<>>, c |-> A, n |-> 1], [k |-> "run", w |-> <<>>, c |-> B, n |-> 2],
          [k |-> "end", w |-> <<>>, c |-> 0, n |-> 0], [k |-> "pair", w |-> <<>>, c |-> 0, n |-> 0]}
Pats == {k @@ f : k \in Kinds, f \in [g : BOOLEAN, y : BOOLEAN, u : BOOLEAN]}
Plain == {k @@ [g |-> FALSE, y |-> FALSE, u |-> FALSE] : k \in Kinds} \cup {k @@ [g |-> TRUE, y |-> FALSE, u |-> FALSE] : k \in Kinds} \cup {k @@ [g |-> FALSE, y |-> TRUE, u |-> FALSE] : k \in Kinds}
Texts == Seqs({A, B}, MaxText) \cup {<<HI, LO>>, <<A, HI, LO>>, <<HI, LO, A, HI, LO, B>>, <<HI, LO, HI, LO>>}
PSpec == ((pc = "call" /\ out = <<>> /\
   \/ \E t \in Texts, p \in Pats : \E from \in 0..(Len(t) + 1) : ~Inner(p, t, from) /\ call = [f |-> "all", t |-> t, p |-> p, from |-> from]
   \/ \E t \in Seqs({A, B}, 3), ps \in Seqs(Plain, MaxList), f \in {"every", "some", "order"} : /\ (t = <<>> => \A i \in 1..Len(ps) : ~Found(ps[i], t)) /\ (f = "order" => \A i \in 1..Len(ps) : ~ps[i].y) /\ call = [f |-> f, t |-> t, ps |-> ps]
   \/ \E t \in Texts, p \in Plain : call = [f |-> "split", t |-> t, p |-> p]))
  /\ [][CNext]_<<pc, call, out>>
CasesDef == {}
=============================================================================
