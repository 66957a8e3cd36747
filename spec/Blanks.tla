------------------------------- MODULE Blanks -------------------------------
(* Texts as sequences of code points; the four classes of blank characters, trimming, removing, counting,   *)
(* words, looking in front of / behind a position, prefixes, and blanks filled in around matches.           *)
EXTENDS FuncBase
CONSTANTS MaxTrim, MaxFind, MaxPoint
ZeroWidth == {65279} \cup (8203..8207) \cup (8234..8238) \cup (8288..8292) \cup (8294..8303)
LikeSpace == {160, 8287, 8239, 12288} \cup (8192..8202)
Control   == {8232, 8233, 9, 13, 10, 12, 11, 8, 133}
White     == {9, 10, 11, 12, 13, 32, 160, 5760, 8232, 8233, 8239, 8287, 12288, 65279} \cup (8192..8202)
In(c, p) == (c.sp /\ p = 32) \/ (c.zw /\ p \in ZeroWidth) \/ (c.ls /\ p \in LikeSpace) \/ (c.ct /\ p \in Control) \/ p \in Range(c.ex)
RECURSIVE TrimF(_, _)
TrimF(c, t) == IF t # <<>> /\ In(c, t[1]) THEN TrimF(c, Tail(t)) ELSE t
RECURSIVE TrimB(_, _)
TrimB(c, t) == IF t # <<>> /\ In(c, t[Len(t)]) THEN TrimB(c, SubSeq(t, 1, Len(t) - 1)) ELSE t
Every(c, t) == SelectSeq(t, LAMBDA p : ~In(c, p))
Lower(p) == IF p \in 65..90 THEN p + 32 ELSE p
Low(t, cs) == IF cs THEN t ELSE [i \in 1..Len(t) |-> Lower(t[i])]
StandsAt(t, k, n) == k + Len(n) <= Len(t) /\ \A i \in 1..Len(n) : t[k + i] = n[i]
Has(t, n) == \E k \in 0..Len(t) : StandsAt(t, k, n)
Cutoff(t, k) == SubSeq(t, k + 1, Len(t))
NoWhite(p) == p \notin White
Ends(t, k) == {i \in (k + 1)..Len(t) : NoWhite(t[i])}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
Leading(t, p) == LET S == {i \in 1..Len(t) : t[i] # p} IN IF S = {} THEN Len(t) ELSE MinOf(S) - 1
Nil == 0 - 1
\* fill blanks around runs of digits: next to a run, where a neighbour exists that is neither punctuation nor a blank
Digit(p) == p \in 48..57
Punct == {32, 33, 34, 40, 41, 44, 46, 58, 59, 63, 12290, 65292, 8212, 8220, 91, 93, 95}
Apart(p) == p \notin Punct
RECURSIVE Fill(_, _, _, _)
Fill(t, i, all, done) ==       \* done: a run has been treated and only the first is wanted
  IF i > Len(t) THEN <<>>
  ELSE IF ~Digit(t[i]) \/ done THEN <<t[i]>> \o Fill(t, i + 1, all, done)
  ELSE LET S == {j \in i..Len(t) : ~Digit(t[j])} IN LET e == IF S = {} THEN Len(t) ELSE MinOf(S) - 1 IN
       (IF i > 1 /\ Apart(t[i - 1]) THEN <<32>> ELSE <<>>) \o SubSeq(t, i, e) \o (IF e < Len(t) /\ Apart(t[e + 1]) THEN <<32>> ELSE <<>>)
       \o Fill(t, e + 1, all, ~all)
EvalDef(c) ==
  CASE c.f = "trim" -> (CASE c.w = "start" -> TrimF(c, c.t) [] c.w = "end" -> TrimB(c, c.t)
                         [] c.w = "both" -> TrimB(c, TrimF(c, c.t)) [] c.w = "all" -> Every(c, c.t))
    [] c.f = "blank" -> \A i \in 1..Len(c.t) : In(c, c.t[i])
    [] c.f = "rm" -> (CASE c.w = "start" -> TrimF(c, c.t) [] c.w = "end" -> TrimB(c, c.t)
                       [] c.w = "all" -> IF c.ls THEN [i \in 1..Len(TrimB(c, TrimF(c, c.t))) |-> IF In(c, TrimB(c, TrimF(c, c.t))[i]) THEN 32 ELSE TrimB(c, TrimF(c, c.t))[i]] ELSE Every(c, c.t))
    [] c.f = "class" -> <<c.p = 32, c.p \in ZeroWidth, c.p \in LikeSpace, c.p \in Control>>
    [] c.f = "lead" -> <<Leading(c.t, 32), Leading(c.t, 9)>>
    [] c.f = "word" -> LET E == Ends(c.t, c.k) IN IF E = {} THEN <<Nil, Nil>> ELSE <<MinOf(E) - 1, MaxOf(E) - 1>>
    [] c.f = "behind" -> c.t # <<>> /\ \E i \in 1..Len(c.n) : Has(Low(Cutoff(c.t, c.k), c.cs), Low(c.n[i], c.cs))
    [] c.f = "front" -> c.t # <<>> /\ \E i \in 1..Len(c.n) : Has(Low(SubSeq(c.t, 1, IF c.k = Nil \/ c.k >= Len(c.t) THEN Len(c.t) ELSE c.k + 1), c.cs), Low(c.n[i], c.cs))
    [] c.f = "notStarts" -> c.t = <<>> \/ ~\E i \in 1..Len(c.n) : StandsAt(Low(c.t, c.cs), c.k, Low(c.n[i], c.cs))
    [] c.f = "slice" -> IF StandsAt(Low(c.t, c.cs), c.k, Low(c.n[1], c.cs)) THEN (IF c.keep THEN SubSeq(c.t, 1, c.k) ELSE <<>>) \o Cutoff(c.t, c.k + Len(c.n[1])) ELSE c.t
    [] c.f = "fill" -> Fill(c.t, 1, c.all, FALSE)
RECURSIVE Kept(_, _)   \* is a a subsequence of b
Kept(a, b) == a = <<>> \/ (b # <<>> /\ IF a[1] = b[1] THEN Kept(Tail(a), Tail(b)) ELSE Kept(a, Tail(b)))
LawDef(c, o) ==
  CASE c.f = "trim" -> /\ Kept(o, c.t) /\ Every(c, o) = Every(c, c.t)                        \* only selected characters go
                       /\ (o # <<>> /\ c.w \in {"start", "both"} => ~In(c, o[1])) /\ (o # <<>> /\ c.w \in {"end", "both"} => ~In(c, o[Len(o)]))
                       /\ (c.w = "all" => \A i \in 1..Len(o) : ~In(c, o[i]))
                       /\ EvalDef([c EXCEPT !.t = o]) = o                                     \* nothing left to trim
    [] c.f = "word" -> o = <<Nil, Nil>> \/ (o[1] >= c.k /\ o[2] >= o[1] /\ o[2] < Len(c.t))
    [] c.f = "class" -> Len(SelectSeq(o, LAMBDA b : b)) <= 1                                   \* the classes are disjoint
    [] c.f = "fill" -> SelectSeq(o, LAMBDA p : p # 32) = SelectSeq(c.t, LAMBDA p : p # 32) /\ Kept(c.t, o)
    [] OTHER -> TRUE
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Selections == [sp : BOOLEAN, zw : BOOLEAN, ls : BOOLEAN, ct : BOOLEAN]
Extras == {<<>>, <<93>>, <<94, 97>>, <<97, 45, 122>>, <<92>>}
BSpec == ((pc = "call" /\ out = <<>> /\
   \/ \E t \in Seqs({32, 8203, 12288, 9, 97, 93, 98}, MaxTrim), s \in Selections, e \in Extras, w \in {"start", "end", "both", "all"} :
        /\ (e # <<>> => s.zw = s.ls /\ s.ct = s.sp)
        /\ call = [f |-> "trim", t |-> t, w |-> w, ex |-> e] @@ s
   \/ \E t \in [1..2 -> {92, 94, 45, 100, 119, 93, 128512, 128513, 44}] \cup [1..3 -> {92, 94, 45, 100, 128512}], e \in {<<93>>, <<94>>, <<45>>, <<92>>, <<92, 100>>, <<97, 45, 122>>, <<128512>>, <<93, 94>>, <<44>>}, w \in {"start", "end", "both", "all"} :
        call = [f |-> "trim", t |-> t, w |-> w, ex |-> e, sp |-> TRUE, zw |-> TRUE, ls |-> TRUE, ct |-> TRUE]
   \/ \E t \in Seqs({32, 8203, 12288, 9, 97, 93}, 2), s \in Selections, e \in Extras :
        /\ t # <<>> /\ call = [f |-> "blank", t |-> t, ex |-> e] @@ s
   \/ \E t \in Seqs({32, 8203, 8232, 12288, 8192, 9, 97}, MaxTrim), k \in {"zw", "ls", "ct"}, w \in {"start", "end", "all"} :
        call = [f |-> "rm", t |-> t, w |-> w, sp |-> FALSE, zw |-> k = "zw", ls |-> k = "ls", ct |-> k = "ct", ex |-> <<>>]
   \/ \E p \in (0..MaxPoint) \cup (8180..8310) \cup (12280..12300) \cup (65270..65290) \cup {65534, 65535} : call = [f |-> "class", p |-> p]
   \/ \E t \in Seqs({32, 9, 97, 12288, 10}, MaxFind) : call = [f |-> "lead", t |-> t]
   \/ \E t \in Seqs({32, 97, 10, 12288, 8203}, MaxFind), k \in 0..(MaxFind + 1) : call = [f |-> "word", t |-> t, k |-> k]
   \/ \E t \in Seqs({97, 65, 46, 98}, MaxFind), n \in {<<>>, <<<<97>>>>, <<<<65>>>>, <<<<46>>>>, <<<<97, 98>>>>, <<<<98, 66>>>>, <<<<46, 97>>>>, <<<<122>>, <<66>>>>, <<<<97, 42>>>>, <<<<91>>, <<98, 46>>>>, <<<<>>>>}, cs \in BOOLEAN, f \in {"behind", "front", "notStarts", "slice"}, keep \in BOOLEAN :
        /\ (f = "slice" => Len(n) = 1) /\ (f # "slice" => ~keep)
        /\ \E k \in Nil..(Len(t) + (IF f \in {"behind", "front"} THEN 1 ELSE 0)) : (k = Nil => f = "front")
             /\ ~(f = "behind" /\ k > Len(t)) /\ call = [f |-> f, t |-> t, k |-> k, n |-> n, cs |-> cs, keep |-> keep]
   \/ \E t \in Seqs({48, 57, 20013, 97, 44, 32, 65292}, MaxTrim + 1), all \in BOOLEAN : call = [f |-> "fill", t |-> t, all |-> all]))
  /\ [][CNext]_<<pc, call, out>>
CasesDef == {}
=============================================================================
