------------------------------- MODULE Replace ------------------------------
(* Texts as sequences of code points: named and numbered characters encoded and decoded, texts as patterns  *)
(* that match themselves only, and lists of replacement rules applied one after the other.                   *)
EXTENDS FuncBase, EntityTable
CONSTANTS MaxTok, MaxPat, MaxRule
AMP == 38  HASH == 35  SEMI == 59
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Points == {Entities[i][1] : i \in 1..Len(Entities)}
NameOf == [p \in Points |-> Entities[CHOOSE i \in 1..Len(Entities) : Entities[i][1] = p][2]]
Names == {Entities[i][2] : i \in 1..Len(Entities)}
PointOf == [n \in Names |-> Entities[CHOOSE i \in 1..Len(Entities) : Entities[i][2] = n][1]]
Digits == [n \in {Dec(p) : p \in Points} |-> CHOOSE p \in Points : Dec(p) = n]
RECURSIVE Encode(_, _)
Encode(t, by) == IF t = <<>> THEN <<>>
  ELSE (IF t[1] \in Points THEN IF by = "name" THEN <<AMP>> \o NameOf[t[1]] \o <<SEMI>> ELSE <<AMP, HASH>> \o Dec(t[1]) \o <<SEMI>> ELSE <<t[1]>>) \o Encode(Tail(t), by)
\* the entity at the head of t: <<its length, the character>>, or <<0>> if there is none
Head1(t, by) == LET S == {j \in 2..(IF Len(t) > 12 THEN 12 ELSE Len(t)) : t[j] = SEMI} IN
  IF t[1] # AMP \/ S = {} THEN <<0>>
  ELSE LET j == CHOOSE x \in S : \A y \in S : x <= y  inner == SubSeq(t, 2, j - 1) IN
       IF by # "point" /\ inner \in Names THEN <<j, PointOf[inner]>>
       ELSE IF by # "name" /\ inner # <<>> /\ inner[1] = HASH /\ Tail(inner) \in DOMAIN Digits THEN <<j, Digits[Tail(inner)]>> ELSE <<0>>
RECURSIVE Decode(_, _)
Decode(t, by) == IF t = <<>> THEN <<>> ELSE LET h == Head1(t, by) IN
  IF h[1] = 0 THEN <<t[1]>> \o Decode(Tail(t), by) ELSE <<h[2]>> \o Decode(SubSeq(t, h[1] + 1, Len(t)), by)
Lower(p) == IF p \in 65..90 THEN p + 32 ELSE p
Low(t, i) == IF i THEN [k \in 1..Len(t) |-> Lower(t[k])] ELSE t
Stands(t, w, i) == Len(w) <= Len(t) /\ Low(SubSeq(t, 1, Len(w)), i) = Low(w, i)
\* replace the first or every occurrence of w in t; a replacement character -1 stands for the text that was matched
Fillin(r, m) == LET RECURSIVE F(_) F(x) == IF x = <<>> THEN <<>> ELSE (IF x[1] = 0 - 1 THEN m ELSE <<x[1]>>) \o F(Tail(x)) IN F(r)
RECURSIVE Subst(_, _, _, _, _)
Subst(t, w, r, all, i) ==
  IF Stands(t, w, i) THEN
     LET rest == SubSeq(t, Len(w) + 1, Len(t)) new == Fillin(r, SubSeq(t, 1, Len(w))) IN
     IF ~all THEN new \o rest
     ELSE IF w = <<>> THEN new \o (IF t = <<>> THEN <<>> ELSE <<t[1]>> \o Subst(Tail(t), w, r, all, i)) ELSE new \o Subst(rest, w, r, all, i)
  ELSE IF t = <<>> THEN <<>> ELSE <<t[1]>> \o Subst(Tail(t), w, r, all, i)
RECURSIVE Rules(_, _)
Rules(t, rs) == IF rs = <<>> THEN t ELSE Rules(Subst(t, rs[1].w, rs[1].r, rs[1].all, FALSE), Tail(rs))
EvalDef(c) ==
  CASE c.f = "encode" -> Encode(c.t, c.by)
    [] c.f = "decode" -> Decode(c.t, c.by)
    [] c.f = "whole"  -> Low(c.t, c.i) = Low(c.w, c.i)
    [] c.f = "subst"  -> Subst(c.t, c.w, <<35>>, c.all, c.i)
    [] c.f = "class"  -> SelectSeq(c.t, LAMBDA p : p \notin {c.w[i] : i \in 1..Len(c.w)})     \* the characters listed, whatever they mean elsewhere
    [] c.f = "rules"  -> Rules(c.t, c.rs)
LawDef(c, o) ==
  CASE c.f = "encode" -> /\ Decode(o, c.by) = c.t /\ Decode(o, "both") = c.t                 \* encoding is undone by decoding
                         /\ ((\A i \in 1..Len(c.t) : c.t[i] \notin Points) => o = c.t)
    [] c.f = "decode" -> Len(o) <= Len(c.t)
    [] OTHER -> TRUE
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Toks == {<<AMP>>, <<97, 109, 112, SEMI>>, <<HASH, 51, 56, SEMI>>, <<108, 116, SEMI>>, <<SEMI>>, <<97>>, <<60>>, <<160>>, <<32>>}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Specials == {91, 93, 40, 41, 123, 125, 94, 36, 46, 63, 42, 43, 124, 92, 47, 45, 97, 10}
Probe == <<45, 40, 41, 42, 43, 44, 46, 47, 48, 63, 65, 91, 92, 93, 94, 95, 96, 97, 98, 99, 122, 123, 124, 125, 126, 36, 10, 120, 100, 50>>
RSpec == ((pc = "call" /\ out = <<>> /\
   \/ \E s \in Seqs(Toks, MaxTok), by \in {"name", "point", "both"} : call = [f |-> "decode", t |-> Flat(s), by |-> by]
   \/ \E s \in Seqs(Toks, MaxTok - 1), by \in {"name", "point"} : call = [f |-> "encode", t |-> Flat(s), by |-> by]
   \/ \E i \in 1..Len(Entities), by \in {"name", "point"}, k \in 0..1 : call = [f |-> "encode", by |-> by, t |-> IF k = 0 THEN <<Entities[i][1]>> ELSE <<120, Entities[i][1], Entities[((i * 7) % 253) + 1][1], SEMI>>]
   \/ \E i \in 1..Len(Entities), by \in {"name", "point", "both"}, k \in 0..4 :
        LET n == <<AMP>> \o Entities[i][2] \o <<SEMI>> d == <<AMP, HASH>> \o Dec(Entities[i][1]) \o <<SEMI>> IN
        call = [f |-> "decode", by |-> by, t |-> CASE k = 0 -> n [] k = 1 -> d [] k = 2 -> n \o d \o n [] k = 3 -> <<AMP, HASH, 51, 56, SEMI>> \o Tail(n) [] k = 4 -> <<AMP, 97, 109, 112, SEMI>> \o Tail(d)]
   \/ \E t \in Seqs(Specials, MaxPat), w \in Seqs(Specials, MaxPat - 1), i \in BOOLEAN : w # <<>> /\ call = [f |-> "whole", t |-> t, w |-> w, i |-> i]
   \/ \E a \in Specials, b \in Specials, c \in Specials, i \in BOOLEAN : call = [f |-> "whole", t |-> <<a, b, c>>, w |-> <<a, b, c>>, i |-> i]
   \/ \E a \in Specials, b \in Specials, c \in Specials, d \in {0, 45, 93, 98} : call = [f |-> "class", w |-> IF d = 0 THEN <<a, b, c>> ELSE <<a, d, b, d, c>>, t |-> Probe]
   \/ \E a \in Specials, b \in {97, 65, 46, 36}, all \in BOOLEAN, i \in BOOLEAN, t \in Seqs({97, 65, 46, 36}, 3) : call = [f |-> "subst", t |-> <<a, b>> \o t \o <<a, b, b, a, b>>, w |-> <<a, b>>, all |-> all, i |-> i]
   \/ \E t \in Seqs({97, 98, 99}, MaxRule), x \in Seqs({97, 98}, 2), y \in {<<98>>, <<97>>, <<98, 97>>, <<>>}, r \in {<<98>>, <<97, 97>>, <<>>, <<98, 0 - 1>>, <<99>>}, all \in {<<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>} :
        call = [f |-> "rules", t |-> t, rs |-> << [w |-> x, r |-> r, all |-> all[1]], [w |-> y, r |-> <<99>>, all |-> all[2]] >>]))
  /\ [][CNext]_<<pc, call, out>>
CasesDef == {}
=============================================================================
