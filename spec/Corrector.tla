----------------------------- MODULE Corrector ------------------------------
(* Chinese text made neat.  A text is a sequence of symbols: Z Chinese words, W Latin words or numbers, P Chinese punctuation, B one   *)
(* blank, D a middle dot, the Latin marks , . ! ? : ; ~ and the operators + - = ^ & |.  Neat: one blank between Chinese and Latin, a   *)
(* Chinese comma for blanks between Chinese, Chinese marks for Latin ones that stand behind Chinese, blanks around operators next to   *)
(* Chinese and around brackets, none inside brackets or around middle dots; everything else stays as it is.                           *)
EXTENDS FuncBase
CONSTANTS MaxText, MaxFew, MaxPlain
Marks == {",", ".", "!", "?", ":", ";", "~"}
Ops == {"+", "-", "=", "^", "&", "|"}
\* ---- tokens: a symbol that is no blank, with the number of blanks before it
RECURSIVE Toks(_, _)
Toks(t, g) == IF t = <<>> THEN <<>> ELSE IF t[1] = "B" THEN Toks(Tail(t), g + 1) ELSE <<[k |-> t[1], g |-> g]>> \o Toks(Tail(t), 0)
Tokens(t) == LET q == Toks(t, 0) IN IF q = <<>> THEN q ELSE <<[q[1] EXCEPT !.g = 0]>> \o Tail(q)
K(q, i) == IF i \in 1..Len(q) THEN q[i].k ELSE "-"
\* ---- the texts that are modelled (brackets come in pairs and not within each other)
Count(q, i) == Cardinality({j \in 1..i : q[j].k \in {"(", ")"}})
Good(q) == Count(q, Len(q)) % 2 = 0 /\ \A i \in 1..Len(q) :
   LET p == K(q, i - 1)  x == q[i].k  n == K(q, i + 1)  g == q[i].g  h == IF i < Len(q) THEN q[i + 1].g ELSE 0 IN
   /\ x = "W" => ~(p = "W" /\ g = 0)
   /\ x = "(" => Count(q, i) % 2 = 1 /\ n \notin {"-", ")", "("} \cup Marks \cup Ops /\ p \notin Marks \cup Ops
   /\ x = ")" => Count(q, i) % 2 = 0 /\ p \notin {"(", "-"} \cup Marks \cup Ops /\ n \notin Marks \cup Ops
   /\ x \in Marks => /\ p \in {"Z", "W"}
                     /\ n \notin Marks \cup Ops \cup {"D"}
                     /\ p = "W" => g = 0 /\ ~(n = "W" /\ h = 0)
   /\ x \in Ops => p \in {"Z", "W"} /\ n \in {"Z", "W"} /\ g <= 1 /\ h <= 1
   /\ x = "D" => p \notin Ops \cup {"D"} /\ n \notin Ops \cup {"D"}
\* ---- with the enhanced rules
Converted(q, i) == LET x == K(q, i)  n == K(q, i + 1)  h == IF i < Len(q) THEN q[i + 1].g ELSE 0 IN
   /\ x \in Marks /\ K(q, i - 1) = "Z"
   /\ \/ n = "Z"
      \/ x \in {",", ";", "!", "?", "~"} /\ (n = "-" \/ h > 0)
      \/ x = ":" /\ n = "W" /\ q[i].g = 0
Max2(a, b) == IF a > b THEN a ELSE b
Bl(n) == [k \in 1..n |-> "B"]
Gap(q, i) == LET p == K(q, i - 1)  x == q[i].k  n == K(q, i + 1)  g == q[i].g IN
   IF i = 1 THEN <<>>
   ELSE IF x = "D" \/ p = "D" THEN <<>>
   ELSE IF p = "(" \/ x = ")" THEN <<>>
   ELSE IF (x = "(" /\ p \in {"Z", "W"}) \/ (p = ")" /\ x \in {"Z", "W"}) THEN Bl(Max2(g, 1))
   ELSE IF p = "Z" /\ x = "Z" THEN (IF g = 0 THEN <<>> ELSE <<"c,">>)
   ELSE IF (p = "Z" /\ x = "W") \/ (p = "W" /\ x = "Z") THEN Bl(Max2(g, 1))
   ELSE IF Converted(q, i) \/ Converted(q, i - 1) THEN <<>>
   ELSE IF x \in Ops THEN (IF p = "Z" \/ n = "Z" THEN Bl(1) ELSE Bl(g))
   ELSE IF p \in Ops THEN (IF x = "Z" \/ K(q, i - 2) = "Z" THEN Bl(1) ELSE Bl(g))
   ELSE IF x = "~" /\ p = "Z" /\ n = "W" /\ q[i + 1].g = 0 THEN Bl(Max2(g, 1))
   ELSE IF p \in Marks /\ x = "Z" THEN Bl(Max2(g, 1))
   ELSE Bl(g)
Chinese(m) == CASE m = "," -> "c," [] m = "." -> "c." [] m = "!" -> "c!" [] m = "?" -> "c?" [] m = ":" -> "c:" [] m = ";" -> "c;" [] m = "~" -> "c~"
Neat(q) == Concat([i \in 1..Len(q) |-> Gap(q, i) \o <<IF Converted(q, i) THEN Chinese(q[i].k) ELSE q[i].k>>])
\* ---- without them: Chinese, words and Chinese punctuation only
Plain(q) == \A i \in 1..Len(q) : q[i].k \in {"Z", "W", "P"} /\ ~(i > 1 /\ q[i].k = "Z" /\ q[i - 1].k = "Z" /\ q[i].g > 0)
Simple(q) == Concat([i \in 1..Len(q) |-> (IF i = 1 THEN <<>>
                                           ELSE IF q[i].k = "W" /\ q[i - 1].k = "W" THEN Bl(q[i].g)
                                           ELSE IF {q[i].k, q[i - 1].k} = {"Z", "W"} THEN Bl(1) ELSE <<>>) \o <<q[i].k>>])
\* ---- full-width characters become the half-width ones, but for the common Chinese marks
Kept == {65281, 65288, 65289, 65292, 65306, 65307, 65311}        \* full-width ! ( ) , : ; ?
Half(c) == IF c = 12288 THEN 32 ELSE IF c \in 65281..65374 /\ c \notin Kept THEN c - 65248 ELSE c
NoBlank(s) == SelectSeq(s, LAMBDA c : c # 32)
\* ---- the characters: which are Chinese (and kana, bopomofo and the like), and which others are told from them by a blank
Blocks == <<<<11904, 12031>>, <<12032, 12255>>, <<12352, 12447>>, <<12448, 12538>>, <<12540, 12543>>, <<12544, 12591>>, <<12800, 13055>>, <<13312, 19903>>, <<19968, 40959>>, <<63744, 64255>>>>
Others == <<<<48, 57>>, <<65, 90>>, <<97, 122>>, <<161, 182>>, <<184, 255>>, <<880, 1023>>, <<8528, 8591>>, <<9984, 10175>>>>
In(c, bs) == \E i \in 1..Len(bs) : c \in bs[i][1]..bs[i][2]
Points(bs) == UNION {{bs[i][1], bs[i][1] + 1, (bs[i][1] + bs[i][2]) \div 2, (bs[i][1] + 3 * bs[i][2]) \div 4, bs[i][2] - 1, bs[i][2]} : i \in 1..Len(bs)}
Apart(a, b) == (In(a, Blocks) /\ In(b, Others)) \/ (In(a, Others) /\ In(b, Blocks))
\* ---- whatever the text: blanks come and go, a comma may take the place of blanks, marks become Chinese ones, dots become one; all else stays
(* line breaks and tabs are no blanks: they stay, unless they stand at either end *)
RECURSIVE Ahead(_), Inner(_)
Ahead(t) == IF t # <<>> /\ Head(t) \in {"B", "N"} THEN Ahead(Tail(t)) ELSE t
Inner(t) == LET u == Ahead(t) IN IF u # <<>> /\ u[Len(u)] \in {"B", "N"} THEN Inner(SubSeq(u, 1, Len(u) - 1)) ELSE u
EvalDef(c) == CASE c.f = "neat" -> Neat(Tokens(c.t))
                [] c.f = "simple" -> Simple(Tokens(c.t))
                [] c.f = "half" -> NoBlank(IF c.on THEN [i \in 1..Len(c.s) |-> Half(c.s[i])] ELSE c.s)
                [] c.f = "side" -> <<c.a>> \o (IF Apart(c.a, c.b) THEN <<32>> ELSE <<>>) \o <<c.b>>
                [] c.f = "kept" -> SelectSeq(Inner(c.t), LAMBDA x : x \notin {"B", ","})
\* neat text has no blank at its ends, and no two words of different kinds touch; making it neat again changes nothing
Touch(a, b) == {a, b} = {"Z", "W"}
LawDef(c, o) == c.f \in {"neat", "simple"} => /\ o = <<>> \/ (o[1] # "B" /\ o[Len(o)] # "B")
                                              /\ \A i \in 1..(Len(o) - 1) : ~Touch(o[i], o[i + 1])
                                              /\ c.f = "neat" => SelectSeq(o, LAMBDA x : x \in {"Z", "W", "P", "D", "(", ")"}) = SelectSeq(c.t, LAMBDA x : x \in {"Z", "W", "P", "D", "(", ")"})
Alphabet == {"Z", "W", "P", "B", "D", "(", ")"} \cup Marks \cup Ops
Few == {"Z", "W", "B", ",", ".", "(", "+", ")"}
Base == {"Z", "W", "P", "B"}
Odd == {"Z", "W", "B", "P", ",", ".", "+", "'", "(", ")", "*", "/", "#", "N"}
SSpec == ((pc = "call" /\ out = <<>> /\
   \/ \E n \in 0..MaxText : \E t \in [1..n -> Alphabet] : Good(Tokens(t)) /\ call = [f |-> "neat", t |-> t]
   \/ \E n \in (MaxText + 1)..MaxFew : \E a \in Few : \E u \in [1..(n - 1) -> Few] : LET t == <<a>> \o u IN Good(Tokens(t)) /\ call = [f |-> "neat", t |-> t]
   \/ \E n \in 0..MaxPlain : \E t \in [1..n -> Base] : Good(Tokens(t)) /\ Plain(Tokens(t)) /\ call = [f |-> "simple", t |-> t]
   \/ \E a \in 65270..65390, on \in BOOLEAN : call = [f |-> "half", s |-> <<97, a, 98>>, on |-> on]
   \/ \E a \in {12288, 12287, 12289, 32, 126, 8361, 65504, 65377, 65440, 128512}, b \in {12288, 65313, 65371, 65281, 65374}, on \in BOOLEAN : call = [f |-> "half", s |-> <<97, b, a, b, 98>>, on |-> on]
   \/ MaxText > 0 /\ \E a \in Points(Blocks), b \in Points(Blocks) \cup Points(Others) : \E p \in {<<a, b>>, <<b, a>>}, on \in BOOLEAN :
        (on \/ b < 123 \/ In(b, Blocks)) /\ call = [f |-> "side", a |-> p[1], b |-> p[2], on |-> on]
   \/ \E n \in 0..MaxText : \E t \in [1..n -> Odd] : call = [f |-> "kept", t |-> t])
  /\ [][CNext]_<<pc, call, out>>)
CasesDef == {}
=============================================================================
