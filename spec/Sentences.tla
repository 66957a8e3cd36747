----------------------------- MODULE Sentences ------------------------------
(* Texts cut into sentences.  A text of known sentences (each with its own end mark) is cut behind every one of them, whatever stands  *)
(* next to it, except behind an abbreviation and, when asked, behind an ellipsis.  Of any text nothing but blanks at the cuts is lost.  *)
EXTENDS FuncBase
CONSTANTS MaxSentences, MaxText
Sentence == {"test", "good", "so", "first", "ticked", "bracketed", "quoted", "example", "etc", "dots", "number", "its", "hello", "go", "really", "right", "he said", "look", "wait", "node", "mixed", "yes", "stop", "what"}
Abbreviated == {"etc"}                 \* ends with a listed abbreviation: no end of a sentence
Dotted == {"dots", "wait"}             \* ends with an ellipsis
Holds(s, ell) == s \in Abbreviated \/ (s \in Dotted /\ ~ell)
RECURSIVE Groups(_, _, _)
Groups(s, ell, open) == IF s = <<>> THEN IF open = <<>> THEN <<>> ELSE <<open>>
                        ELSE IF Holds(s[1], ell) THEN Groups(Tail(s), ell, Append(open, s[1])) ELSE <<Append(open, s[1])>> \o Groups(Tail(s), ell, <<>>)
Blank(x) == x = " "
EvalDef(c) == CASE c.f = "cut" -> Groups(c.s, c.ell, <<>>)
                [] c.f = "any" -> SelectSeq(c.t, LAMBDA x : ~Blank(x))
LawDef(c, o) == c.f = "cut" => /\ Concat(o) = c.s /\ \A i \in 1..(Len(o) - 1) : ~Holds(o[i][Len(o[i])], c.ell)
Alphabet == {"a", ".", " ", "Z", "S", "(", ")", "!", "'"}     \* Z: a Chinese character, S: a Chinese full stop
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
SSpec == ((pc = "call" /\ out = <<>> /\
   \/ \E n \in 1..2 : \E s \in [1..n -> Sentence], sep \in 1..3, ell \in BOOLEAN, end \in BOOLEAN : call = [f |-> "cut", s |-> s, sep |-> sep, ell |-> ell, end |-> end]
   \/ \E n \in 3..MaxSentences : \E s \in [1..n -> Sentence], ell \in BOOLEAN : call = [f |-> "cut", s |-> s, sep |-> 1, ell |-> ell, end |-> TRUE]
   \/ \E t \in Seqs(Alphabet, MaxText), ell \in BOOLEAN : call = [f |-> "any", t |-> t, ell |-> ell])
  /\ [][CNext]_<<pc, call, out>>)
CasesDef == {}
=============================================================================
