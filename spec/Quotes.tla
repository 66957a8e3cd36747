------------------------------- MODULE Quotes -------------------------------
(* Texts cut into what stands outside of quotes and brackets and what stands in them, and the quote left    *)
(* open by a text read from either side.  Characters are one-character strings,       *)
(* beyond ASCII written u followed by their code.                                                            *)
EXTENDS FuncBase
CONSTANTS MaxText, MaxQuote
Marks == << <<"'", "'">>, <<"\"", "\"">>, <<"`", "`">>, <<"u2039", "u203A">>, <<"u00AB", "u00BB">>, <<"(", ")">>, <<"[", "]">>, <<"{", "}">>, <<"u2985", "u2986">>, <<"u2997", "u2998">>,
  <<"u27E6", "u27E7">>, <<"u27E8", "u27E9">>, <<"u27EA", "u27EB">>, <<"u27EC", "u27ED">>, <<"u27EE", "u27EF">>, <<"u3018", "u3019">>, <<"u301A", "u301B">>, <<"<", ">">>, <<"u2018", "u2019">>, <<"u201C", "u201D">>, <<"u301D", "u301E">>,
  <<"uFF08", "uFF09">>, <<"uFF3B", "uFF3D">>, <<"uFF5B", "uFF5D">>, <<"uFF5F", "uFF60">>, <<"u3008", "u3009">>, <<"u300A", "u300B">>, <<"u300C", "u300D">>, <<"u300E", "u300F">>, <<"u3010", "u3011">>, <<"u3014", "u3015">>, <<"u3016", "u3017">>, <<"uFF1C", "uFF1E">> >>
MarksOf(c) == IF c.marks = <<>> THEN Marks ELSE c.marks
Opens(M, ch) == {i \in 1..Len(M) : M[i][1] = ch}
CloseOf(M, ch) == LET S == Opens(M, ch) IN IF S = {} THEN "" ELSE M[CHOOSE i \in S : TRUE][2]
Letter(ch) == ch \in {"a", "b", "z"}
Ch(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE ""
\* the apostrophe of a word: a letter before, one or two letters after, then something that is no letter
Apostrophe(t, i) == /\ Ch(t, i) = "'" /\ Letter(Ch(t, i - 1)) /\ Letter(Ch(t, i + 1))
                    /\ LET k == IF Letter(Ch(t, i + 2)) THEN i + 3 ELSE i + 2 IN k <= Len(t) /\ ~Letter(t[k])
\* the place of the close of the group of marks opened at i - 1 (with neighbouring groups joined on), 0 if it stays open
RECURSIVE Close(_, _, _, _, _)
Close(c, i, o, e, depth) ==
  LET t == c.t M == MarksOf(c) IN
  IF i > Len(t) THEN 0
  ELSE IF c.esc /\ t[i] = "\\" THEN Close(c, IF Ch(t, i + 1) \in {o, e, "\\"} THEN i + 2 ELSE i + 1, o, e, depth)
  ELSE IF Apostrophe(t, i) THEN Close(c, i + 2, o, e, depth)
  ELSE IF t[i] = e THEN IF depth > 0 THEN Close(c, i + 1, o, e, depth - 1)
                        ELSE IF CloseOf(M, Ch(t, i + 1)) # "" THEN Close(c, i + 2, t[i + 1], CloseOf(M, t[i + 1]), 0) ELSE i
  ELSE IF t[i] = o THEN Close(c, i + 1, o, e, depth + 1)
  ELSE Close(c, i + 1, o, e, depth)
Piece(in, c, a, b) == IF a > b THEN <<>> ELSE <<[in |-> in, s |-> SubSeq(c.t, a, b), at |-> b]>>
RECURSIVE Scan(_, _, _)
Scan(c, i, from) ==
  IF i > Len(c.t) THEN Piece(FALSE, c, from, Len(c.t))
  ELSE IF c.esc /\ c.t[i] = "\\" THEN Scan(c, i + 2, from)
  ELSE IF Apostrophe(c.t, i) THEN Scan(c, i + 2, from)
  ELSE LET e == CloseOf(MarksOf(c), c.t[i]) IN
       IF e = "" THEN Scan(c, i + 1, from)
       ELSE LET k == Close(c, i + 1, c.t[i], e, 0) IN
            IF k = 0 THEN Piece(FALSE, c, from, i - 1) \o Piece(FALSE, c, i, Len(c.t))
            ELSE Piece(FALSE, c, from, i - 1) \o Piece(TRUE, c, i, k) \o Scan(c, k + 1, k + 1)
\* read from the right, the apostrophe of a word in single quotes: a letter before, one or two letters and a blank after
WordMark(t, i) == Letter(Ch(t, i - 1)) /\ Letter(Ch(t, i + 1)) /\ (Ch(t, i + 2) = " " \/ (Letter(Ch(t, i + 2)) /\ Ch(t, i + 3) = " "))
\* read from the left: the quote left open
RECURSIVE Pair(_, _, _)
Pair(t, i, q) ==
  IF i > Len(t) THEN q
  ELSE IF t[i] = "\\" /\ q # "" /\ Ch(t, i + 1) \in {q, "\\"} THEN Pair(t, i + 2, q)
  ELSE IF q = "'" /\ Apostrophe(t, i) THEN Pair(t, i + 2, q)
  ELSE IF t[i] \in {"'", "\"", "`"} THEN Pair(t, i + 1, IF q = "" THEN t[i] ELSE IF q = t[i] THEN "" ELSE q)
  ELSE Pair(t, i + 1, q)
\* read from the right, up to the nearest bracket or semicolon outside of quotes: the quote left open
RECURSIVE FromRight(_, _, _)
FromRight(t, i, q) ==
  IF i < 1 THEN q
  ELSE IF t[i] \in {"{", "}", "(", ")", "[", "]", ";"} THEN IF q = "" THEN "" ELSE FromRight(t, i - 1, q)
  ELSE IF t[i] = "'" /\ q = "'" /\ WordMark(t, i) THEN FromRight(t, i - 2, q)
  ELSE IF t[i] \in {"'", "\"", "`"} THEN
       IF Ch(t, i - 1) = "\\" THEN FromRight(t, IF t[i] = q THEN i - 2 ELSE i - 1, q)
       ELSE FromRight(t, i - 1, IF q = "" THEN t[i] ELSE IF q = t[i] THEN "" ELSE q)
  ELSE FromRight(t, i - 1, q)
EvalDef(c) == CASE c.f = "parts" -> Scan(c, 1, 1) [] c.f = "pair" -> Pair(c.t, 1, "") [] c.f = "closed" -> FromRight(c.t, Len(c.t), "")
RECURSIVE Joined(_)
Joined(o) == IF o = <<>> THEN <<>> ELSE o[1].s \o Joined(Tail(o))
LawDef(c, o) ==
  CASE c.f = "parts" -> /\ Joined(o) = c.t                                        \* every part on exactly one side, in order
                        /\ \A i \in 1..Len(o) : o[i].s # <<>> /\ (o[i].in => CloseOf(MarksOf(c), o[i].s[1]) # "")
                        /\ \A i \in 1..(Len(o) - 1) : o[i].in => ~o[i + 1].in
    [] OTHER -> o = "" \/ \E i \in 1..Len(c.t) : c.t[i] = o
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
QSpec == ((pc = "call" /\ out = <<>> /\
   \/ \E t \in Seqs({"a", "(", ")", "\"", "\\", "["}, MaxText), esc \in BOOLEAN : call = [f |-> "parts", t |-> t, esc |-> esc, marks |-> <<>>]
   \/ \E t \in Seqs({"a", "'", "\\", " "}, MaxText + 1), esc \in BOOLEAN : call = [f |-> "parts", t |-> t, esc |-> esc, marks |-> <<>>]
   \/ \E t \in Seqs({"a", "'", "u300C", "u300D", "`"}, MaxText), esc \in BOOLEAN : call = [f |-> "parts", t |-> t, esc |-> esc, marks |-> <<>>]
   \/ \E t \in Seqs({"$", "<", ">", "(", "a"}, MaxText) : call = [f |-> "parts", t |-> t, esc |-> FALSE, marks |-> << <<"$", "$">>, <<"<", ">">> >>]
   \/ \E i \in 1..Len(Marks), j \in 1..Len(Marks), k \in 1..3 :
        LET o == Marks[i][1] e == Marks[i][2] p == Marks[j][1] r == Marks[j][2] IN
        call = [f |-> "parts", esc |-> FALSE, marks |-> <<>>, t |-> CASE k = 1 -> <<"z", o, p, "a", r, e, " ">> [] k = 2 -> <<o, "1", e, p, "2", r, "z">> [] k = 3 -> <<"1", o, "a", e, " ", p, "b", r>>]
   \/ \E t \in Seqs({"1", "'", "\"", "\\", ";"}, MaxQuote), f \in {"pair", "closed"} :
        /\ (f = "closed" => \A i \in 1..(Len(t) - 1) : ~(t[i] = "\\" /\ t[i + 1] = "\\")) /\ call = [f |-> f, t |-> t]
   \/ \E t \in Seqs({"'", "`", "{", ")", "[", "}"}, MaxQuote - 1), f \in {"pair", "closed"} : call = [f |-> f, t |-> t]
   \/ \E t \in Seqs({"a", "'", " "}, MaxQuote + 3), f \in {"pair", "closed"} : call = [f |-> f, t |-> t]))
  /\ [][CNext]_<<pc, call, out>>
CasesDef == {}
=============================================================================
