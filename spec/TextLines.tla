------------------------------ MODULE TextLines ------------------------------
(* Reading text: the line scanner as a machine over symbols, byte fragments, comparison.                  *)
(* Content is a sequence of symbols: letters, multi-byte characters, line endings, long fillers (X<n>).   *)
EXTENDS FuncBase
CONSTANTS Big
BytesOf == [a |-> 1, b |-> 1, eacute |-> 2, emoji |-> 4, LS |-> 3, PS |-> 3, NEL |-> 2, BOM |-> 3, CR |-> 1, LF |-> 1, Z |-> 1]
Terms(f) == CASE f = "readline" -> {"LF"} [] f = "readlineFromCode" -> {"LF", "LS", "PS", "NEL"} [] OTHER -> {"LF"}
(* the scanner: the line being collected, the lines delivered, whether a carriage return has just ended a line *)
Scan(q, E) == LET Step(s, x) == IF x = "LF" /\ s.cr THEN [s EXCEPT !.cr = FALSE]
                                ELSE IF x = "CR" \/ x \in E THEN [lines |-> Append(s.lines, s.cur), cur |-> <<>>, cr |-> x = "CR"]
                                ELSE [s EXCEPT !.cur = Append(@, x), !.cr = FALSE]
              IN FoldL(Step, [lines |-> <<>>, cur |-> <<>>, cr |-> FALSE], q)
Lines(q, E) == LET s == Scan(q, E) IN Append(s.lines, s.cur)
StreamLines(q) == LET s == Scan(q, Terms("readlineStream")) IN IF s.cur = <<>> THEN s.lines ELSE Append(s.lines, s.cur)
Expand(q) == Concat([i \in 1..Len(q) |-> [k \in 1..BytesOf[q[i]] |-> <<q[i], k>>]])
Collapse(bs) == LET firsts == SelectSeq(bs, LAMBDA b : b[2] = 1) IN [i \in 1..Len(firsts) |-> firsts[i][1]]
Fragment(q, s, e) == LET x == Expand(q) IN IF s >= Len(x) THEN <<>> ELSE Collapse(SubSeq(x, s + 1, Min(e + 1, Len(x))))
FirstOf(q) == Head(Lines(q, {"LF"}))
EvalDef(c) ==
    CASE c.f \in {"readline", "readlineFromCode"} ->
            LET L == Lines(c.text, Terms(c.f)) IN IF c.mode = "collect" THEN [lines |-> L, done |-> <<>>] ELSE [lines |-> L, done |-> [i \in 1..Len(L) |-> i = Len(L)]]
      [] c.f = "readlineStream" -> IF c.fail > 0 \/ c.missing THEN "rejected" ELSE [lines |-> StreamLines(c.text), done |-> <<>>]
      [] c.f = "readFragment" -> IF c.s < 0 \/ c.e < 0 \/ (c.e > 0 /\ (c.s > c.e \/ c.fail > 0 \/ c.missing)) THEN "rejected" ELSE IF c.e = 0 THEN "nothing"
                                 ELSE LET t == Fragment(c.text, c.s, c.e) IN [text |-> IF c.first THEN FirstOf(t) ELSE t]
      [] c.f = "readFile" -> IF c.missing THEN "rejected" ELSE [text |-> c.text]
      [] c.f = "stripBOM" -> [text |-> IF c.text # <<>> /\ Head(c.text) = "BOM" THEN Tail(c.text) ELSE c.text]
      [] c.f = "diffFile" -> IF c.missing # "no" THEN "different" ELSE IF c.text = c.other THEN "equal" ELSE "different"
Alpha == {"a", "CR", "LF", "LS", "NEL"}
Texts == SeqsUpTo(Alpha, IF Big THEN 5 ELSE 4)
STexts == SeqsUpTo({"a", "CR", "LF", "emoji", "PS"}, IF Big THEN 4 ELSE 3)
FTexts == SeqsUpTo({"a", "b", "CR", "LF"}, 3)
Fillers == {"X510", "X511", "X512", "X1024"}
DTexts == SeqsUpTo({"a", "b", "Z"}, 2) \cup {<<x>> \o y : x \in Fillers, y \in SeqsUpTo({"a", "b", "Z"}, 2)} \cup {<<"a">> \o <<x>> : x \in Fillers}
CasesDef ==
    [f : {"readline", "readlineFromCode"}, text : Texts, mode : {"collect", "cb2", "cb3"}, form : {"string", "utf8", "utf16le"}]
    \cup [f : {"readlineStream"}, text : STexts, mode : {"collect", "cb2", "cb3"}, cut : {0, 1, 2, 3}, fail : {0}, missing : {FALSE}, slow : {FALSE}]
    \cup [f : {"readlineStream"}, text : {<<"a", "CR", "LF", "b">>, <<"CR", "LF", "CR", "LF">>, <<"emoji", "a", "CR">>}, mode : {"collect", "cb2"}, cut : {1}, fail : {0}, missing : {FALSE}, slow : {TRUE}]
    \cup [f : {"readlineStream"}, text : {<<>>, <<"a", "LF", "b">>}, mode : {"collect", "cb2", "cb3"}, cut : {1}, fail : {1, 2}, missing : {FALSE}, slow : {FALSE}]
    \cup [f : {"readlineStream"}, text : {<<>>}, mode : {"collect", "cb2", "cb3"}, cut : {0}, fail : {0}, missing : {TRUE}, slow : {FALSE}]
    \cup [f : {"readFragment"}, text : FTexts, s : {0, 1, 2, 5}, e : {0, 1, 2, 3}, first : BOOLEAN, cut : {0, 1}, fail : {0}, missing : {FALSE}]
    \cup [f : {"readFragment"}, text : {<<"a", "b", "a">>}, s : {-1, 0, 1}, e : {-1, 0, 2}, first : BOOLEAN, cut : {1}, fail : {0, 1, 2}, missing : BOOLEAN]
    \cup {c \in [f : {"readFile"}, text : SeqsUpTo({"a", "emoji", "BOM", "CR"}, 2) \cup {<<"X70000", "emoji">>}, missing : BOOLEAN] : c.missing => c.text = <<>>}
    \cup [f : {"stripBOM"}, text : SeqsUpTo({"a", "emoji", "BOM"}, 3)]
    \cup [f : {"diffFile"}, text : DTexts, other : DTexts, missing : {"no"}]
    \cup [f : {"diffFile"}, text : {<<>>, <<"a">>}, other : {<<>>, <<"a">>}, missing : {"first", "second", "both"}]
NoTerm(q, E) == \A i \in 1..Len(q) : q[i] \notin E \cup {"CR"}
LawDef(c, o) ==
    c.f \in {"readline", "readlineFromCode"} \/ (c.f = "readlineStream" /\ c.fail = 0 /\ ~c.missing) =>
    /\ \A i \in 1..Len(o.lines) : NoTerm(o.lines[i], Terms(c.f))
    /\ Concat(o.lines) = SelectSeq(c.text, LAMBDA x : x # "CR" /\ x \notin Terms(c.f))
    /\ LET ends == Cardinality({i \in 1..Len(c.text) : c.text[i] = "CR" \/ (c.text[i] \in Terms(c.f) /\ ~(c.text[i] = "LF" /\ i > 1 /\ c.text[i - 1] = "CR"))})
       IN Len(o.lines) \in (IF c.f = "readlineStream" THEN {ends, ends + 1} ELSE {ends + 1})
=============================================================================
