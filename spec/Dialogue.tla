------------------------------ MODULE Dialogue ------------------------------
(* A question on the terminal.  The keys arrive in pieces; the first line, without its outer blanks, is the answer.  "n" stands for    *)
(* the end of a line, "r" for the other one, "B" for a blank, "T" for a tab, "Z" for a wide character; the others for themselves.      *)
EXTENDS FuncBase
CONSTANTS MaxKeys
Ends == {"n", "r"}
Keys == {"a", "Z", "B", "T", "n", "r"}
FirstEnd(k) == LET S == {i \in 1..Len(k) : k[i] \in Ends} IN IF S = {} THEN Len(k) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
Line(k) == SubSeq(k, 1, FirstEnd(k) - 1)
Outer(x) == x \in {"B", "T"}
Trimmed(l) == LET S == {i \in 1..Len(l) : ~Outer(l[i])} IN IF S = {} THEN <<>> ELSE SubSeq(l, CHOOSE i \in S : \A j \in S : i <= j, CHOOSE i \in S : \A j \in S : i >= j)
(* answered once, after the line has ended; the question is shown once, before; then the terminal is let go *)
EvalDef(c) == [shown |-> 1, answer |-> Trimmed(Line(c.k)), early |-> FALSE, held |-> FALSE]
LawDef(c, o) == \/ o.answer = <<>>
                \/ ~Outer(o.answer[1]) /\ ~Outer(o.answer[Len(o.answer)]) /\ \A i \in 1..Len(o.answer) : o.answer[i] \notin Ends
DSpec == (pc = "call" /\ out = <<>> /\ \E n \in 1..MaxKeys : \E k \in [1..n -> Keys], cut \in 1..3 : (\E i \in 1..n : k[i] \in Ends) /\ call = [f |-> "ask", k |-> k, cut |-> cut]) /\ [][CNext]_<<pc, call, out>>
CasesDef == {}
=============================================================================
