------------------------------- MODULE Screen -------------------------------
(* A terminal screen as a state machine: cells, cursor, remembered cursor.  Each operation of packages/term  *)
(* is a transition named by what its documentation promises; sequences of them are sent to a terminal and    *)
(* must leave the screen the specification ends on.  Rows and columns count from 1.                          *)
EXTENDS FuncBase
CONSTANT MaxOps
R == 3  C == 4
Blank == 32
Clamp(x, hi) == Max(1, Min(hi, x))
Start(r, c) == [r |-> r, c |-> c, sr |-> 1, sc |-> 1, hidden |-> FALSE, cells |-> [i \in 1..R |-> [j \in 1..C |-> 64 + (i - 1) * C + j]]]
At(s, r, c) == [s EXCEPT !.r = Clamp(r, R), !.c = Clamp(c, C)]
Before(s, i, j) == i < s.r \/ (i = s.r /\ j < s.c)
Wipe(s, P(_, _)) == [s EXCEPT !.cells = [i \in 1..R |-> [j \in 1..C |-> IF P(i, j) THEN Blank ELSE s.cells[i][j]]]]
Roll(s, n) == [s EXCEPT !.cells = [i \in 1..R |-> IF i + n \in 1..R THEN s.cells[i + n] ELSE [j \in 1..C |-> Blank]]]
Do(s, o) ==
  CASE o.op = "up" -> At(s, s.r - o.n, s.c)       [] o.op = "down" -> At(s, s.r + o.n, s.c)
    [] o.op = "forward" -> At(s, s.r, s.c + o.n)  [] o.op = "back" -> At(s, s.r, s.c - o.n)
    [] o.op = "next" -> At(s, s.r + o.n, 1)       [] o.op = "previous" -> At(s, s.r - o.n, 1)
    [] o.op = "absolute" -> At(s, s.r, o.n)
    [] o.op \in {"place", "scrollPlace"} -> At(s, o.n, o.m)
    [] o.op \in {"save", "saveAll"} -> [s EXCEPT !.sr = s.r, !.sc = s.c]
    [] o.op \in {"restore", "restoreAll"} -> At(s, s.sr, s.sc)
    [] o.op = "lineStart" -> At(s, s.r, 1)
    [] o.op = "hide" -> [s EXCEPT !.hidden = TRUE] [] o.op = "show" -> [s EXCEPT !.hidden = FALSE]
    [] o.op = "eraseLine" -> Wipe(s, LAMBDA i, j : i = s.r /\ (o.n = 2 \/ (o.n = 0 /\ j >= s.c) \/ (o.n = 1 /\ j <= s.c)))
    [] o.op = "eraseScreen" -> Wipe(s, LAMBDA i, j : o.n >= 2 \/ (o.n = 0 /\ ~Before(s, i, j)) \/ (o.n = 1 /\ (Before(s, i, j) \/ (i = s.r /\ j = s.c))))
    [] o.op = "scrollUp" -> Roll(s, o.n)  [] o.op = "scrollDown" -> Roll(s, 0 - o.n)
    [] o.op = "reset" -> Wipe([Start(1, 1) EXCEPT !.hidden = FALSE], LAMBDA i, j : TRUE)
    \* writing goes on to the next column and, the line not being wrapped, stays on the last one
    [] o.op = "put" -> At([s EXCEPT !.cells[s.r][s.c] = o.n], s.r, s.c + 1)
EvalDef(c) == FoldL(Do, Start(c.r, c.c), c.ops)
LawDef(c, o) == o.r \in 1..R /\ o.c \in 1..C /\ (\A i \in 1..Len(c.ops) : c.ops[i].op \in {"up", "down", "forward", "back", "next", "previous", "absolute", "place", "save", "restore", "lineStart"}) => o.cells = Start(1, 1).cells
Op(op, n, m) == [op |-> op, n |-> n, m |-> m]
Ops == {Op(op, n, 0) : op \in {"up", "down", "forward", "back", "next", "previous", "absolute", "scrollUp", "scrollDown"}, n \in 1..2}
   \cup {Op(op, n, m) : op \in {"place", "scrollPlace"}, n \in {1, 3, 4}, m \in {1, 2, 5}}
   \cup {Op(op, 0, 0) : op \in {"save", "saveAll", "restore", "restoreAll", "lineStart", "hide", "show", "reset"}}
   \cup {Op("eraseLine", n, 0) : n \in 0..2} \cup {Op("eraseScreen", n, 0) : n \in 0..3} \cup {Op("put", 122, 0)}
NSpec == ((pc = "call" /\ out = <<>> /\ \E r \in 1..R, c \in 1..C, k \in 0..MaxOps : \E ops \in [1..k -> Ops] : call = [f |-> "screen", r |-> r, c |-> c, ops |-> ops]) /\ [][CNext]_<<pc, call, out>>)
CasesDef == {}
=============================================================================
