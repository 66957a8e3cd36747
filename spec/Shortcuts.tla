------------------------------ MODULE Shortcuts ------------------------------
(* Folders on a system with shortcuts.  Folder i holds the file i (or not), folders, and shortcuts: to a folder (its number), to the file *)
(* of a folder (10 + its number), to a file elsewhere (20), or to nothing that can be found out (0).  Folder 1 is where a search starts.  *)
EXTENDS FuncBase
CONSTANTS MaxWays
Dirs == 1..4
\* up[i]: the folder that folder i lies in (folders 3 and 4 may lie elsewhere: 0)
Subs(c, i) == {j \in Dirs : c.up[j] = i}
Ways(c, i) == {c.ways[k][2] : k \in {m \in 1..Len(c.ways) : c.ways[m][1] = i}}
Wanted(c) == {c.names[k] : k \in 1..Len(c.names)}
Enter(c, i) == (IF c.f = "find" THEN Subs(c, i) \ Wanted(c) ELSE Subs(c, i)) \cup (Ways(c, i) \cap Dirs)
RECURSIVE Reach(_, _)
Reach(c, S) == LET N == S \cup UNION {Enter(c, i) : i \in S} IN IF N = S THEN S ELSE Reach(c, N)
Got(c) == Reach(c, {1})
HasFile(c, i) == c.file[i]
EvalDef(c) ==
    CASE c.f = "list" -> LET R == Got(c) W == UNION {Ways(c, i) : i \in R} IN
            [i \in 1..5 |-> IF i = 5 THEN (IF 20 \in W THEN 1 ELSE 0) ELSE IF (i \in R /\ HasFile(c, i)) \/ (10 + i) \in W THEN 1 ELSE 0]     \* how often each file is listed
      [] c.f = "find" -> LET R == Got(c) IN [i \in 1..5 |-> IF i \in Wanted(c) /\ \E j \in R : i \in Subs(c, j) THEN 1 ELSE 0]
      [] c.f = "read" -> IF c.system = "windows" /\ c.answer = "found" THEN <<"ok", c.target>> ELSE <<"error">>
\* what is listed once is listed once, and what lies in a reached folder is not left out
LawDef(c, o) == /\ c.f # "read" => \A i \in 1..5 : o[i] \in 0..1
                /\ c.f = "list" => (HasFile(c, 1) => o[1] = 1) /\ \A j \in Subs(c, 1) : HasFile(c, j) => o[j] = 1
Ups == {u \in [Dirs -> 0..3] : u[1] = 0 /\ u[2] \in {1} /\ u[3] \in {0, 1, 2} /\ u[4] \in {0, 1, 2, 3}}
Paths == 1..8
SSpec == ((pc = "call" /\ out = <<>> /\
   \/ \E u \in Ups, w \in SeqsUpTo({<<i, t>> : i \in Dirs, t \in {0, 1, 2, 3, 4, 11, 14, 20}}, MaxWays), f \in {<<TRUE, TRUE, TRUE, TRUE>>, <<FALSE, TRUE, FALSE, TRUE>>} :
        call = [f |-> "list", up |-> u, ways |-> w, file |-> f]
   \/ \E u \in Ups, w \in SeqsUpTo({<<i, t>> : i \in Dirs, t \in {0, 1, 2, 3, 4, 20}}, MaxWays), n \in {<<>>, <<2>>, <<3>>, <<4>>, <<3, 4>>} :
        call = [f |-> "find", up |-> u, ways |-> w, file |-> <<TRUE, TRUE, TRUE, TRUE>>, names |-> n]
   \/ \E p \in Paths, t \in Paths, a \in {"found", "complaint", "failure"}, s \in {"windows", "other"} : call = [f |-> "read", path |-> p, target |-> t, answer |-> a, system |-> s])
  /\ [][CNext]_<<pc, call, out>>)
CasesDef == {}
=============================================================================
