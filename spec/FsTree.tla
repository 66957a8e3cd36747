------------------------------- MODULE FsTree --------------------------------
(* A small file system and the operations of the fs package on it.                                        *)
(* Node: [k |-> "none" | "file" | "link" | "dir", c |-> content or link target, kids |-> <<name, node>>s by name] *)
(* Link targets: "of" a file outside, "od" a directory outside, "gone" nothing.                            *)
EXTENDS FuncBase
None == [k |-> "none", c |-> "", kids |-> <<>>]
File(c) == [k |-> "file", c |-> c, kids |-> <<>>]
Link(t) == [k |-> "link", c |-> t, kids |-> <<>>]
Dir(q)  == [k |-> "dir", c |-> "", kids |-> q]
Fail == [k |-> "fail", c |-> "", kids |-> <<>>]
(* names, in the order in which a snapshot lists them *)
NameOrder == <<"a", "b", "c", "d", "e", "f", "n1", "n2", "out", "p", "p.lnk", "q", "s", "t">>
Rank(n) == CHOOSE i \in 1..Len(NameOrder) : NameOrder[i] = n
NamesOf(d) == {d.kids[i][1] : i \in 1..Len(d.kids)}
Kid(d, n) == IF d.k = "dir" /\ n \in NamesOf(d) THEN d.kids[CHOOSE i \in 1..Len(d.kids) : d.kids[i][1] = n][2] ELSE None
RECURSIVE ByRank(_, _)
ByRank(S, i) == IF i > Len(NameOrder) THEN <<>> ELSE (IF NameOrder[i] \in S THEN <<NameOrder[i]>> ELSE <<>>) \o ByRank(S, i + 1)
SetKids(S, Node(_)) == LET q == SelectSeq(ByRank(S, 1), LAMBDA n : Node(n).k # "none") IN Dir([i \in 1..Len(q) |-> <<q[i], Node(q[i])>>])
RECURSIVE Get(_, _), Put(_, _, _)
Get(t, p) == IF p = <<>> THEN t ELSE Get(Kid(t, Head(p)), Tail(p))
(* put a node at a path, creating missing directories on the way; Fail if something else stands in the way *)
Put(t, p, n) ==
    IF p = <<>> THEN n
    ELSE IF t.k \notin {"dir", "none"} THEN Fail
    ELSE LET new == Put(Kid(t, Head(p)), Tail(p), n)
         IN IF new.k = "fail" THEN Fail ELSE SetKids(NamesOf(t) \cup {Head(p)}, LAMBDA m : IF m = Head(p) THEN new ELSE Kid(t, m))
Points(t) == CASE t = "of" -> "file" [] t = "od" -> "dir" [] OTHER -> "none"
IsFile(n) == n.k = "file" \/ (n.k = "link" /\ Points(n.c) = "file")
IsDir(n)  == n.k = "dir" \/ (n.k = "link" /\ Points(n.c) = "dir")
(* what stands at a target after a copy of s over d *)
RECURSIVE Copied(_, _, _)
Copied(s, d, force) ==
    CASE s.k = "none" -> Fail
      [] s.k = "link" -> IF d.k = "none" THEN s ELSE IF ~force THEN d ELSE IF d.k = "dir" THEN Fail ELSE s
      [] s.k = "file" -> (CASE d.k = "none" -> s [] d.k = "file" -> IF force THEN s ELSE d [] d.k = "dir" -> Fail [] OTHER -> IF ~force /\ Points(d.c) = "file" THEN d ELSE Fail)
      [] s.k = "dir"  -> IF d.k \notin {"none", "dir"} THEN Fail
                         ELSE IF \E n \in NamesOf(s) : Copied(Kid(s, n), Kid(d, n), force).k = "fail" THEN Fail
                         ELSE SetKids(NamesOf(s) \cup NamesOf(d), LAMBDA n : IF n \in NamesOf(s) THEN Copied(Kid(s, n), Kid(d, n), force) ELSE Kid(d, n))
(* a file written over an existing link is written through it: outside this specification *)
RECURSIVE Through(_, _, _)
Through(s, d, force) == \/ s.k = "file" /\ d.k = "link" /\ (force \/ Points(d.c) # "file")
                        \/ s.k = "dir" /\ d.k = "dir" /\ \E n \in NamesOf(s) : Through(Kid(s, n), Kid(d, n), force)
(* what may stand at a target after a copy that failed on the way *)
RECURSIVE Between(_, _, _, _)
Between(s, d, a, force) ==
    \/ a = d
    \/ s.k = "file" /\ a = s /\ (d.k = "none" \/ (force /\ d.k = "file"))
    \/ s.k = "link" /\ ((a = s /\ (d.k = "none" \/ force)) \/ (a.k = "none" /\ force /\ d.k # "dir"))
    \/ s.k = "dir" /\ a.k = "dir" /\ d.k \in {"none", "dir"} /\ \A n \in NamesOf(s) \cup NamesOf(d) \cup NamesOf(a) : IF n \in NamesOf(s) THEN Between(Kid(s, n), Kid(d, n), Kid(a, n), force) ELSE Kid(a, n) = Kid(d, n)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Force(c) == c.force # "no"
OK(t) == [ok |-> TRUE, root |-> t]
Bad == [ok |-> FALSE]
Res(t) == IF t.k = "fail" THEN Bad ELSE OK(t)
(* the answer to an operation on a tree: the whole tree afterwards, or a failure *)
Step(t, c) ==
    CASE c.f = "copy" -> LET s == Get(t, c.from) IN IF s.k = "dir" /\ Prefix(c.from, c.to) /\ c.from # c.to THEN Bad
                                                    ELSE LET n == Copied(s, Get(t, c.to), Force(c)) IN IF n.k = "fail" THEN Bad ELSE Res(Put(t, c.to, n))
      [] c.f = "copyFile" -> LET s == Get(t, c.from) dst == c.to \o Drop(c.from, Len(c.base)) d == Get(t, dst)
                             IN IF s.k # "file" \/ d.k \notin {"none", "file"} THEN Bad ELSE Res(Put(t, dst, s))
      [] c.f = "copySymbolicLink" -> LET s == Get(t, c.from) IN IF s.k # "link" \/ Get(t, c.to).k # "none" THEN Bad ELSE Res(Put(t, c.to, s))
      [] c.f = "deleteOne" -> IF Get(t, c.from).k = "none" THEN Bad ELSE OK(Put(t, c.from, None))
      [] c.f = "clearDir" -> IF Get(t, c.from).k # "dir" THEN Bad ELSE OK(Put(t, c.from, Dir(<<>>)))
      [] c.f = "mkdir" -> (LET d == Get(t, c.to) IN IF d.k = "dir" THEN OK(t) ELSE IF d.k = "none" THEN Res(Put(t, c.to, Dir(<<>>))) ELSE Bad)
      [] c.f = "writeFile" -> LET d == Get(t, c.to) IN IF d.k \notin {"none", "file"} \/ (c.mk = "no" /\ Get(t, Front(c.to)).k # "dir") THEN Bad ELSE Res(Put(t, c.to, File(c.data)))
RECURSIVE Part(_, _)
Part(n, d) == n = d \/ n.k = "none" \/ (n.k = "dir" /\ d.k = "dir" /\ \A m \in NamesOf(n) : Part(Kid(n, m), Kid(d, m)))
(* a failed operation changes nothing but, for copies, parts of the target that the copy would have written anyway *)
AllowedAfter(t, c, a) ==
    CASE c.f = "copy" -> (\/ a = t
                          \/ \E n \in {Get(a, c.to)} : Between(Get(t, c.from), Get(t, c.to), n, Force(c)) /\ a = Put(t, c.to, n)
                          \/ \E k \in 1..(Len(c.to) - 1) : a = Put(t, SubSeq(c.to, 1, k), Dir(<<>>)) /\ Get(t, SubSeq(c.to, 1, k)).k = "none")
      [] c.f = "copyFile" -> (\/ a = t
                              \/ LET dst == c.to \o Drop(c.from, Len(c.base)) IN a = Put(t, dst, None) \/ (Get(t, c.from).k = "file" /\ a = Put(t, dst, Get(t, c.from))))
      [] c.f \in {"copySymbolicLink", "writeFile"} -> a = t \/ (Get(t, Front(c.to)).k = "none" /\ (a = Put(t, c.to, None) \/ \E k \in 1..(Len(c.to) - 1) : a = Put(t, SubSeq(c.to, 1, k), Dir(<<>>))))
      [] c.f = "deleteOne" -> a = t \/ LET n == Get(a, c.from) IN a = Put(t, c.from, n) /\ Part(n, Get(t, c.from))
      [] c.f = "clearDir" -> a = t \/ LET n == Get(a, c.from) IN n.k = "dir" /\ a = Put(t, c.from, n) /\ Part(n, Get(t, c.from))
      [] OTHER -> a = t
Answer(c) == IF "after" \in DOMAIN c THEN (IF AllowedAfter(c.root, c, c.after) THEN "allowed" ELSE "not allowed") ELSE Step(c.root, c)
Outside == Dir(<< <<"d", Dir(<< <<"e", File("x")>> >>)>>, <<"f", File("y")>> >>)
RootOf(s, t) == Dir(<< <<"out", Outside>> >> \o (IF s.k = "none" THEN <<>> ELSE << <<"s", s>> >>) \o (IF t.k = "none" THEN <<>> ELSE << <<"t", t>> >>))
(* nothing outside the named paths changes *)
Untouched(c, o, paths) == o.ok => \A n \in {"out", "s", "t"} : (\A p \in paths : Head(p) # n) => Kid(o.root, n) = Kid(c.root, n)
=============================================================================
