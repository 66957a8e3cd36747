------------------------------- MODULE FsFind --------------------------------
(* Listing, searching, and the questions about one entry, over the trees of FsTree.                       *)
EXTENDS FsTree
CONSTANTS Big
Target(t) == CASE t = "of" -> File("y") [] t = "od" -> Dir(<< <<"e", File("x")>> >>) [] OTHER -> None
Follow(n) == IF n.k = "link" THEN Target(n.c) ELSE n
RECURSIVE At(_, _)
At(n, p) == IF p = <<>> THEN n ELSE At(Kid(Follow(n), Head(p)), Tail(p))
Shortcut(n) == n = "p.lnk"
RECURSIVE ListOf(_, _)
ListOf(d, p) == Concat([i \in 1..Len(d.kids) |-> LET n == d.kids[i][1] x == d.kids[i][2] q == Append(p, n) IN IF Shortcut(n) THEN <<>> ELSE IF x.k = "dir" THEN ListOf(x, q) ELSE <<q>>])
RECURSIVE FindIn(_, _, _)
FindIn(d, p, names) == Concat([i \in 1..Len(d.kids) |-> LET n == d.kids[i][1] x == d.kids[i][2] q == Append(p, n) IN IF x.k # "dir" THEN <<>> ELSE IF n \in names THEN <<q>> ELSE FindIn(x, q, names)])
Bool(b) == [ok |-> TRUE, value |-> IF b THEN "yes" ELSE "no"]
Value(v) == [ok |-> TRUE, value |-> v]
EvalDef(c) ==
    LET n == At(c.root, c.from) IN
    CASE c.f = "fileList" -> LET d == Follow(n) IN IF d.k # "dir" THEN Bad ELSE IF c.once = "yes" THEN Value([i \in 1..Len(d.kids) |-> <<d.kids[i][1]>>]) ELSE Value(ListOf(d, c.from))
      [] c.f = "findDir" -> LET d == Follow(n) IN Value(IF d.k # "dir" THEN <<>> ELSE FindIn(d, c.from, {c.names[i] : i \in 1..Len(c.names)}))
      [] c.f = "isFile" -> Bool(Follow(n).k = "file")
      [] c.f = "isDir" -> Bool(Follow(n).k = "dir")
      [] c.f = "isSymbolicLink" -> Bool(n.k = "link")
      [] c.f = "symbolicLink" -> Value(IF n.k = "link" THEN n.c ELSE "null")
      [] c.f = "destPath" -> LET dst == c.to \o Drop(c.from, Len(c.base)) r == IF c.mk # "yes" THEN c.root ELSE IF Get(c.root, Front(dst)).k = "dir" THEN c.root ELSE IF Get(c.root, Front(dst)).k = "none" THEN Put(c.root, Front(dst), Dir(<<>>)) ELSE Fail IN IF r.k = "fail" THEN Bad ELSE [ok |-> TRUE, value |-> <<dst>>, root |-> r]
Leaf == {None, File("x"), Link("of"), Link("od"), Link("gone"), Dir(<<>>)}
One == {Dir(<< <<n, x>> >>) : n \in {"c", "n1", "p.lnk"}, x \in Leaf \ {None}}
Deep == {Dir(<< <<"n1", Dir(<< <<"n1", File("x")>>, <<"n2", Dir(<<>>)>> >>)>>, <<"n2", Dir(<< <<"n1", Dir(<<>>)>>, <<"p.lnk", File("x")>> >>)>> >>), Dir(<< <<"c", Dir(<< <<"c", Dir(<< <<"c", File("y")>>, <<"n2", Dir(<<>>)>> >>)>> >>)>> >>), Dir(<< <<"n1", File("x")>>, <<"n2", Link("od")>> >>), Dir(<< <<"p.lnk", Dir(<< <<"a", File("x")>>, <<"n1", Dir(<<>>)>> >>)>> >>)}
Two(A, B) == {SetKids({"a", "n1"}, LAMBDA n : IF n = "a" THEN p[1] ELSE p[2]) : p \in A \X B}
Trees == Leaf \cup One \cup Deep \cup Two(Leaf \cup One \cup Deep, Leaf \cup (IF Big THEN One \cup Deep ELSE {Dir(<< <<"n1", Dir(<<>>)>> >>)}))
Roots == {RootOf(s, None) : s \in Trees}
Froms == {<<"s">>, <<"s", "a">>, <<"s", "n1">>, <<"s", "e">>}
CasesDef ==
    [f : {"fileList"}, root : Roots, from : Froms \cup {<<"s", "a", "n1">>}, once : {"default", "yes", "no"}]
    \cup [f : {"findDir"}, root : Roots, from : {<<"s">>, <<"s", "a">>}, names : {<<>>, <<"n1">>, <<"n2">>, <<"n1", "n2">>, <<"c", "p.lnk">>, <<"n">>}, one : BOOLEAN]
    \cup [f : {"isFile", "isDir", "isSymbolicLink", "symbolicLink"}, root : {RootOf(s, None) : s \in Leaf \cup {Dir(<< <<"a", x>> >>) : x \in Leaf \ {None}}}, from : {<<"s">>, <<"s", "a">>, <<"s", "e">>}]
    \cup {c \in [f : {"destPath"}, root : {RootOf(Dir(<< <<"a", Dir(<< <<"b", File("x")>> >>)>> >>), t) : t \in {None, Dir(<<>>), Dir(<< <<"a", Dir(<<>>)>> >>), Dir(<< <<"a", File("z")>> >>)}}, from : {<<"s", "a">>, <<"s", "a", "b">>, <<"s", "b">>, <<"s", "a", "c", "d">>}, base : {<<"s">>, <<"s", "a">>}, to : {<<"t">>, <<"t", "p">>}, mk : {"default", "yes", "no"}] : Len(c.from) > Len(c.base) /\ Prefix(c.base, c.from)}
(* laws: every listed path is an entry of the tree that is no directory, once; every found directory bears a wanted name and none lies in another *)
Once(q) == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
LawDef(c, o) ==
    /\ (c.f = "fileList" /\ Follow(At(c.root, c.from)).k = "dir" => Once(o.value) /\ (c.once # "yes" => \A i \in 1..Len(o.value) : At(c.root, o.value[i]).k \in {"file", "link"}))
    /\ (c.f = "findDir" => Once(o.value) /\ \A i \in 1..Len(o.value) : At(c.root, o.value[i]).k = "dir" /\ Contains(c.names, Last(o.value[i])) /\ \A j \in 1..Len(o.value) : i # j => ~Prefix(o.value[i], o.value[j]))
    /\ (c.f = "isFile" => o.value = "no" \/ At(c.root, c.from).k \in {"file", "link"})
=============================================================================
