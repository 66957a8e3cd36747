------------------------------- MODULE FsCopy --------------------------------
EXTENDS FsTree
CONSTANTS Big
EvalDef(c) == Answer(c)
Leaves == {File("x"), File("e"), Link("of"), Link("od"), Link("gone")}
Sub(q) == Dir(q)
KidsA == {None, File("x"), Link("of"), Link("od"), Dir(<< <<"c", File("x")>>, <<"e", Link("gone")>> >>)} \cup (IF Big THEN {Link("gone"), Dir(<<>>), File("big"), Dir(<< <<"a", Dir(<< <<"a", File("y")>> >>)>> >>)} ELSE {})
KidsB == {None, File("y"), Dir(<<>>)} \cup (IF Big THEN {Link("gone"), File("xs")} ELSE {})
OldA == {None, File("z"), Dir(<< <<"c", File("z")>>, <<"f", File("z")>> >>), Link("of")} \cup (IF Big THEN {Link("gone"), Dir(<<>>), Dir(<< <<"a", File("z")>>, <<"c", Dir(<<>>)>>, <<"e", Link("of")>> >>), File("x")} ELSE {})
OldB == {None, File("z")} \cup (IF Big THEN {Link("gone"), Dir(<< <<"c", File("y")>> >>)} ELSE {})
Two(A, B) == {SetKids({"a", "b"}, LAMBDA n : IF n = "a" THEN p[1] ELSE p[2]) : p \in A \X B}
Srcs == Leaves \cup {None} \cup Two(KidsA, KidsB)
Dsts == {None, File("z"), Link("of"), Link("gone"), Dir(<< <<"n1", File("z")>> >>)} \cup Two(OldA, OldB)
Forces == {"default", "yes", "no"}
CasesDef ==
    {c \in [f : {"copy"}, root : {RootOf(s, d) : s \in Srcs, d \in Dsts}, from : {<<"s">>}, to : {<<"t">>}, force : Forces] : ~Through(Kid(c.root, "s"), Kid(c.root, "t"), Force(c))}
    \cup {c \in [f : {"copy"}, root : {RootOf(s, d) : s \in Srcs, d \in {None, Dir(<<>>), Dir(<< <<"p", Dir(<<>>)>> >>), File("z")}}, from : {<<"s">>}, to : {<<"t", "p", "q">>, <<"t", "p">>}, force : {"default", "no"}] : TRUE}
    \cup [f : {"copy"}, root : {RootOf(s, None) : s \in Two(KidsA, KidsB)}, from : {<<"s">>}, to : {<<"s", "q">>, <<"s", "a", "q">>, <<"s">>}, force : {"default"}]
    \cup [f : {"copy"}, root : {RootOf(s, Dir(<<>>)) : s \in Two(KidsA, KidsB)}, from : {<<"s", "a">>, <<"s", "b">>}, to : {<<"t", "a">>, <<"s", "c">>}, force : Forces]
    \cup {c \in [f : {"copyFile"}, root : {RootOf(s, d) : s \in Two(KidsA \cup {File("xs"), File("k"), File("kx")}, KidsB), d \in {None} \cup Two(OldA \cup {File("x"), File("k"), File("kx"), File("k2"), File("big0")}, IF Big THEN OldB ELSE {None})}, from : {<<"s", "a">>, <<"s", "b">>, <<"s", "a", "c">>}, base : {<<"s">>}, to : {<<"t">>} \cup (IF Big THEN {<<"t", "p">>} ELSE {}), force : IF Big THEN Forces ELSE {"default", "no"}] :
            Get(c.root, c.from).k # "link" /\ (Get(c.root, c.from).k = "file" => Get(c.root, c.to \o Drop(c.from, 1)).k # "link")}
    \cup [f : {"copySymbolicLink"}, root : {RootOf(s, d) : s \in Leaves \cup {None, Dir(<<>>)}, d \in {None, File("z"), Dir(<<>>), Link("gone")}}, from : {<<"s">>}, to : {<<"t">>, <<"t", "p">>, <<"t", "p", "q">>}]
    \cup [f : {"mkdir"}, root : {RootOf(None, d) : d \in {None, File("z"), Dir(<<>>), Dir(<< <<"p", File("y")>> >>)}}, to : {<<"t">>, <<"t", "p">>, <<"t", "p", "q">>}]
    \cup [f : {"writeFile"}, root : {RootOf(None, d) : d \in {None, File("z"), Dir(<<>>), Dir(<< <<"p", File("big")>> >>), Dir(<< <<"p", Dir(<<>>)>> >>)}}, to : {<<"t">>, <<"t", "p">>, <<"t", "p", "q">>}, data : {"x", "e", "big"}, mk : {"default", "yes", "no"}]
(* laws, stated without the copying function: the source survives, an unforced copy keeps what was there, nothing elsewhere changes *)
RECURSIVE Kept(_, _)
Kept(d, a) == d.k = "none" \/ (d.k # "dir" /\ a = d) \/ (d.k = "dir" /\ a.k = "dir" /\ \A n \in NamesOf(d) : Kept(Kid(d, n), Kid(a, n)))
RECURSIVE Covers(_, _)
Covers(s, a) == IF s.k = "dir" THEN a.k = "dir" /\ \A n \in NamesOf(s) : Covers(Kid(s, n), Kid(a, n)) ELSE a = s
LawDef(c, o) ==
    "after" \notin DOMAIN c =>
    /\ Untouched(c, o, {c.to})
    /\ (c.f \in {"copy", "copyFile", "copySymbolicLink"} /\ o.ok /\ ~Prefix(c.from, c.to) /\ c.to[1] # c.from[1] => Get(o.root, c.from) = Get(c.root, c.from))
    /\ (c.f = "copy" /\ o.ok /\ ~Force(c) => Kept(Get(c.root, c.to), Get(o.root, c.to)))
    /\ (c.f = "copy" /\ o.ok /\ Force(c) /\ ~Prefix(c.from, c.to) => Covers(Get(c.root, c.from), Get(o.root, c.to)))
=============================================================================
