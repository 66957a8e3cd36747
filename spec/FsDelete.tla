------------------------------ MODULE FsDelete -------------------------------
EXTENDS FsTree
CONSTANTS Big
EvalDef(c) == Answer(c)
Leaves == {File("x"), Link("of"), Link("od"), Link("gone")}
Kids1 == {None} \cup Leaves \cup {Dir(<<>>), Dir(<< <<"c", Link("od")>>, <<"e", File("y")>> >>)}
Kids2 == Kids1 \cup {Dir(<< <<"a", Dir(<< <<"a", File("x")>>, <<"b", Link("of")>> >>)>> >>)}
Two(A, B) == {SetKids({"a", "b"}, LAMBDA n : IF n = "a" THEN p[1] ELSE p[2]) : p \in A \X B}
Ones == Two(Kids2, Kids1)
Roots == {RootOf(s, Dir(<< <<"n1", File("z")>> >>)) : s \in {None} \cup Leaves \cup Ones \cup (IF Big THEN Two(Ones, Kids1) ELSE {})}
ThroughLink(c) == \E k \in 1..(Len(c.from) - 1) : Get(c.root, SubSeq(c.from, 1, k)).k = "link"
CasesDef == {c \in [f : {"deleteOne", "clearDir"}, root : Roots, from : {<<"s">>, <<"s", "a">>, <<"s", "b">>, <<"s", "a", "c">>, <<"s", "e">>}] :
                ~ThroughLink(c) /\ (c.f = "clearDir" => ~(Get(c.root, c.from).k = "link" /\ IsDir(Get(c.root, c.from))))}
LawDef(c, o) ==
    "after" \notin DOMAIN c =>
    /\ Untouched(c, o, {c.from})
    /\ (o.ok => Get(o.root, c.from).k = (IF c.f = "deleteOne" THEN "none" ELSE "dir"))
    /\ (o.ok => o.root = Put(c.root, c.from, Get(o.root, c.from)))
=============================================================================
