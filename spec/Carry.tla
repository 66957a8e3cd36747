-------------------------------- MODULE Carry --------------------------------
(* What a request puts on the wire.  Texts are numbers standing for particular (awkward) texts; a query or a form is
   a sequence of fields [k |-> name, v |-> values, many |-> written as a list?].                                    *)
EXTENDS FuncBase
CONSTANTS MaxFields, Names, Values
Fields == [k : Names, v : {<<>>} \cup {<<v>> : v \in Values} \cup {<<v, w>> : v, w \in Values}]
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i].k # q[j].k
Queries(n) == UNION {{q \in [1..m -> Fields] : Distinct(q)} : m \in 0..n}
Methods == <<"GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS">>
Defaults == <<"user-agent", "content-type", "accept", "accept-language">>
CasesDef == {}
Base == [f |-> "carry", method |-> "GET", own |-> <<>>, query |-> <<>>, mine |-> <<FALSE, FALSE, FALSE, FALSE>>, body |-> "none", form |-> <<>>, text |-> 0]
(* further things a request says: bodies of any bytes, values that are not texts, where it goes, who asks, line breaks.
   A number, yes/no, instant or object in a query stands there as its usual text.                                      *)
Ports == {0, 81, 8080}
Byte(i, n) == (i * 7 + n) % 256
ByteSizes == {1, 2, 3, 200, 255, 256, 257, 300}
Marks == UNION {[1..n -> {"x", "cr", "lf"}] : n \in 1..4}
NameMarks == UNION {[1..n -> {"x", "cr", "lf", "quote", "percent"}] : n \in 1..3}
ExInit ==
    \/ \E n \in ByteSizes, w \in {"buffer", "view", "whole", "file", "slice"} : call = [f |-> "bytes", n |-> n, way |-> w]
    \/ \E w \in {"number", "truth", "object", "list"}, n \in {-7, 0, 1, 12345} : call = [f |-> "value", way |-> w, n |-> n]
    \/ \E d \in {1, 28}, h \in {0, 23}, m \in {0, 59}, s \in {0, 7}, ms \in {0, 5, 120, 999} : call = [f |-> "instant", at |-> <<d, h, m, s, ms>>]
    \/ \E u, p \in {"a", "name", "x1-_"}, w \in {"url", "object", "option", "both"} : call = [f |-> "who", user |-> u, pass |-> p, way |-> w]
    \/ \E tls \in BOOLEAN, p, q \in Ports, other \in BOOLEAN, over \in {"no", "yes", "same"}, w \in {"text", "object", "options"} : (w = "options" => p = 0) /\ call = [f |-> "where", tls |-> tls, port |-> p, optport |-> q, other |-> other, over |-> over, way |-> w]
    \/ \E p \in {"", "/", "/a", "/a/b.c"}, q \in {"", "x=1", "x=1&y=2"}, g \in {"", "#part", "#x?y=1"}, o \in {"", "/opt"}, more \in BOOLEAN : call = [f |-> "path", path |-> p, search |-> q, part |-> g, opt |-> o, more |-> more]
    \/ \E s \in Marks : call = [f |-> "breaks", text |-> s]
    \/ \E s \in NameMarks : call = [f |-> "named", text |-> s]
RECURSIVE OneBreak(_)
OneBreak(s) == IF s = <<>> THEN <<>> ELSE IF Head(s) = "x" THEN <<"x">> \o OneBreak(Tail(s))
               ELSE <<"cr", "lf">> \o OneBreak(IF Head(s) = "cr" /\ Len(s) > 1 /\ s[2] = "lf" THEN SubSeq(s, 3, Len(s)) ELSE Tail(s))
ValueText(w, n) == CASE w = "number" -> ToString(n) [] w = "truth" -> IF n > 0 THEN "true" ELSE "false"
    [] w = "object" -> "{\"a\":" \o ToString(n) \o "}" [] OTHER -> ToString(n) \o " and " \o ToString(n + 1)
Secure(c) == CASE c.over = "no" -> c.tls [] c.over = "same" -> c.tls [] OTHER -> ~c.tls
Path(c) == (IF c.opt # "" THEN c.opt ELSE IF c.path = "" THEN "/" ELSE c.path) \o (IF c.search = "" THEN "" ELSE "?" \o c.search)
Extra(c) == CASE c.f = "bytes" -> [bytes |-> [i \in 1..c.n |-> Byte(i, c.n)], declared |-> c.n]
    [] c.f = "value" -> ValueText(c.way, c.n)
    [] c.f = "instant" -> <<1970, 1>> \o c.at
    [] c.f = "who" -> IF c.way = "both" THEN "other:pass" ELSE c.user \o ":" \o c.pass
    [] c.f = "where" -> [tls |-> IF c.way = "options" /\ c.over = "no" THEN TRUE ELSE Secure(c), host |-> IF c.other THEN "b.test" ELSE "a.test",
                         port |-> IF c.optport # 0 THEN c.optport ELSE c.port]
    [] c.f = "path" -> Path(c) \o (IF ~c.more THEN "" ELSE IF c.search = "" THEN "?z=3" ELSE "&z=3")
    [] c.f = "breaks" -> OneBreak(c.text)
    [] c.f = "named" -> c.text
CaInit == pc = "call" /\ out = <<>> /\
    \/ \E q \in [1..1 -> Fields], o \in {<<>>, <<1>>} : call = [Base EXCEPT !.own = o, !.query = q]
    \/ \E q \in [1..MaxFields -> {x \in Fields : Len(x.v) <= 1}], o \in {<<>>, <<1>>, <<1, 2>>} : Distinct(q) /\ call = [Base EXCEPT !.own = o, !.query = q]
    \/ \E q \in [1..1 -> Fields], b \in {"form", "json", "multi", "data"} : (b = "multi" => Len(q[1].v) = 1) /\ call = [Base EXCEPT !.method = "POST", !.body = b, !.form = q]
    \/ \E q \in [1..2 -> {x \in Fields : Len(x.v) = 1}], b \in {"form", "json", "multi", "data"} : Distinct(q) /\ call = [Base EXCEPT !.method = "PUT", !.body = b, !.form = q]
    \/ \E i \in 1..Len(Methods), b \in {"none", "text", "bytes", "view", "buffer"}, t \in Values : call = [Base EXCEPT !.method = Methods[i], !.body = b, !.text = t]
    \/ \E q \in UNION {[1..n -> {"none", "one", "two", "fails", "status"}] : n \in 0..3} : call = [f |-> "dns", q |-> q]
    \/ \E a \in {"good", "no city", "status", "fails", "other text", "empty"} : call = [f |-> "ip", a |-> a]
    \/ \E m \in [1..Len(Defaults) -> BOOLEAN] : call = [Base EXCEPT !.mine = m]
    \/ ExInit
CaSpec == CaInit /\ [][CNext]_<<pc, call, out>>
(* a field with several values stands for itself several times; json keeps the list; one without values vanishes *)
RECURSIVE Pairs(_)
Pairs(q) == IF q = <<>> THEN <<>> ELSE [i \in 1..Len(Head(q).v) |-> <<Head(q).k, Head(q).v[i]>>] \o Pairs(Tail(q))
Own(o) == [i \in 1..Len(o) |-> <<-o[i], o[i]>>]   \* the pairs the address brought itself
BodyOf(c) == CASE c.body = "none" -> <<>>
    [] c.body \in {"form", "multi", "data"} -> Pairs(c.form)
    [] c.body = "json" -> c.form
    [] OTHER -> <<c.text>>
(* asking for the addresses of hosts: one question each, in order; a host without an answer has no address, a failure fails the call *)
Addresses(i, a) == CASE a = "one" -> <<i>> [] a = "two" -> <<i, i + 10>> [] OTHER -> <<>>
Sent(c) == [method |-> c.method, pairs |-> Own(c.own) \o Pairs(c.query), body |-> BodyOf(c), lengthOk |-> TRUE, mine |-> c.mine, rest |-> TRUE]
EvalDef(c) == CASE c.f = "dns" /\ (\E i \in 1..Len(c.q) : c.q[i] = "fails") -> "refused"
                [] c.f = "dns" -> [asked |-> [i \in 1..Len(c.q) |-> i], found |-> [i \in 1..Len(c.q) |-> Addresses(i, c.q[i])]]
                [] c.f = "ip" -> IF c.a \in {"good", "no city"} THEN c.a ELSE "refused"
                [] c.f = "carry" -> Sent(c)
                [] OTHER -> Extra(c)
LawDef(c, o) == c.f = "carry" =>
                /\ Len(o.pairs) = Len(c.own) + Len(Pairs(c.query))
                /\ \A i \in 1..Len(c.query) : Len(SelectSeq(o.pairs, LAMBDA p : p[1] = c.query[i].k)) = Len(c.query[i].v)
=============================================================================
