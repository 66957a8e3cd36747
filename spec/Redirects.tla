------------------------------ MODULE Redirects ------------------------------
(* One request call that follows redirects. The server's answers, network failures and the timeout are the
   environment; what is observable is every request sent and the single outcome. *)
EXTENDS VUtil
CONSTANTS MaxLeft, Loop
VARIABLES s, act
vars == <<s, act>>
(* an address: tls?, host, port, the segments of its directory, its last segment, its query *)
Addr(t, h, p, d, l, q) == [tls |-> t, host |-> h, port |-> p, dir |-> d, last |-> l, query |-> q]
DefPort(t) == IF t THEN 443 ELSE 80
Text(a) == [tls |-> a.tls, host |-> a.host, port |-> a.port, path |-> a.dir \o <<a.last>>, query |-> a.query]
(* where a location leads, seen from an address *)
Locs == {"none", "abs", "absroot", "path", "sub", "up", "query", "frag", "scheme", "other", "othertls", "otherport", "net", "bad", "mail"}
Leads(a, l) ==
  CASE l = "abs"       -> [a EXCEPT !.dir = <<"x">>, !.last = "y", !.query = "k=1&k=2"]      \* full address, same place
    [] l = "absroot"   -> [a EXCEPT !.dir = <<>>, !.last = "", !.query = ""]                  \* full address without a path
    [] l = "path"      -> [a EXCEPT !.dir = <<"p">>, !.last = "q", !.query = ""]              \* /p/q
    [] l = "sub"       -> [a EXCEPT !.last = "s", !.query = "z=%20"]                          \* s?z=%20
    [] l = "up"        -> [a EXCEPT !.dir = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1), !.last = "u", !.query = ""]  \* ../u
    [] l = "query"     -> [a EXCEPT !.query = "w=2"]                                          \* ?w=2
    [] l = "frag"      -> [a EXCEPT !.dir = <<>>, !.last = "f", !.query = ""]                 \* /f#part
    [] l = "scheme"    -> [a EXCEPT !.tls = ~@, !.port = DefPort(~a.tls), !.dir = <<>>, !.last = "t", !.query = ""]
    [] l = "other"     -> Addr(FALSE, IF a.host = "b.test" THEN "a.test" ELSE "b.test", 80, <<>>, "o", "")
    [] l = "othertls"  -> Addr(TRUE, IF a.host = "b.test" THEN "c.test" ELSE "b.test", 443, <<"o">>, "", "")
    [] l = "otherport" -> [a EXCEPT !.port = 8081, !.dir = <<>>, !.last = "", !.query = ""]
    [] l = "net"       -> Addr(a.tls, IF a.host = "c.test" THEN "a.test" ELSE "c.test", DefPort(a.tls), <<>>, "n", "")  \* //c.test/n
Statuses == {200, 301, 302, 303, 307, 308, 404}
Follows(x, st, l) == l # "none" /\ st \in {301, 302, 303, 307, 308} /\ x.left > 0
Sent(x) == [o |-> "request", at |-> Text(x.at), method |-> x.method, body |-> x.body, creds |-> x.creds]
(* a call that asked for `max` redirects, against a server *)
Cfgs == IF Loop THEN {[method |-> "GET", max |-> 21, tls |-> FALSE]}
        ELSE {[method |-> m, max |-> k, tls |-> t] : m \in {"GET", "POST", "PUT", "HEAD"}, k \in 0..MaxLeft, t \in BOOLEAN}
Start(c) == Addr(c.tls, "a.test", IF c.tls THEN 8443 ELSE 80, <<"d">>, "e", "")
InitOf(c) == [cfg |-> c, pc |-> "idle", at |-> Start(c), method |-> c.method, body |-> c.method \in {"POST", "PUT"}, creds |-> TRUE, left |-> c.max, obs |-> [o |-> "idle"]]
Init == (\E c \in Cfgs : s = InitOf(c)) /\ act = [a |-> "init", status |-> 0, loc |-> "none"]
Begin == s.pc = "idle" /\ s' = [s EXCEPT !.pc = "waiting", !.obs = Sent(s)] /\ act' = [a |-> "start", status |-> 0, loc |-> "none"]
(* the response becomes the outcome *)
Settle(x, st, l) == [x EXCEPT !.pc = "done", !.obs = [o |-> "ok", status |-> st, loc |-> l]]
Fail(x) == [x EXCEPT !.pc = "done", !.obs = [o |-> "err"]]
Hop(x, st, l) ==
    LET to == Leads(x.at, l)
        get == (st = 303 /\ x.method # "HEAD") \/ (st \in {301, 302} /\ x.method = "POST")
        y == [x EXCEPT !.at = to, !.left = @ - 1, !.creds = @ /\ to.host = x.at.host, !.method = IF get THEN "GET" ELSE @, !.body = @ /\ ~get]
    IN [y EXCEPT !.obs = Sent(y)]
Answer(st, l) == s.pc = "waiting" /\ act' = [a |-> "answer", status |-> st, loc |-> l]
    /\ (Loop => st = 302 /\ l = "path")
    /\ (s.left = 0 /\ ~Loop => l \in {"none", "other", "bad"})
    /\ (st \in {200, 404} => l \in {"none", "other"})
    /\ s' = IF ~Follows(s, st, l) THEN Settle(s, st, l) ELSE IF l \in {"bad", "mail"} THEN Fail(s) ELSE Hop(s, st, l)
Break(how) == s.pc = "waiting" /\ ~Loop /\ s' = Fail(s) /\ act' = [a |-> how, status |-> 0, loc |-> "none"]
Next == Begin \/ (\E st \in Statuses, l \in Locs : Answer(st, l)) \/ \E how \in {"reset", "timeout", "cut"} : Break(how)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == [s EXCEPT !.obs = [o |-> "-"]]
(* laws *)
Bounded      == s.left \in 0..s.cfg.max
OneOutcome   == [][s.pc # "done"]_vars
EachHopCosts == [][s'.obs.o = "request" /\ s.pc = "waiting" => s'.left = s.left - 1]_vars
NoReturn     == [][s'.creds => s.creds /\ s'.at.host = s.at.host]_vars
OnlyHome     == s.creds => s.at.host = "a.test"
BodylessGet  == s.method = "GET" /\ s.cfg.method # "GET" => ~s.body
KeepsMethod  == [][act'.a = "answer" /\ act'.status \in {307, 308} => s'.method = s.method /\ s'.body = s.body]_vars
Settles      == <>(s.pc = "done")
EmitAll  == EmitE(View, [act |-> act', obs |-> s'.obs], [s' EXCEPT !.obs = [o |-> "-"]])
EmitInit == IF act.a = "init" THEN EmitE("start", [act |-> act, obs |-> s.obs], View) ELSE TRUE
=============================================================================
