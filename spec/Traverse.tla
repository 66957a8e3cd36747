------------------------------ MODULE Traverse ------------------------------
(* The each/map family: visiting order, early stop, serial vs concurrent callbacks, results.                         *)
(* plan[i]: how the callback answers for element i: "go" (a value), "stop" (true), "truthy" (a truthy value that is  *)
(* not true), "throw", or "later" (a promise settled by the environment with go / stop / err).                        *)
EXTENDS VUtil
CONSTANTS MaxN
VARIABLES s, act
vars == <<s, act>>
Sync   == {"each", "eachRight", "mapRight"}
Serial == {"eachAsync", "eachRightAsync", "mapAsync", "mapRightAsync"}
Par    == {"eachParallel", "eachRightParallel", "mapParallel", "mapRightParallel"}
Right  == {"eachRight", "eachRightAsync", "eachRightParallel", "mapRight", "mapRightAsync", "mapRightParallel"}
Maps   == {"mapRight", "mapAsync", "mapRightAsync", "mapParallel", "mapRightParallel"}
Stops  == {"each", "eachRight", "eachAsync", "eachRightAsync"}
Nth(x, k) == IF x.cfg.kind \in Right THEN x.cfg.n + 1 - k ELSE k   (* the k-th element visited *)
InitOf(cfg) == [cfg |-> cfg, k |-> 0, wait |-> {}, done |-> FALSE, obs |-> <<>>]
Note(x, e) == [x EXCEPT !.obs = Append(@, e)]
Finish(x)  == Note([x EXCEPT !.done = TRUE, !.wait = {}], <<"resolved", IF x.cfg.kind \in Maps THEN [j \in 1..x.cfg.n |-> Nth(x, j)] ELSE <<>>>>)
Fail(x, i) == Note([x EXCEPT !.done = TRUE, !.wait = {}], <<"failed", <<i>>>>)
Stop(x)    == Note([x EXCEPT !.done = TRUE, !.wait = {}], <<"resolved", <<>>>>)
RECURSIVE Visit(_)
Visit(x) ==
    IF x.k = x.cfg.n THEN (IF x.wait = {} THEN Finish(x) ELSE x)
    ELSE LET i == Nth(x, x.k + 1)
             y == Note([x EXCEPT !.k = @ + 1], <<"visit", <<i>>>>)
             p == x.cfg.plan[i]
         IN CASE p = "throw" -> IF x.cfg.kind \in Par /\ x.wait # {} THEN Fail(y, i) ELSE Fail(y, i)
              [] p = "later" -> IF x.cfg.kind \in Serial THEN [y EXCEPT !.wait = {i}] ELSE Visit([y EXCEPT !.wait = @ \cup {i}])
              [] p = "stop" /\ x.cfg.kind \in Stops -> Stop(y)
              [] OTHER -> Visit(y)
DoStart(x) == Visit([x EXCEPT !.obs = <<>>])
DoSettle(x0, i, m) ==
    LET x == [x0 EXCEPT !.obs = <<>>, !.wait = @ \ {i}] IN
    IF m = "err" THEN Fail(x, i)
    ELSE IF x.cfg.kind \in Serial THEN (IF m = "stop" /\ x.cfg.kind \in Stops THEN Stop(x) ELSE Visit(x))
    ELSE IF x.wait = {} THEN Finish(x) ELSE x
Start == act.a = "init" /\ s' = DoStart(s) /\ act' = [a |-> "start", i |-> 0, m |-> ""]
Settle(i, m) == i \in s.wait /\ s' = DoSettle(s, i, m) /\ act' = [a |-> "settle", i |-> i, m |-> m]
Ans == {"go", "stop", "truthy", "throw", "later"}
Cfgs == UNION {[kind : Sync, n : {n}, plan : [1..n -> Ans \ {"later"}]] \cup [kind : Serial \cup Par, n : {n}, plan : [1..n -> Ans]] : n \in 0..MaxN}
Init == (\E c \in Cfgs : s = InitOf(c)) /\ act = [a |-> "init", i |-> 0, m |-> ""]
Next == Start \/ \E i \in 1..MaxN, m \in {"go", "stop", "err"} : Settle(i, m)
Spec == Init /\ [][Next]_vars
View == [s |-> [s EXCEPT !.obs = <<>>], on |-> act.a # "init"]
Visits(o) == SelectSeq(o, LAMBDA e : e[1] = "visit")
OneAtATime == (s.cfg.kind \in Serial) => Cardinality(s.wait) <= 1
InOrder    == LET v == Visits(s.obs) IN \A j \in 1..Len(v) : v[j][2] = <<Nth(s, s.k - Len(v) + j)>>
NoneAfter  == [][s.done => FALSE]_vars
AllVisited == (s.done /\ s.obs # <<>> /\ s.cfg.kind \notin Stops /\ Last(s.obs)[1] = "resolved") => s.k = s.cfg.n
Emit     == EmitE(View, [act |-> act', obs |-> s'.obs], [s |-> [s' EXCEPT !.obs = <<>>], on |-> TRUE])
EmitInit == IF act.a = "init" THEN EmitE("start", [act |-> act, obs |-> s.obs], View) ELSE TRUE
=============================================================================
