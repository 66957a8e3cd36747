------------------------------- MODULE Limits -------------------------------
(* Stateful wrappers under arbitrary call histories: once, runOnlyNTimes, runAfterTimes, toggle, singletonClass. *)
EXTENDS VUtil
CONSTANTS MaxN, MaxCalls
VARIABLES s, act
vars == <<s, act>>
(* inst[c]: instance stored for class c (0: none); par[c]: its parent class (0: none); wrapped[c]: made a singleton *)
InitOf(cfg) == [cfg |-> cfg, n |-> 0, ran |-> 0, stored |-> 0, side |-> "L", inst |-> [c \in 1..3 |-> 0], obs |-> <<>>]
(* a call; m = 1: the function calls the wrapper again while it runs (busy: a function that is to run once is running) *)
Flat(x0, b, busy) ==
    LET x == [x0 EXCEPT !.n = @ + 1]
        run(y) == [y EXCEPT !.ran = @ + 1, !.obs = <<IF b THEN "throw" ELSE "ran", y.ran + 1>>]
    IN CASE x.cfg.kind = "once"  -> IF x.stored # 0 THEN [x EXCEPT !.obs = <<"same", x.stored>>]
                                    ELSE IF busy THEN [x EXCEPT !.obs = <<"undefined", 0>>]
                                    ELSE LET y == run(x) IN IF b THEN y ELSE [y EXCEPT !.stored = y.ran]
         [] x.cfg.kind = "only"  -> IF x.n <= x.cfg.n THEN run(x) ELSE [x EXCEPT !.obs = <<"undefined", 0>>]
         [] x.cfg.kind = "after" -> IF x.n >= x.cfg.n THEN run(x) ELSE [x EXCEPT !.obs = <<"function", 0>>]
DoCall(x, b, m) ==
    LET y == Flat(x, b, FALSE) IN
    IF m = 0 \/ y.obs[1] \notin {"ran", "throw"} THEN y
    ELSE LET z == Flat([y EXCEPT !.stored = 0], FALSE, TRUE) IN [z EXCEPT !.stored = y.stored, !.obs = y.obs \o z.obs]
DoToggle(x, op) ==
    LET v == CASE op = "toggle" -> (IF x.side = "L" THEN "R" ELSE "L") [] op = "left" -> "L" [] op = "right" -> "R" [] op = "read" -> x.side
    IN [x EXCEPT !.side = v, !.n = @ + 1, !.obs = <<v>>]
(* construct class c; b: its constructor throws if it runs *)
DoNew(x0, c, b) ==
    LET x == [x0 EXCEPT !.n = @ + 1] IN
    IF x.cfg.wrapped[c] /\ x.inst[c] # 0 THEN [x EXCEPT !.obs = <<"same", x.inst[c]>>]
    ELSE IF b THEN [x EXCEPT !.ran = @ + 1, !.obs = <<"throw", x.ran + 1>>]
    ELSE [x EXCEPT !.ran = @ + 1, !.inst[c] = IF x.cfg.wrapped[c] THEN x.ran + 1 ELSE 0, !.obs = <<"new", x.ran + 1>>]
Call(b, m)  == s.cfg.kind \in {"once", "only", "after"} /\ s' = DoCall(s, b, m) /\ act' = [a |-> "call", b |-> b, c |-> m]
Toggle(op)  == s.cfg.kind = "toggle" /\ s' = DoToggle(s, op) /\ act' = [a |-> op, b |-> FALSE, c |-> 0]
New(c, b)   == s.cfg.kind = "single" /\ s' = DoNew(s, c, b) /\ act' = [a |-> "new", b |-> b, c |-> c]
Dummy == [n |-> 0, par |-> <<0, 0, 0>>, wrapped |-> <<FALSE, FALSE, FALSE>>, viaWrap |-> FALSE]
Cfgs == {[Dummy EXCEPT !.n = n] @@ [kind |-> k] : n \in 0..MaxN, k \in {"once", "only", "after"}} \cup {Dummy @@ [kind |-> "toggle"]}
        \cup {[n |-> 0, par |-> <<0, p2, p3>>, wrapped |-> w, viaWrap |-> v, kind |-> "single"] : p2 \in 0..1, p3 \in 0..2, w \in [1..3 -> BOOLEAN], v \in BOOLEAN}
Init == (\E c \in Cfgs : s = InitOf(c)) /\ act = [a |-> "init", b |-> FALSE, c |-> 0]
Next == s.n < MaxCalls /\ ((\E b \in BOOLEAN : (\E m \in 0..1 : Call(b, m)) \/ \E c \in 1..3 : New(c, b)) \/ \E op \in {"toggle", "left", "right", "read"} : Toggle(op))
Spec == Init /\ [][Next]_vars
View == [s EXCEPT !.obs = <<>>]
(* laws *)
OnceOne     == [][s.cfg.kind = "once" => s'.ran <= s.ran + 1]_vars
OnceStops   == [][s.cfg.kind = "once" /\ s.stored # 0 => s'.ran = s.ran]_vars
OnlyBound   == s.cfg.kind = "only" => s.ran = Min(s.n, s.cfg.n)
AfterBound  == s.cfg.kind = "after" => s.ran = Max(0, s.n - Max(s.cfg.n, 1) + 1)
OnePerClass == [][\A c \in 1..3 : s.inst[c] # 0 => s'.inst[c] = s.inst[c]]_vars
NotShared   == \A c, d \in 1..3 : c # d /\ s.inst[c] # 0 => s.inst[c] # s.inst[d]
Emit     == EmitE(View, [act |-> act', obs |-> s'.obs], View')
EmitInit == IF act.a = "init" THEN EmitE("start", [act |-> act, obs |-> s.obs], View) ELSE TRUE
=============================================================================
