----------------------------- MODULE Parallel ------------------------------
(* The bounded runner `parallel` with its per-task retry loop.               *)
(* One action per stimulus the environment can give (a running attempt       *)
(* settles, a retry timer fires); the reaction of the library up to the next  *)
(* quiescent point is part of the action.                                    *)
EXTENDS VUtil
CONSTANTS MaxN, MaxC, MaxR, Kinds
VARIABLES s, act
vars == <<s, act>>

(* cfg: n tasks, c concurrency, r retries, w retry wait > 0,
   oe in {"none","undef","val"} (error handler), rt retry callback present,
   k[i] in {"ctl","val","thr"}: controlled, settles at once, fails at once     *)
NoObs(n) == [starts |-> <<>>, per |-> [i \in 1..n |-> <<>>], out |-> ""]
Note(x, i, e) == [x EXCEPT !.obs.per[i] = Append(@, e)]

Run0(cfg) == [cfg |-> cfg, next |-> 1, st |-> [i \in 1..cfg.n |-> "idle"], att |-> [i \in 1..cfg.n |-> 0],
              out |-> "pending", obs |-> NoObs(cfg.n)]
Busy(x) == {i \in 1..x.cfg.n : x.st[i] \in {"run", "wait"}}
Dead(x) == {i \in 1..x.cfg.n : x.st[i] = "dead"}
Fin(x)  == {i \in 1..x.cfg.n : x.st[i] \in {"ok", "dflt", "undef"}}

StartOne(x) == LET i == x.next IN
    [x EXCEPT !.next = i + 1, !.st[i] = "run", !.obs.starts = Append(@, i)]
Finish(x, i, how) == Note([x EXCEPT !.st[i] = how], i, "data " \o how)
Failed(x, i, stop) ==
    LET a  == x.att[i]
        y  == IF a >= 1 /\ x.cfg.rt THEN Note(x, i, "retry " \o ToString(a)) ELSE x
        st == a >= 1 /\ x.cfg.rt /\ stop
    IN CASE st -> IF x.cfg.oe = "none" THEN Finish(y, i, "undef")
                  ELSE Finish(Note(y, i, "error"), i, IF x.cfg.oe = "val" THEN "dflt" ELSE "undef")
         [] ~st /\ a >= x.cfg.r ->
                  IF x.cfg.oe = "none" THEN [y EXCEPT !.st[i] = "dead"]
                  ELSE Finish(Note(y, i, "error"), i, IF x.cfg.oe = "val" THEN "dflt" ELSE "undef")
         [] OTHER -> [y EXCEPT !.att[i] = a + 1, !.st[i] = IF x.cfg.w THEN "wait" ELSE "run"]

RECURSIVE Quiesce(_)
Quiesce(x) ==
    LET auto == {i \in 1..x.cfg.n : x.st[i] = "run" /\ x.cfg.k[i] # "ctl"}
    IN IF x.out # "pending" THEN x
       ELSE IF Dead(x) # {} THEN [x EXCEPT !.out = "rejected", !.obs.out = "rejected"]
       ELSE IF auto # {} THEN LET i == CHOOSE j \in auto : TRUE IN
                Quiesce(IF x.cfg.k[i] = "val" THEN Finish(x, i, "ok") ELSE Failed(x, i, FALSE))
       ELSE IF x.next <= x.cfg.n /\ Cardinality(Busy(x)) < x.cfg.c THEN Quiesce(StartOne(x))
       ELSE IF Busy(x) = {} THEN [x EXCEPT !.out = "resolved", !.obs.out = "resolved"]
       ELSE x
Clear(x) == [x EXCEPT !.obs = NoObs(x.cfg.n)]
InitOf(cfg) == Quiesce(Run0(cfg))

(* ---- actions --------------------------------------------------------- *)
CanSettle(x, i) == x.out = "pending" /\ i \in 1..x.cfg.n /\ x.st[i] = "run" /\ x.cfg.k[i] = "ctl"
DoOk(x, i)        == Quiesce(Finish(Clear(x), i, "ok"))
DoErr(x, i, stop) == Quiesce(Failed(Clear(x), i, stop))
DoTimer(x, i)     == Quiesce([Clear(x) EXCEPT !.st[i] = "run"])

SettleOk(i)  == CanSettle(s, i) /\ s' = DoOk(s, i) /\ act' = [a |-> "ok", i |-> i, stop |-> FALSE]
SettleErr(i, stop) == CanSettle(s, i) /\ (stop => s.cfg.rt /\ s.att[i] >= 1)
                      /\ s' = DoErr(s, i, stop) /\ act' = [a |-> "err", i |-> i, stop |-> stop]
TimerFires(i) == s.out = "pending" /\ s.st[i] = "wait" /\ s' = DoTimer(s, i) /\ act' = [a |-> "timer", i |-> i, stop |-> FALSE]

Cfgs == {[n |-> n, c |-> c, r |-> r, w |-> w, oe |-> oe, rt |-> rt, k |-> k] :
            n \in 0..MaxN, c \in 1..MaxC, r \in 0..MaxR, w \in BOOLEAN, oe \in {"none", "undef", "val"}, rt \in BOOLEAN,
            k \in [1..MaxN -> Kinds]}
Sane(cfg) == cfg.w => \A i \in 1..cfg.n : cfg.k[i] # "thr"   \* a timer must be attributable to one task
Norm(cfg) == [cfg EXCEPT !.k = [i \in 1..cfg.n |-> cfg.k[i]]]
Init == /\ \E cfg \in Cfgs : Sane(cfg) /\ s = InitOf(Norm(cfg))
        /\ act = [a |-> "init", i |-> 0, stop |-> FALSE]
Next == \E i \in 1..s.cfg.n : SettleOk(i) \/ (\E b \in BOOLEAN : SettleErr(i, b)) \/ TimerFires(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == [s EXCEPT !.obs = <<>>]

(* ---- properties of the design ----------------------------------------- *)
AtMostC     == Cardinality(Busy(s)) <= s.cfg.c
InOrder     == \A i \in 1..s.cfg.n : (s.st[i] # "idle") <=> (i < s.next)
WorkConserving == s.out = "pending" => (Cardinality(Busy(s)) = s.cfg.c \/ s.next > s.cfg.n)
RetryBound  == \A i \in 1..s.cfg.n : s.att[i] <= s.cfg.r
ResolvedOk  == (s.out = "resolved") <=> (Fin(s) = 1..s.cfg.n)
RejectedOk  == (s.out = "rejected") <=> (Dead(s) # {})
HandlerMeansNoReject == s.cfg.oe # "none" => s.out # "rejected"
StartOnce   == [][\A i \in 1..s.cfg.n : i < s.next => ~Contains(s'.obs.starts, i)]_vars
SlotsFrozen == [][\A i \in 1..s.cfg.n : s.st[i] \in {"ok", "dflt", "undef", "dead"} => s'.st[i] = s.st[i]]_vars
Settles     == <>(s.out # "pending")
Emit        == EmitE(View, [act |-> act', obs |-> s'.obs], View')
EmitInit    == IF act.a = "init" THEN EmitE("start", [act |-> act, obs |-> s.obs], View) ELSE TRUE

=============================================================================
