------------------------------- MODULE Retry -------------------------------
(* `retry`: attempts, pacing, stop signal, error aggregation.                 *)
EXTENDS VUtil
CONSTANTS MaxR
VARIABLES s, act
vars == <<s, act>>
(* cfg: r retries; wait in {"none","fixed","range"}; oe in {"none","undef","val"}; rt retry callback given;
   k: "fn" (a function, run afresh by every attempt) or "prom" (one promise, settles once)              *)
Run0(cfg) == [cfg |-> cfg, ph |-> "run", tries |-> 1, fails |-> 0, armed |-> 0, out |-> "pending", errs |-> 0, obs |-> <<>>]
Note(x, e) == [x EXCEPT !.obs = Append(@, e)]
End(x, o)  == [x EXCEPT !.ph = "done", !.out = o]
Handler(x) == IF x.cfg.oe = "none" THEN x ELSE Note(x, "error " \o ToString(x.fails))
HandlerValue(x) == IF x.cfg.oe = "val" THEN "dflt" ELSE "undef"

(* the attempt in progress fails: stop is what the retry callback would answer *)
Fail(x, stop) ==
    LET y == [x EXCEPT !.fails = @ + 1]           \* fails = number of failed attempts so far
        a == y.fails - 1                            \* the failed attempt was retry number a
        z == IF a >= 1 /\ x.cfg.rt THEN Note(y, "retry " \o ToString(a)) ELSE y
    IN IF a >= 1 /\ x.cfg.rt /\ stop THEN
            IF x.cfg.oe = "none" THEN End(z, "undef") ELSE End(Handler(z), HandlerValue(z))
       ELSE IF a >= x.cfg.r THEN
            IF x.cfg.oe = "none" THEN End([z EXCEPT !.errs = z.fails], "rejected") ELSE End(Handler(z), HandlerValue(z))
       ELSE IF x.cfg.wait = "none" THEN [z EXCEPT !.tries = @ + 1] ELSE [z EXCEPT !.ph = "wait", !.armed = @ + 1]
RECURSIVE Drive(_)                                   \* a rejected promise fails every further attempt at once
Drive(x) == IF x.ph = "run" /\ x.cfg.k = "prom" /\ x.fails > 0 THEN Drive(Fail(x, FALSE)) ELSE x
Clear(x) == [x EXCEPT !.obs = <<>>]
InitOf(cfg) == Run0(cfg)
CanSettle(x) == x.ph = "run"
DoOk(x) == End(Clear(x), "ok")
DoErr(x, stop) == Drive(Fail(Clear(x), stop))
DoTimer(x) == Drive([Clear(x) EXCEPT !.ph = "run", !.tries = @ + 1])

Succeed    == CanSettle(s) /\ s' = DoOk(s) /\ act' = [a |-> "ok", stop |-> FALSE]
FailAct(b) == CanSettle(s) /\ (b => s.cfg.rt /\ s.fails >= 1 /\ s.cfg.k = "fn") /\ s' = DoErr(s, b) /\ act' = [a |-> "err", stop |-> b]
Wake       == s.ph = "wait" /\ s' = DoTimer(s) /\ act' = [a |-> "timer", stop |-> FALSE]
Cfgs == [r : 0..MaxR, wait : {"none", "fixed", "range"}, oe : {"none", "undef", "val"}, rt : BOOLEAN, k : {"fn", "prom"}]
Init == (\E cfg \in Cfgs : s = InitOf(cfg)) /\ act = [a |-> "init", stop |-> FALSE]
Next == Succeed \/ (\E b \in BOOLEAN : FailAct(b)) \/ Wake
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == [s EXCEPT !.obs = <<>>]

AttemptBound == s.tries <= s.cfg.r + 1
FailBound    == s.fails <= s.cfg.r + 1
Aggregates   == (s.out = "rejected") => (s.cfg.oe = "none" /\ s.errs = s.cfg.r + 1)
NoWaitAfterLast == s.armed <= s.cfg.r
PacedOnly    == s.cfg.wait = "none" => s.armed = 0
Undefined    == (s.out = "undef") => (s.cfg.oe = "undef" \/ (s.cfg.oe = "none" /\ s.cfg.rt))
DoneFinal    == [][s.out # "pending" => s' = s]_vars
Settles      == <>(s.out # "pending")
Emit     == EmitE(View, [act |-> act', obs |-> s'.obs], View')
EmitInit == IF act.a = "init" THEN EmitE("start", [act |-> act, obs |-> s.obs], View) ELSE TRUE
=============================================================================
