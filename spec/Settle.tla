------------------------------- MODULE Settle -------------------------------
(* One operation of the cancellation / timeout / delay family in flight, under every order of the events that    *)
(* can happen around it: its source settling, time passing, its fallback settling, aborts.                       *)
(*  kind: cancel (cancelExec), limit (timeoutOr), delay, run (delayRun), ret (delayReturn), timer (setTimeout),  *)
(*        deferred.  src: how the callable answers: "ok"/"err" at once, "later".                                 *)
(*  fb: how the fallback (limit) or abort payload (cancel) answers: "ok"/"err" at once, "later".                 *)
EXTENDS VUtil
CONSTANTS Durs, MaxT
VARIABLES s, act
vars == <<s, act>>
None == <<"none">>
InitOf(cfg) == [cfg |-> cfg, t |-> 0, src |-> "idle", fb |-> "idle", due |-> 0, out |-> None, obs |-> <<>>]
(* ---- effects are appended to obs: "src" callable runs, "fb" fallback runs, "cb" timer callback runs, settlements ---- *)
Note(x, e) == [x EXCEPT !.obs = Append(@, e)]
Fin(x, o)  == IF x.out = None THEN Note([x EXCEPT !.out = o, !.due = IF x.cfg.kind = "limit" THEN 0 ELSE @], o) ELSE x
Arm(x, d)  == [x EXCEPT !.due = x.t + Max(1, d)]
(* the source has settled as m *)
SrcDone(x, m) ==
    LET y == [x EXCEPT !.src = m] IN
    CASE x.cfg.kind = "cancel" -> Fin(y, <<m, "src">>)
      [] x.cfg.kind = "limit"  -> IF y.fb = "idle" THEN Fin(y, <<m, "src">>) ELSE y
      [] x.cfg.kind = "run"    -> Fin(y, <<m, "src">>)
      [] x.cfg.kind = "ret"    -> IF y.t >= y.cfg.dur THEN Fin(y, <<m, "src">>) ELSE y
RunSrc(x) == LET y == Note([x EXCEPT !.src = "p"], <<"ran", "src">>) IN IF x.cfg.src = "later" THEN y ELSE SrcDone(y, x.cfg.src)
FbDone(x, m) == Fin([x EXCEPT !.fb = m], <<m, "fb">>)
RunFb(x) == LET y == Note([x EXCEPT !.fb = "p"], <<"ran", "fb">>) IN IF x.cfg.fb = "later" THEN y ELSE FbDone(y, x.cfg.fb)
Expired(x) ==
    LET y == [x EXCEPT !.due = 0] IN
    CASE x.cfg.kind = "limit" -> RunFb(y)
      [] x.cfg.kind = "delay" -> Fin(y, <<"ok", "delay">>)
      [] x.cfg.kind = "run"   -> RunSrc(y)
      [] x.cfg.kind = "timer" -> Note(y, <<"ran", "cb">>)
(* ---- actions ---- *)
DoStart(x0) ==
    LET x == [x0 EXCEPT !.obs = <<>>] IN
    CASE x.cfg.kind = "cancel"   -> RunSrc(x)
      [] x.cfg.kind = "limit"    -> LET y == RunSrc(x) IN IF y.out = None THEN Arm(y, x.cfg.dur) ELSE y
      [] x.cfg.kind = "delay"    -> IF x.cfg.dur = 0 THEN Fin(x, <<"ok", "delay">>) ELSE Arm(x, x.cfg.dur)
      [] x.cfg.kind = "run"      -> IF x.cfg.dur = 0 THEN RunSrc(x) ELSE Arm(x, x.cfg.dur)
      [] x.cfg.kind = "ret"      -> RunSrc(x)
      [] x.cfg.kind = "timer"    -> Arm(x, x.cfg.dur)
      [] x.cfg.kind = "deferred" -> x
DoSrc(x, m) == IF x.cfg.kind = "deferred" THEN Fin([x EXCEPT !.obs = <<>>], <<m, "src">>) ELSE SrcDone([x EXCEPT !.obs = <<>>], m)
DoFb(x, m)  == FbDone([x EXCEPT !.obs = <<>>], m)
DoTick(x0)  ==
    LET x == [x0 EXCEPT !.t = @ + 1, !.obs = <<>>] IN
    IF x.cfg.kind = "ret" THEN (IF x.t >= x.cfg.dur /\ x.src \in {"ok", "err"} THEN Fin(x, <<x.src, "src">>) ELSE x)
    ELSE IF x.due # 0 /\ x.t >= x.due THEN Expired(x) ELSE x
(* abort with the payload cfg.fb; only the outcome is specified, so a payload function is noted only when it is first used *)
DoAbort(x0) == LET x == [x0 EXCEPT !.obs = <<>>] IN IF x.fb = "idle" /\ x.out = None THEN RunFb(x) ELSE x
Started == act.a # "init"
Start  == act.a = "init" /\ s' = DoStart(s) /\ act' = [a |-> "start", m |-> ""]
Src(m) == Started /\ (s.src = "p" \/ (s.cfg.kind = "deferred" /\ s.t < MaxT)) /\ s' = [DoSrc(s, m) EXCEPT !.t = IF s.cfg.kind = "deferred" THEN @ + 1 ELSE @] /\ act' = [a |-> "src", m |-> m]
Fb(m)  == Started /\ s.fb = "p" /\ s' = DoFb(s, m) /\ act' = [a |-> "fb", m |-> m]
Tick   == Started /\ s.t < MaxT /\ s.cfg.kind \notin {"cancel", "deferred"} /\ s' = DoTick(s) /\ act' = [a |-> "tick", m |-> ""]
Abort  == Started /\ s.cfg.kind = "cancel" /\ s.t < MaxT /\ s' = [DoAbort(s) EXCEPT !.t = @ + 1] /\ act' = [a |-> "abort", m |-> ""]
M3 == {"ok", "err", "later"}
Cfgs == [kind : {"cancel"}, dur : {0}, src : M3, fb : M3] \cup [kind : {"limit"}, dur : Durs, src : M3, fb : M3]
        \cup [kind : {"delay", "timer"}, dur : Durs, src : {"ok"}, fb : {"ok"}] \cup [kind : {"run", "ret"}, dur : Durs, src : M3, fb : {"ok"}]
        \cup [kind : {"deferred"}, dur : {0}, src : {"later"}, fb : {"ok"}]
Init == (\E c \in Cfgs : s = InitOf(c)) /\ act = [a |-> "init", m |-> ""]
Next == Start \/ Tick \/ Abort \/ \E m \in {"ok", "err"} : Src(m) \/ Fb(m)
Spec == Init /\ [][Next]_vars
View == [s |-> [s EXCEPT !.obs = <<>>], on |-> Started, cfg |-> s.cfg]
(* ---- laws ---- *)
SettlesOnce   == [][s.out # None => s'.out = s.out]_vars
LimitHonoured == s.cfg.kind = "limit" => /\ (s.out # None /\ s.out[2] = "src") => s.fb = "idle"
                                         /\ (s.fb # "idle") => s.t >= Max(1, s.cfg.dur)
NothingArmed  == (s.cfg.kind = "limit" /\ s.out # None) => s.due = 0
NotEarly      == (s.cfg.kind \in {"delay", "run", "ret"} /\ s.out # None) => s.t >= s.cfg.dur
Emit     == EmitE(View, [act |-> act', obs |-> s'.obs], [s |-> [s' EXCEPT !.obs = <<>>], on |-> TRUE, cfg |-> s'.cfg])
EmitInit == IF act.a = "init" THEN EmitE("start", [act |-> act, obs |-> s.obs], View) ELSE TRUE
=============================================================================
