----------------------------- MODULE RetryTrace -----------------------------
EXTENDS Retry, IOUtils
VARIABLE l
T == ndJsonDeserialize(IOEnv.TRACE)
StepOf(x, e) == CASE e.a = "init"  -> InitOf(e.cfg)
                  [] e.a = "ok"    -> IF CanSettle(x) THEN DoOk(x) ELSE x
                  [] e.a = "err"   -> IF CanSettle(x) THEN DoErr(x, e.stop) ELSE x
                  [] e.a = "timer" -> IF x.ph = "wait" THEN DoTimer(x) ELSE x
Agrees(y, e) == /\ y.obs = e.obs /\ y.ph = e.ph /\ y.out = e.out
                /\ (y.cfg.k = "fn" => y.tries = e.tries)
                /\ (y.out = "rejected" => e.errs = y.errs)
TInit == l = 1 /\ s = InitOf(T[1].cfg) /\ act = [a |-> "init"]
TNext == /\ l <= Len(T) /\ l' = l + 1 /\ act' = [a |-> T[l].a] /\ s' = StepOf(s, T[l])
         /\ IF Agrees(s', T[l]) THEN TRUE ELSE EmitB([l |-> l, model |-> s'])
TSpec == TInit /\ [][TNext]_<<s, act, l>>
TInv == AttemptBound /\ FailBound /\ Aggregates /\ NoWaitAfterLast /\ PacedOnly
TraceConsumed == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
