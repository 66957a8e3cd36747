----------------------------- MODULE CurryTrace -----------------------------
EXTENDS Curry, IOUtils
VARIABLE l
T == ndJsonDeserialize(IOEnv.TRACE)
StepOf(x, e) == CASE e.a = "init" -> InitOf(e.cfg) [] e.a = "apply" -> DoApply(x, e.i, e.k)
TInit == l = 1 /\ s = InitOf(T[1].cfg) /\ act = [a |-> "init"]
TNext == /\ l <= Len(T) /\ l' = l + 1 /\ act' = [a |-> T[l].a] /\ s' = StepOf(s, T[l])
         /\ IF ToJson(s'.obs) = ToJson(T[l].obs) THEN TRUE ELSE EmitB([l |-> l, model |-> s'])
TSpec == TInit /\ [][TNext]_<<s, act, l>>
TraceConsumed == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
