---------------------------- MODULE MemoSyncTrace ---------------------------
EXTENDS MemoSync, IOUtils
VARIABLE l
T == ndJsonDeserialize(IOEnv.TRACE)
StepOf(x, e) == CASE e.a = "init"   -> InitOf(e.cfg)
                  [] e.a = "call"   -> DoCall(x, e.k, e.b, e.w)
                  [] e.a = "tick"   -> DoTick(x, e.d)
                  [] e.a = "delete" -> DoDelete(x, e.k)
                  [] e.a = "clear"  -> DoClear(x)
TInit == l = 1 /\ s = InitOf(T[1].cfg) /\ act = [a |-> "init"]
TNext == /\ l <= Len(T) /\ l' = l + 1 /\ act' = [a |-> T[l].a] /\ s' = StepOf(s, T[l])
         /\ IF s'.obs = T[l].obs THEN TRUE ELSE EmitB([l |-> l, model |-> s'])
TSpec == TInit /\ [][TNext]_<<s, act, l>>
TraceConsumed == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
