--------------------------- MODULE CollectorTrace ---------------------------
EXTENDS Collector, IOUtils
VARIABLE l
T == ndJsonDeserialize(IOEnv.TRACE)
StepOf(x, e) == CASE e.a = "init"   -> InitOf(e.cfg)
                  [] e.a = "hand"   -> DoHand(x, e.m, e.fin)
                  [] e.a = "again"  -> DoAgain(x, e.i, e.fin)
                  [] e.a = "other"  -> DoOther(x, e.fin)
                  [] e.a = "settle" -> DoSettle(x, e.i, e.m)
TInit == l = 1 /\ s = InitOf(T[1].cfg) /\ act = [a |-> "init"]
TNext == /\ l <= Len(T) /\ l' = l + 1 /\ act' = [a |-> T[l].a] /\ s' = StepOf(s, T[l])
         /\ IF s'.obs = T[l].obs THEN TRUE ELSE EmitB([l |-> l, model |-> s'])
TSpec == TInit /\ [][TNext]_<<s, act, l>>
TraceConsumed == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
