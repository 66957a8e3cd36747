--------------------------- MODULE ParallelTrace ---------------------------
(* Recorded executions of the real runner, decided against Parallel's actions. *)
EXTENDS Parallel, IOUtils
VARIABLE l
T == ndJsonDeserialize(IOEnv.TRACE)
Runs(x) == {i \in 1..x.cfg.n : x.st[i] = "run" /\ x.cfg.k[i] = "ctl"}
SetOf(q) == {q[j] : j \in 1..Len(q)}
StepOf(x, e) == CASE e.a = "init"  -> InitOf(e.cfg)
                  [] e.a = "ok"    -> IF CanSettle(x, e.i) THEN DoOk(x, e.i) ELSE x
                  [] e.a = "err"   -> IF CanSettle(x, e.i) THEN DoErr(x, e.i, e.stop) ELSE x
                  [] e.a = "timer" -> DoTimer(x, e.i)
(* a run given no start and data handlers tells only its errors and retries *)
Unheard(per) == [i \in 1..Len(per) |-> SelectSeq(per[i], LAMBDA w : w \notin {"data ok", "data dflt", "data undef"})]
Agrees(y, e) == y.obs.out = e.out /\ (y.out # "rejected" =>
                  /\ IF e.quiet THEN Unheard(y.obs.per) = Unheard(e.per) ELSE y.obs.starts = e.starts /\ y.obs.per = e.per
                  /\ Runs(y) = SetOf(e.running))
TInit == l = 1 /\ s = InitOf(T[1].cfg) /\ act = [a |-> "init"]
TNext == /\ l <= Len(T)
         /\ l' = l + 1
         /\ act' = [a |-> T[l].a]
         /\ s' = StepOf(s, T[l])
         /\ IF Agrees(s', T[l]) THEN TRUE ELSE EmitB([l |-> l, model |-> [obs |-> s'.obs, running |-> Runs(s')]])
TSpec == TInit /\ [][TNext]_<<s, act, l>>
TInv  == AtMostC /\ InOrder /\ RetryBound /\ HandlerMeansNoReject
TraceConsumed == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
