------------------------------ MODULE SpawnRun -------------------------------
(* One spawned command: output arrives in pieces on two streams, the process ends, fails to start, or a stream *)
(* fails, in any order the system may deliver; the call settles exactly once, at the close or the first error.  *)
EXTENDS VUtil
CONSTANTS MaxPieces
VARIABLES s, act
vars == <<s, act>>
Streams == {"stdout", "stderr"}
Has(cfg, k) == cfg.io[k] = "pipe"
Start(cfg) == [cfg |-> cfg, n |-> 0, got |-> [k \in Streams |-> <<>>], ended |-> [k \in Streams |-> ~Has(cfg, k)], exited |-> FALSE, closed |-> FALSE, failed |-> FALSE, out |-> <<>>]
Seen(x, k) == IF Has(x.cfg, k) THEN x.got[k] ELSE <<"none">>
Settle(x, how) == IF x.out # <<>> THEN x ELSE [x EXCEPT !.out = <<[how |-> how, stdout |-> Seen(x, "stdout"), stderr |-> Seen(x, "stderr")]>>]
Piece(k) == ~s.closed /\ ~s.ended[k] /\ s.n < MaxPieces /\ s' = [s EXCEPT !.n = @ + 1, !.got[k] = Append(@, s.n + 1)] /\ act' = [a |-> "piece", k |-> k, st |-> 0]
End(k)   == ~s.closed /\ ~s.ended[k] /\ s' = [s EXCEPT !.ended[k] = TRUE] /\ act' = [a |-> "end", k |-> k, st |-> 0]
Exit     == ~s.exited /\ ~s.failed /\ s' = [s EXCEPT !.exited = TRUE] /\ act' = [a |-> "exit", k |-> "", st |-> 0]
Close(st) == /\ ~s.closed /\ (s.exited \/ s.failed) /\ \A k \in Streams : s.ended[k]
             /\ s' = Settle([s EXCEPT !.closed = TRUE], <<"closed", st>>) /\ act' = [a |-> "close", k |-> "", st |-> st]
Error    == ~s.failed /\ ~s.closed /\ ~s.exited /\ s' = Settle([s EXCEPT !.failed = TRUE], <<"error", 0>>) /\ act' = [a |-> "error", k |-> "", st |-> 0]
StreamError(k) == ~s.closed /\ ~s.ended[k] /\ Has(s.cfg, k) /\ s' = Settle([s EXCEPT !.ended[k] = TRUE], <<"stream error", 0>>) /\ act' = [a |-> "streamError", k |-> k, st |-> 0]
Ios == {[stdout |-> "pipe", stderr |-> "pipe"], [stdout |-> "ignore", stderr |-> "ignore"], [stdout |-> "pipe", stderr |-> "inherit"], [stdout |-> "ignore", stderr |-> "pipe"]}
Init == (\E io \in Ios, t \in {"default", "text", "bytes"} : s = Start([io |-> io, text |-> t])) /\ act = [a |-> "init"]
Next == (\E k \in Streams : Piece(k) \/ End(k) \/ StreamError(k)) \/ Exit \/ Error \/ \E st \in 0..3 : Close(st)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(\E k \in Streams : End(k)) /\ WF_vars(Exit) /\ WF_vars(\E st \in 0..3 : Close(st))
Once     == [][s.out # <<>> => s'.out = s.out]_vars
Complete == s.out # <<>> /\ s.out[1].how[1] = "closed" => \A k \in Streams : Has(s.cfg, k) => s.out[1][k] = s.got[k]
EndsOnce == <>(s.out # <<>>)
Emit     == EmitE(s, [act |-> act', obs |-> s'.out], s')
EmitInit == IF act.a = "init" THEN EmitE("start", [act |-> act, obs |-> s.out], s) ELSE TRUE
=============================================================================
