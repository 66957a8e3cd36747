----------------------------- MODULE MemoAsync ------------------------------
(* memoizeWithAsync: one computation in flight per key, shared by all callers; values cached with an expiry. *)
EXTENDS VUtil
CONSTANTS Keys, MaxCalls, MaxComps, MaxT
VARIABLES s, act
vars == <<s, act>>
(* flight[k]: computation id or 0; wait[k]: callers waiting; val[k]: cached computation id or 0; exp[k]: last live instant *)
InitOf(cfg) == [cfg |-> cfg, t |-> 0, calls |-> 0, comps |-> 0, flight |-> [k \in Keys |-> 0], wait |-> [k \in Keys |-> <<>>],
                val |-> [k \in Keys |-> 0], exp |-> [k \in Keys |-> 0], obs |-> [started |-> <<>>, done |-> <<>>]]
Clear(x) == [x EXCEPT !.obs = [started |-> <<>>, done |-> <<>>]]
Live(x, k) == x.val[k] # 0 /\ (x.cfg.timed => x.t <= x.exp[k])
V(id) == "v" \o ToString(id)
E(id) == "e" \o ToString(id)
Answer(x, c, r) == [x EXCEPT !.obs.done = Append(@, <<c, r>>)]
RECURSIVE AnswerAll(_, _, _)
AnswerAll(x, cs, r) == IF cs = <<>> THEN x ELSE AnswerAll(Answer(x, Head(cs), r), Tail(cs), r)
Settle(x, k, ok) ==
    LET id == x.flight[k]
        y == AnswerAll([x EXCEPT !.flight[k] = 0, !.wait[k] = <<>>], x.wait[k], IF ok THEN V(id) ELSE E(id))
    IN IF ok THEN [y EXCEPT !.val[k] = id, !.exp[k] = x.t + x.cfg.ms] ELSE y
(* mode: how the function answers if it has to be run: "later", or at once with a value or an exception *)
Enter(x, k, mode) ==
    LET c == x.calls + 1
        y == [x EXCEPT !.calls = c]
    IN IF Live(x, k) THEN Answer(y, c, V(x.val[k]))
       ELSE IF x.flight[k] # 0 THEN [y EXCEPT !.wait[k] = Append(@, c)]
       ELSE LET id == x.comps + 1
                z == [y EXCEPT !.comps = id, !.flight[k] = id, !.wait[k] = <<c>>, !.obs.started = Append(@, <<id, k>>)]
            IN IF mode = "later" THEN z ELSE Settle(z, k, mode = "value")
DoCall(x, k, mode) == Enter(Clear(x), k, mode)
DoSettle(x, k, ok) == Settle(Clear(x), k, ok)
DoRace(x, k, ok)   == Settle(Enter(Clear(x), k, "later"), k, ok)   \* a call in the same turn as the settlement
DoTick(x, d)       == [Clear(x) EXCEPT !.t = @ + d]
DoDelete(x, k)     == [Clear(x) EXCEPT !.val[k] = 0]
DoClear(x)         == [Clear(x) EXCEPT !.val = [k \in Keys |-> 0]]

Call(k, mode)  == s.calls < MaxCalls /\ s.comps < MaxComps /\ s' = DoCall(s, k, mode) /\ act' = [a |-> "call", k |-> k, m |-> mode]
SettleK(k, ok) == s.flight[k] # 0 /\ s' = DoSettle(s, k, ok) /\ act' = [a |-> "settle", k |-> k, m |-> IF ok THEN "ok" ELSE "err"]
Race(k, ok)    == s.flight[k] # 0 /\ s.calls < MaxCalls /\ ~Live(s, k) /\ s' = DoRace(s, k, ok)
                  /\ act' = [a |-> "race", k |-> k, m |-> IF ok THEN "ok" ELSE "err"]
Tick           == s.t < MaxT /\ s.cfg.timed /\ s' = DoTick(s, 1) /\ act' = [a |-> "tick", k |-> 1, m |-> ""]
Delete(k)      == (s.val[k] # 0 \/ s.flight[k] # 0) /\ s' = DoDelete(s, k) /\ act' = [a |-> "delete", k |-> k, m |-> ""]
ClearAll       == (\E k \in Keys : s.val[k] # 0) /\ s' = DoClear(s) /\ act' = [a |-> "clear", k |-> 1, m |-> ""]
Cfgs == {[timed |-> FALSE, ms |-> 0], [timed |-> TRUE, ms |-> 1], [timed |-> TRUE, ms |-> 0], [timed |-> TRUE, ms |-> -1]}
Init == (\E c \in Cfgs : s = InitOf(c)) /\ act = [a |-> "init", k |-> 0, m |-> ""]
Next == \/ \E k \in Keys : (\E m \in {"later", "value", "throw"} : Call(k, m)) \/ (\E b \in BOOLEAN : SettleK(k, b) \/ Race(k, b)) \/ Delete(k)
        \/ Tick \/ ClearAll
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A k \in Keys : WF_vars(\E b \in BOOLEAN : SettleK(k, b))
View == [s EXCEPT !.obs = <<>>]

SingleFlight == \A j, k \in Keys : j # k => (s.flight[j] = 0 \/ s.flight[j] # s.flight[k])
WaitersHaveFlight == \A k \in Keys : (s.wait[k] # <<>>) <=> (s.flight[k] # 0)
Answered     == [][\A i \in 1..Len(s'.obs.done) : \A k \in Keys : ~Contains(s'.wait[k], s'.obs.done[i][1])]_vars
NoRecomputeWhileLive == [][\A k \in Keys : (Live(s, k) /\ Len(s'.obs.started) > 0) => s'.obs.started[1][2] # k]_vars
FailureNotCached == [][act'.m \in {"err", "throw"} => \A k \in Keys : s'.val[k] = s.val[k]]_vars
EveryCallEnds == \A k \in Keys : (s.wait[k] # <<>>) ~> (s.wait[k] = <<>>)
Emit     == EmitE(View, [act |-> act', obs |-> s'.obs], View')
EmitInit == IF act.a = "init" THEN EmitE("start", [act |-> act, obs |-> s.obs], View) ELSE TRUE
=============================================================================
