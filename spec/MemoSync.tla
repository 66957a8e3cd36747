------------------------------ MODULE MemoSync ------------------------------
(* memoizeWith: value per key, optional lifetime, delete and clear. *)
EXTENDS VUtil
CONSTANTS Keys, MaxComps, MaxT
VARIABLES s, act
vars == <<s, act>>
InitOf(cfg) == [cfg |-> cfg, t |-> 0, comps |-> 0, val |-> [k \in Keys |-> 0], exp |-> [k \in Keys |-> 0], obs |-> <<>>]
Live(x, k) == x.val[k] # 0 /\ (x.cfg.timed => x.t <= x.exp[k])
DoTick(x, d)   == [x EXCEPT !.t = @ + d, !.obs = <<>>]
DoDelete(x, k) == [x EXCEPT !.val[k] = 0, !.obs = <<>>]
DoClear(x)     == [x EXCEPT !.val = [k \in Keys |-> 0], !.obs = <<>>]
(* what the function does while it runs (w.a): nothing, take w.k instants, ask for key w.k itself, delete it, or clear everything *)
Run(x, w) == CASE w.a = "tick"   -> DoTick(x, w.k)
               [] w.a = "delete" -> DoDelete(x, w.k)
               [] w.a = "clear"  -> DoClear(x)
               [] w.a = "call"   -> IF Live(x, w.k) THEN [x EXCEPT !.obs = <<"hit", x.val[w.k]>>]
                                    ELSE [x EXCEPT !.comps = @ + 1, !.val[w.k] = x.comps + 1, !.exp[w.k] = x.t + x.cfg.ms, !.obs = <<"run", x.comps + 1>>]
               [] OTHER          -> [x EXCEPT !.obs = <<>>]
(* b: whether the function throws if it has to run; a life begins when the value is there *)
DoCall(x, k, b, w) ==
    IF Live(x, k) THEN [x EXCEPT !.obs = <<"hit", x.val[k]>>]
    ELSE LET id == x.comps + 1
             y  == Run([x EXCEPT !.comps = id], w)
         IN IF b THEN [y EXCEPT !.obs = <<"throw", id>> \o y.obs]
            ELSE [y EXCEPT !.val[k] = id, !.exp[k] = y.t + y.cfg.ms, !.obs = <<"run", id>> \o y.obs]
None == [a |-> "none", k |-> 0]
Whiles == {None, [a |-> "clear", k |-> 0]} \cup [a : {"call", "delete"}, k : Keys] \cup (IF s.cfg.timed /\ s.t < MaxT THEN {[a |-> "tick", k |-> 1]} ELSE {})
Call(k, b, w) == s.comps < MaxComps /\ s' = DoCall(s, k, b, w) /\ act' = [a |-> "call", k |-> k, b |-> b, w |-> w]
Tick       == s.t < MaxT /\ s.cfg.timed /\ s' = DoTick(s, 1) /\ act' = [a |-> "tick", k |-> 1, b |-> FALSE]
Delete(k)  == s' = DoDelete(s, k) /\ act' = [a |-> "delete", k |-> k, b |-> FALSE]
ClearAll   == s' = DoClear(s) /\ act' = [a |-> "clear", k |-> 1, b |-> FALSE]
Cfgs == {[timed |-> FALSE, ms |-> 0], [timed |-> TRUE, ms |-> 2], [timed |-> TRUE, ms |-> 1], [timed |-> TRUE, ms |-> 0], [timed |-> TRUE, ms |-> -1]}
Init == (\E c \in Cfgs : s = InitOf(c)) /\ act = [a |-> "init", k |-> 0, b |-> FALSE]
Next == (\E k \in Keys : (\E b \in BOOLEAN, w \in Whiles : Call(k, b, w)) \/ Delete(k)) \/ Tick \/ ClearAll
Spec == Init /\ [][Next]_vars
View == [s EXCEPT !.obs = <<>>]
OwnValue  == [][\A k \in Keys : s'.val[k] # s.val[k] => s'.val[k] = 0 \/ s'.val[k] \in (s.comps + 1)..s'.comps]_vars
Distinct  == \A j, k \in Keys : (j # k /\ s.val[j] # 0) => s.val[j] # s.val[k]
HitIsLive == [][(act'.a = "call" /\ s'.obs[1] = "hit") => Live(s, act'.k)]_vars
Emit     == EmitE(View, [act |-> act', obs |-> s'.obs], View')
EmitInit == IF act.a = "init" THEN EmitE("start", [act |-> act, obs |-> s.obs], View) ELSE TRUE
=============================================================================
