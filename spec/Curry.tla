-------------------------------- MODULE Curry --------------------------------
(* currying: a growing family of partial applications; any of them may be continued any number of times. *)
EXTENDS VUtil
CONSTANTS MaxDepth, MaxNodes, MaxArgs
VARIABLES s, act
vars == <<s, act>>
(* node[i]: arguments collected so far (as ids); next: next fresh argument id *)
InitOf(cfg) == [cfg |-> cfg, node |-> << <<>> >>, next |-> 1, obs |-> <<>>]
DoApply(x, i, k) ==
    LET args == x.node[i] \o [j \in 1..k |-> x.next + j - 1]
        y == [x EXCEPT !.next = @ + k]
    IN IF Len(args) >= x.cfg.depth THEN [y EXCEPT !.obs = <<"ran", args>>]
       ELSE [y EXCEPT !.node = Append(@, args), !.obs = <<"more">>]
Apply(i, k) == s.next + k <= MaxArgs + 1 /\ Len(s.node) < MaxNodes /\ s' = DoApply(s, i, k) /\ act' = [a |-> "apply", i |-> i, k |-> k]
Init == (\E d \in 0..MaxDepth : s = InitOf([depth |-> d])) /\ act = [a |-> "init", i |-> 0, k |-> 0]
Next == \E i \in DOMAIN s.node, k \in 0..MaxArgs : Apply(i, k)
Spec == Init /\ [][Next]_vars
View == [s EXCEPT !.obs = <<>>]
Incomplete == \A i \in DOMAIN s.node : i > 1 => Len(s.node[i]) < s.cfg.depth
InOrder    == \A i \in DOMAIN s.node : \A j, k \in DOMAIN s.node[i] : j < k => s.node[i][j] < s.node[i][k]
Kept       == [][\A i \in DOMAIN s.node : s'.node[i] = s.node[i]]_vars
RunsFull   == [][(act'.a = "apply" /\ s'.obs[1] = "ran") => Len(s'.obs[2]) >= s.cfg.depth]_vars
Emit     == EmitE(View, [act |-> act', obs |-> s'.obs], View')
EmitInit == IF act.a = "init" THEN EmitE("start", [act |-> act, obs |-> s.obs], View) ELSE TRUE
=============================================================================
