------------------------------ MODULE KillTree -------------------------------
(* Ending a process tree: the children of every process found are listed (answers arrive in any order), then *)
(* every process found is signalled once; processes already gone are skipped, any other failure is reported.  *)
EXTENDS VUtil
CONSTANTS N
VARIABLES s, act
vars == <<s, act>>
Sorted(S) == LET RECURSIVE Srt(_) Srt(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X : x <= y IN <<m>> \o Srt(X \ {m}) IN Srt(S)
Kids(cfg, p) == {q \in 2..Len(cfg.par) : cfg.par[q] = p}
Obs(x) == [asked |-> Sorted(x.pending), sent |-> Sorted(x.sent), done |-> x.done]
(* cfg.par[q] < q: the parent of process q; process 1 is the root *)
Start(cfg) == LET x == [cfg |-> cfg, pending |-> {}, found |-> {}, sent |-> {}, done |-> <<>>] IN
              CASE cfg.kind = "bad" -> [x EXCEPT !.done = <<"error">>]
                [] OTHER -> [x EXCEPT !.pending = {1}, !.found = {1}]
Finish(x) == LET denied == \E p \in x.found : x.cfg.fate[p] = "denied"
             IN [x EXCEPT !.sent = x.found, !.done = <<IF denied THEN "error" ELSE "ok">>]
Answer(x, p) == LET y == [x EXCEPT !.pending = (@ \ {p}) \cup Kids(x.cfg, p), !.found = @ \cup Kids(x.cfg, p)] IN IF y.pending = {} THEN Finish(y) ELSE y
Listed(p) == p \in s.pending /\ s' = Answer(s, p) /\ act' = [a |-> "listed", p |-> p]
Pars(n) == {<<0>> \o q : q \in [1..(n - 1) -> 1..n]}
Trees == UNION {{q \in Pars(n) : \A i \in 2..n : q[i] < i} : n \in 1..N}
Fates(n) == {f \in [1..n -> {"ok", "gone", "denied"}] : Cardinality({i \in 1..n : f[i] # "ok"}) <= 2}
Cfgs == {[kind |-> k, par |-> t, fate |-> f] : k \in {"linux", "darwin"}, t \in {<<0>>}, f \in Fates(1)}
        \cup UNION {{[kind |-> k, par |-> t, fate |-> f] : k \in {"linux"} \cup (IF Len(t) < 4 THEN {"darwin"} ELSE {}), f \in (IF Len(t) < 5 THEN Fates(Len(t)) ELSE {[i \in 1..Len(t) |-> "ok"]})} : t \in Trees}
        \cup {[kind |-> k, par |-> <<0>>, fate |-> <<"ok">>] : k \in {"bad"}}
Init == (\E c \in Cfgs : s = Start(c)) /\ act = [a |-> "init"]
Next == \E p \in 1..N : Listed(p)
Spec == Init /\ [][Next]_vars
View == [s EXCEPT !.pending = Sorted(@), !.found = Sorted(@), !.sent = Sorted(@)]
RECURSIVE Below(_, _)
Below(cfg, S) == LET T == S \cup UNION {Kids(cfg, p) : p \in S} IN IF T = S THEN S ELSE Below(cfg, T)
(* laws *)
Everyone  == s.done # <<>> /\ s.cfg.kind # "bad" => s.sent = 1..Len(s.cfg.par) /\ s.sent = Below(s.cfg, {1})
NotBefore == s.pending # {} => s.sent = {} /\ s.done = <<>>
OnceDone  == Len(s.done) <= 1
Ends      == s.pending = {} => s.done # <<>>
Emit     == EmitE(View, [act |-> act', obs |-> Obs(s')], View')
EmitInit == IF act.a = "init" THEN EmitE("start", [act |-> act, obs |-> Obs(s)], View) ELSE TRUE
=============================================================================
