------------------------------ MODULE KillReal -------------------------------
(* The outcome of ending a real process tree: every process of the tree, once.                            *)
EXTENDS FuncBase
RECURSIVE ReachesRoot(_, _)
ReachesRoot(par, p) == p = 1 \/ (p > 1 /\ ReachesRoot(par, par[p]))
EvalDef(c) == [done |-> "ok", sent |-> SelectSeq([i \in 1..Len(c.par) |-> i], LAMBDA p : ReachesRoot(c.par, p))]
CasesDef == [f : {"kill"}, par : {<<0>>}]
LawDef(c, o) == Len(o.sent) = Len(c.par)
=============================================================================
