----------------------------- MODULE FuncBase ------------------------------
(* A library call as a two-step machine: a request is pending, then answered.  A concrete module defines    *)
(* EvalDef(c) (the answer required for request c), CasesDef (the requests enumerated exhaustively) and      *)
(* LawDef(c, o) (what must be true of every answer, independently of how EvalDef computes it).              *)
(* Mode "cases": enumerate and print every <request, answer> for the driver to run on the real code.        *)
(* Mode "trace": requests and answers recorded from the real code; each is decided by the same EvalDef.     *)
EXTENDS VUtil, IOUtils
CONSTANTS Mode, Eval(_), Cases, Law(_, _)
VARIABLES pc, call, out
T == IF Mode = "trace" THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>
CInit == pc = "call" /\ out = <<>> /\ call \in Cases
CNext == pc = "call" /\ pc' = "done" /\ out' = Eval(call) /\ UNCHANGED call
CSpec == CInit /\ [][CNext]_<<pc, call, out>>
CEmit == EmitC([c |-> call, o |-> out'])
CLaw  == pc = "done" => Law(call, out)
TInit == pc = "call" /\ out = <<>> /\ call \in 1..Len(T)
TNext == /\ pc = "call" /\ pc' = "done" /\ UNCHANGED call /\ out' = Eval(T[call].c)
         /\ IF ToJson(out') = ToJson(T[call].o) THEN TRUE ELSE EmitB([l |-> call, model |-> out'])
TSpec == TInit /\ [][TNext]_<<pc, call, out>>
TLaw  == pc = "done" => Law(T[call].c, out)
TAll  == TLCGet("stats").distinct = 2 * Len(T)
=============================================================================
