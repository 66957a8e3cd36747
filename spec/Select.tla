------------------------------- MODULE Select -------------------------------
(* select(condition, doIf, doElse, ...args): the condition is settled first, then exactly the chosen branch is used. *)
EXTENDS FuncBase
Conds == {"true", "false", "fn-true", "fn-false", "async-true", "async-false", "promise-true", "promise-false", "fn-throws", "promise-rejects", "truthy", "falsy"}
Branch == {"value", "fn", "async", "promise", "fn-throws", "rejects", "missing"}
CasesDef == [f : {"select"}, cond : Conds, doIf : Branch, doElse : Branch]
Runs(b, name) == IF b \in {"fn", "async", "fn-throws"} THEN <<name>> ELSE <<>>
Fails(b) == b \in {"fn-throws", "rejects"}
Truth(c) == c \in {"true", "fn-true", "async-true", "promise-true", "truthy"}
EvalDef(c) ==
    LET cr == IF c.cond \in {"fn-true", "fn-false", "async-true", "async-false", "fn-throws"} THEN <<"cond">> ELSE <<>> IN
    IF c.cond \in {"fn-throws", "promise-rejects"} THEN [ran |-> cr, settled |-> "err", by |-> "cond"]
    ELSE LET name == IF Truth(c.cond) THEN "if" ELSE "else"
             b == IF Truth(c.cond) THEN c.doIf ELSE c.doElse
         IN [ran |-> cr \o Runs(b, name), settled |-> IF Fails(b) THEN "err" ELSE "ok", by |-> IF b = "missing" THEN "undefined" ELSE name]
LawDef(c, o) == Len(o.ran) <= 2 /\ (o.settled = "ok" => o.by # "cond")
=============================================================================
