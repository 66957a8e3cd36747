------------------------------ MODULE Adapters ------------------------------
(* Adapters between sync, async and promise sources: what runs, and how the returned promise settles.          *)
(* src: the source; v: which value/error it produces (0 an object, others falsy values); fb: the fallback.       *)
(* dress: own properties the source carries (none, a value named then, methods named then and catch), which never matter for a  *)
(* callable: it is the callable that runs.                                                                                      *)
EXTENDS FuncBase
Srcs == {"fn", "fn-throws", "async", "async-throws", "fn-promise", "fn-rejects", "promise", "rejects", "later", "later-rejects", "fn-later", "fn-later-rejects", "thenable", "thenable-rejects", "fn-thenable", "fn-thenable-rejects"}
Fns  == {"fn", "fn-throws", "async", "async-throws", "fn-promise", "fn-rejects", "fn-later", "fn-later-rejects", "fn-thenable", "fn-thenable-rejects"}
Fbs  == {"value", "fn", "async", "promise", "fn-throws", "rejects", "missing", "fn-later", "thenable", "fn-thenable"}
CasesDef == [f : {"padding", "noCatch", "toPromise", "executeToPromise"}, src : Srcs, v : 0..5, fb : {"-"}, n : {0, 2}, dress : 0..2]
            \cup [f : {"toPromise", "executeToPromise"}, src : {"value"}, v : 0..5, fb : {"-"}, n : {0, 2}, dress : 0..2]
            \cup [f : {"tryCatch"}, src : Fns, v : 0..5, fb : {"-"}, n : {0, 2}, dress : 0..2]
            \cup [f : {"ifThrow"}, src : Srcs, v : 0..5, fb : Fbs, n : {0, 2}, dress : 0..2]
Bad(k) == k \in {"fn-throws", "async-throws", "fn-rejects", "rejects", "later-rejects", "fn-later-rejects", "thenable-rejects", "fn-thenable-rejects"}
RunsFn(k) == k \in Fns
EvalDef(c) ==
    LET ran == IF RunsFn(c.src) THEN <<"src">> ELSE <<>>
        R(settled, what) == [ran |-> ran, settled |-> settled, what |-> what]
    IN CASE c.f = "padding" -> R("ok", IF Bad(c.src) THEN "[null,err]" ELSE "[val,null]")
         [] c.f = "noCatch" -> R("ok", IF Bad(c.src) THEN "undefined" ELSE "val")
         [] c.f \in {"toPromise", "executeToPromise", "tryCatch"} -> IF Bad(c.src) THEN R("err", "err") ELSE R("ok", "val")
         [] c.f = "ifThrow" ->
              IF ~Bad(c.src) THEN R("ok", "val")
              ELSE [ran |-> ran \o (IF c.fb \in {"fn", "async", "fn-throws", "fn-later", "fn-thenable"} THEN <<"fb">> ELSE <<>>),
                    settled |-> IF Bad(c.fb) THEN "err" ELSE "ok",
                    what |-> IF c.fb = "missing" THEN "undefined" ELSE IF Bad(c.fb) THEN "fberr" ELSE "fbval"]
LawDef(c, o) == /\ (c.f \in {"padding", "noCatch"} => o.settled = "ok")
                /\ (~Bad(c.src) => "fb" \notin Range(o.ran))
=============================================================================
