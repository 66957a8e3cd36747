-------------------------------- MODULE Chain --------------------------------
(* compose, the before/after hook family and bind: which functions run, in which order, with what, and what is answered. *)
(* A value is a term: "in<i>" an argument, "<f>(..)" the result of f; fail names the stage that throws.                    *)
EXTENDS FuncBase
Pre(p, n) == [i \in 1..n |-> p \o ToString(i)]
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o Join(Tail(q))
App(f, args) == f \o "(" \o Join(args) \o ")"
(* run stages one after the other: each is [f, args(previous results)]; stops at the failing one *)
Ev(calls, ok, res) == [calls |-> calls, ok |-> ok, res |-> res]
RECURSIVE Pipe(_, _, _, _, _)
Pipe(i, n, v, fail, calls) ==
    IF i > n THEN Ev(calls, TRUE, v)
    ELSE LET t == App("f" \o ToString(i), <<v>>) IN
         IF i = fail THEN Ev(Append(calls, t), FALSE, "f" \o ToString(i)) ELSE Pipe(i + 1, n, t, fail, Append(calls, t))
Hooks == {"before", "after", "withBefore", "withAfter", "applyBefore", "applyAfter"}
CasesDef == [f : {"compose"}, n : 2..9, fail : 0..9, h : {0}, t : {0}] \cup [f : Hooks, n : {0}, fail : 0..2, h : 0..3, t : 0..3] \cup [f : {"bind"}, n : {0}, fail : 0..1, h : {0}, t : 0..4]
(* first: the one that runs first *)
Two(first, second, fail, res) ==
    IF fail = 1 THEN Ev(<<first>>, FALSE, "1") ELSE IF fail = 2 THEN Ev(<<first, second>>, FALSE, "2") ELSE Ev(<<first, second>>, TRUE, res)
EvalDef(c) ==
    LET hk == App("hook", Pre("h", c.h))
        tg == App("target", Pre("t", c.t))
    IN CASE c.f = "compose"     -> Pipe(1, c.n, "in1", c.fail, <<>>)
         [] c.f = "before"      -> Two(hk, tg, c.fail, tg)
         [] c.f = "after"       -> Two(tg, hk, c.fail, tg)
         [] c.f = "withBefore"  -> LET b == App("hook", Pre("t", c.t)) IN Two(b, App("target", <<b>>), c.fail, b)
         [] c.f = "applyBefore" -> LET b == App("hook", Pre("t", c.t)) IN Two(b, App("target", <<b>>), c.fail, App("target", <<b>>))
         [] c.f = "withAfter"   -> Two(tg, App("hook", <<tg>> \o Pre("h", c.h)), c.fail, tg)
         [] c.f = "applyAfter"  -> LET a == App("hook", <<tg>> \o Pre("h", c.h)) IN Two(tg, a, c.fail, a)
         [] c.f = "bind"        -> IF c.fail = 1 THEN Ev(<<App("method@ctx", Pre("t", c.t))>>, FALSE, "1") ELSE Ev(<<App("method@ctx", Pre("t", c.t))>>, TRUE, App("method@ctx", Pre("t", c.t)))
LawDef(c, o) == /\ (c.f = "compose" => Len(o.calls) = IF c.fail = 0 \/ c.fail > c.n THEN c.n ELSE c.fail)
                /\ (o.ok => (c.fail = 0 \/ (c.f = "compose" /\ c.fail > c.n)))
=============================================================================
