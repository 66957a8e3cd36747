----------------------------- MODULE Durations ------------------------------
(* What a duration given to the delay functions means.  Values are written as text: integers in -3..Big, or one of the special words. *)
EXTENDS FuncBase
Words == {"2147483647", "2147483648", "4294967297", "9007199254740993", "1.5", "NaN", "Infinity", "-Infinity", "-0.5", "-2147483649"}
Small == -3..3
Fns == {"resolve", "setTimeout", "delay", "delayRun", "timeoutOr", "delayReturn"}
Forms == {"number", "string", "function", "array", "point"}
(* clearing every timer: of n timers, the first ones have run; none is left, and those set afterwards run *)
ClearCases == [f : {"clearAll"}, n : 0..4, ran : 0..4, later : 0..2] \cup [f : {"clearAll"}, n : {100, 300, 3000}, ran : {0, 50}, later : {1}]
(* the text of a duration: below a second its milliseconds, below a day the clock, from a day on the days and the clock unless it is at zero *)
LogCases == [f : {"log"}, d : {0, 1, 2, 23, 24}, h : {0, 1, 12, 20}, m : {0, 5, 59}, s : {0, 7, 59}, ms : {0, 5, 60, 999}, many : 0..3]
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Three(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
Clock(c) == Two(c.h) \o ":" \o Two(c.m) \o ":" \o Two(c.s) \o (IF c.ms = 0 THEN "" ELSE "." \o Three(c.ms))
Zero(c) == c.h = 0 /\ c.m = 0 /\ c.s = 0
LogText(c) == IF c.d = 0 THEN (IF Zero(c) THEN ToString(c.ms) \o "ms" ELSE Clock(c))
              ELSE ToString(c.d) \o "d" \o (IF Zero(c) /\ c.ms = 0 THEN "" ELSE " " \o Clock(c))
(* what is asked to run next runs once, after the code at hand, in the order asked: callback i asks for more[i] further ones *)
TickCases == [f : {"tick"}, n : 0..3, more : [1..4 -> 0..2], host : 0..3]
RECURSIVE Queue(_, _, _)
Queue(q, ran, c) == IF q = <<>> THEN ran ELSE LET i == Head(q) k == IF i \in 1..4 THEN c.more[i] ELSE 0
                    IN Queue(Tail(q) \o [j \in 1..k |-> i * 10 + j], Append(ran, i), c)
CasesDef == LogCases \cup TickCases \cup {c \in ClearCases : c.ran <= c.n} \cup [f : Fns, form : Forms, kind : {"int"}, n : Small, w : {""}] \cup [f : Fns, form : Forms, kind : {"word"}, n : {0}, w : Words]
(* the milliseconds actually waited, or "TypeError" *)
EvalDef(c) == IF c.f = "log" THEN IF c.d = 24 /\ c.h = 20 /\ c.m > 31 THEN "refused" ELSE [i \in 1..c.many |-> LogText(c)]
              ELSE IF c.f = "tick" THEN Queue([i \in 1..c.n |-> i], <<>>, c)
              ELSE IF c.f = "clearAll" THEN [ran |-> c.ran, left |-> 0, later |-> c.later, number |-> TRUE]
              ELSE IF c.kind = "int" THEN ToString(IF c.n < 0 THEN 0 ELSE c.n)
              ELSE IF c.w = "2147483647" THEN "2147483647" ELSE IF c.w = "-2147483649" THEN "0" ELSE "TypeError"
LawDef(c, o) == c.f \notin {"clearAll", "log", "tick"} /\ c.kind = "int" /\ c.n < 0 => o = "0"
=============================================================================
