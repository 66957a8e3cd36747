----------------------------- MODULE ShellWords ------------------------------
(* How a POSIX shell, and cmd.exe followed by a program's own argument parser, read a command line, as        *)
(* character machines.  A command line built for a list of arguments must be read back as those arguments.    *)
EXTENDS FuncBase
CONSTANTS Big
Blank == {"sp", "tab"}
Meta == {"|", "&", ";", "<", ">", "(", ")", "$", "bq", "*", "?", "[", "{", "nl", "cr", "!"}
(* POSIX: unquoted "u", in single quotes "s"; bad: something the shell would interpret *)
ShStep(s, x) ==
    CASE s.esc -> [s EXCEPT !.esc = FALSE, !.cur = Append(@, x), !.has = TRUE, !.bad = @ \/ x = "nl"]
      [] s.m = "s" -> IF x = "sq" THEN [s EXCEPT !.m = "u"] ELSE [s EXCEPT !.cur = Append(@, x)]
      [] s.m = "d" -> IF x = "dq" THEN [s EXCEPT !.m = "u"] ELSE [s EXCEPT !.cur = Append(@, x), !.bad = @ \/ x \in {"bs", "$", "bq", "!"}]
      [] x \in Blank -> IF s.has THEN [s EXCEPT !.words = Append(@, s.cur), !.cur = <<>>, !.has = FALSE] ELSE s
      [] x = "sq" -> [s EXCEPT !.m = "s", !.has = TRUE]
      [] x = "dq" -> [s EXCEPT !.m = "d", !.has = TRUE]
      [] x = "bs" -> [s EXCEPT !.esc = TRUE, !.has = TRUE]
      [] OTHER -> [s EXCEPT !.cur = Append(@, x), !.has = TRUE, !.bad = @ \/ x \in Meta \/ (~s.has /\ x \in {"#", "~"})]
ShWords(q) == LET e == FoldL(ShStep, [words |-> <<>>, cur |-> <<>>, has |-> FALSE, m |-> "u", esc |-> FALSE, bad |-> FALSE], q)
              IN IF e.bad \/ e.m # "u" \/ e.esc THEN <<<<"interpreted by the shell">>>> ELSE IF e.has THEN Append(e.words, e.cur) ELSE e.words
(* cmd.exe: ^ quotes the next character outside double quotes; an unquoted operator is interpreted *)
CmdStep(s, x) ==
    CASE s.esc -> [s EXCEPT !.esc = FALSE, !.line = Append(@, x)]
      [] x = "^" /\ ~s.q -> [s EXCEPT !.esc = TRUE]
      [] x = "dq" -> [s EXCEPT !.q = ~@, !.line = Append(@, x)]
      [] OTHER -> [s EXCEPT !.line = Append(@, x), !.bad = @ \/ x \in {"%", "!"} \/ (~s.q /\ x \in {"|", "&", "<", ">", "(", ")"})]
CmdLine(q) == FoldL(CmdStep, [line |-> <<>>, q |-> FALSE, esc |-> FALSE, bad |-> FALSE], q)
(* the program's argument parser (CommandLineToArgvW rules) *)
ArgStep(s, x) ==
    CASE x = "bs" -> [s EXCEPT !.b = @ + 1, !.has = TRUE]
      [] x = "dq" -> LET t == [s EXCEPT !.cur = @ \o [i \in 1..(s.b \div 2) |-> "bs"], !.b = 0, !.has = TRUE] IN IF s.b % 2 = 1 THEN [t EXCEPT !.cur = Append(@, "dq")] ELSE [t EXCEPT !.q = ~@]
      [] OTHER -> LET t == [s EXCEPT !.cur = @ \o [i \in 1..s.b |-> "bs"], !.b = 0]
                  IN IF x \in Blank /\ ~s.q THEN (IF t.has THEN [t EXCEPT !.words = Append(@, t.cur), !.cur = <<>>, !.has = FALSE] ELSE t) ELSE [t EXCEPT !.cur = Append(@, x), !.has = TRUE]
ArgWords(q) == LET e == FoldL(ArgStep, [words |-> <<>>, cur |-> <<>>, has |-> FALSE, q |-> FALSE, b |-> 0], q \o <<"sp">>) IN IF e.q THEN <<<<"open quote">>>> ELSE e.words
CmdWords(q, twice) == LET a == CmdLine(q) b == CmdLine(a.line) e == IF twice THEN b ELSE a IN IF a.bad \/ e.bad \/ a.esc \/ e.esc THEN <<<<"interpreted by cmd">>>> ELSE ArgWords(e.line)
EvalDef(c) == CASE c.f = "sh" -> [read |-> ShWords(c.script)]
                [] c.f = "cmd" -> [read |-> CmdWords(c.script, c.twice)]
                [] c.f = "run" -> [argv |-> <<c.arg>>]
Alpha == {"a", "b", "sp", "nl", "cr", "sq", "dq", "bs", "$", "*", "[", "]", "~", "{", ",", "}", ";", "#", "bq", "&", ">", "tab", "!", "=", "-", "e"}
Small == {"a", "sp", "sq", "bs", "[", "]", "*"}
CasesDef == [f : {"run"}, how : {"sh", "bash", "direct"}, arg : SeqsUpTo(Alpha, 2) \cup SeqsUpTo(Small, IF Big THEN 4 ELSE 3) \cup {<<"{", "a", ",", "b", "}">>, <<"$", "(", "a", ")">>, <<"[", "a", "-", "e", "]">>}]
LawDef(c, o) == TRUE
=============================================================================
