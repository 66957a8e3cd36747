------------------------------ MODULE Progress ------------------------------
(* A progress bar: every step forward counts one, every line shown tells the count reached, its share of the *)
(* total and a bar filled to the same share; at the step that reaches the total the bar is complete: the     *)
(* line is cleared and the cursor comes back.  Answers: after every operation the line the terminal showed,  *)
(* the line it shows now, whether the cursor is hidden, and what the operation answered.                     *)
EXTENDS FuncBase
CONSTANTS MaxTotal, MaxOps
Digits(n) == LET RECURSIVE D(_) D(m) == IF m < 10 THEN <<48 + m>> ELSE D(m \div 10) \o <<48 + (m % 10)>> IN D(n)
RECURSIVE Sep(_)
Sep(ps) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<32>> \o Sep(Tail(ps))
\* i steps done of t (t = 0: the total is not known)
Parts(c, i) == IF c.total = 0 THEN <<<<82,85,78,78,73,78,71,58>>>>
               ELSE (IF c.picture THEN <<<<91>> \o [k \in 1..10 |-> IF k * c.total <= i * 10 THEN 35 ELSE 32] \o <<93>>>> ELSE <<>>)
                 \o (IF c.percentage THEN <<Digits((i * 100) \div c.total) \o <<37>>>> ELSE <<>>)
                 \o (IF c.count THEN <<<<40>> \o Digits(i) \o <<47>> \o Digits(c.total) \o <<41>>>> ELSE <<>>)
RECURSIVE Go(_, _, _)
\* blanks at the end of a line are not seen
RECURSIVE Trim(_)
Trim(t) == IF t # <<>> /\ Last(t) = 32 THEN Trim(Front(t)) ELSE t
Go(c, i, ops) ==
  IF ops = <<>> THEN <<>>
  ELSE LET o == Head(ops)  j == IF o.op = "push" THEN i + 1 ELSE i
           line == Trim(Sep(Parts(c, j)) \o <<32>> \o o.text)  full == c.total > 0 /\ j = c.total IN
       IF o.op = "end" \/ full
       THEN <<[shown |-> IF o.op = "end" THEN <<>> ELSE line, now |-> <<>>, hidden |-> FALSE, done |-> TRUE]>> \o Go(c, j, Tail(ops))
       ELSE <<[shown |-> line, now |-> line, hidden |-> c.hide, done |-> FALSE]>> \o Go(c, j, Tail(ops))
EvalDef(c) == Go(c, 0, c.ops)
Bar(s) == {k \in 2..11 : s[k] = 35}
LawDef(c, o) == \A i \in 1..Len(o) : /\ (o[i].done /\ c.ops[i].op # "end" => c.total > 0)
                                     /\ (c.total > 0 /\ c.picture /\ o[i].shown # <<>> => Len(o[i].shown) >= 11 /\ o[i].shown[1] = 91 /\ o[i].shown[12] = 93)
Steps(c) == Cardinality({i \in 1..Len(c.ops) : c.ops[i].op = "push"})
\* nothing is pushed behind the total
Sound(c) == c.total = 0 \/ Steps(c) <= c.total
GSpec == ((pc = "call" /\ out = <<>> /\
   \/ \E t \in 0..MaxTotal, k \in 0..MaxOps, pi \in BOOLEAN, pe \in BOOLEAN, co \in BOOLEAN, hi \in BOOLEAN, d \in BOOLEAN :
      \E names \in [1..k -> {"push", "write", "end"}] :
         /\ call = [f |-> "bar", total |-> t, picture |-> pi, percentage |-> pe, count |-> co, hide |-> hi, dflt |-> d, ops |-> [i \in 1..k |-> [op |-> names[i], text |-> IF names[i] = "end" \/ i % 3 = 0 THEN <<>> ELSE <<96 + i>>]]]
         /\ (d => pi /\ pe /\ co /\ hi) /\ Sound(call)
   \/ \E t \in 1..(MaxTotal * 40) : call = [f |-> "bar", total |-> t, picture |-> TRUE, percentage |-> TRUE, count |-> TRUE, hide |-> TRUE, dflt |-> TRUE, ops |-> [i \in 1..t |-> [op |-> "push", text |-> <<>>]]])
  /\ [][CNext]_<<pc, call, out>>)
CasesDef == {}
=============================================================================
