------------------------------- MODULE Styles -------------------------------
(* What a terminal shows when styled text of packages/term reaches it.  The terminal holds a foreground, a  *)
(* background and nine attributes; a styled text switches on what it asks for, shows its text, and switches *)
(* everything it touched off again.  Answers are runs of text with the style in force, and the style left.  *)
EXTENDS FuncBase, TermColors
CONSTANT Deep
ATTRS == 9   \* bold dim italic underlined blink rapidBlink reverse hidden crossedOut
None == <<0 - 1>>
Plain == [fg |-> None, bg |-> None, on |-> [i \in 1..ATTRS |-> FALSE]]
\* a wish: w.on[i] in {"n" not mentioned, "y" wanted, "f" unwanted}; colours 0 (none) or 1..16
Asks(w) == w.fg > 0 \/ w.bg > 0 \/ \E i \in 1..ATTRS : w.on[i] = "y"
Opens(s, w) == IF ~Asks(w) THEN Plain
               ELSE [fg |-> IF w.fg > 0 THEN <<w.fg - 1>> ELSE s.fg, bg |-> IF w.bg > 0 THEN <<w.bg - 1>> ELSE s.bg, on |-> [i \in 1..ATTRS |-> s.on[i] \/ w.on[i] = "y"]]
\* bold and dim, and the two speeds of blinking, can only be ended together
Ended(w) == LET m == {i \in 1..ATTRS : w.on[i] # "n"} IN m \cup (IF m \cap {1, 2} # {} THEN {1, 2} ELSE {}) \cup (IF m \cap {5, 6} # {} THEN {5, 6} ELSE {})
Silent(w) == w.fg = 0 /\ w.bg = 0 /\ \A i \in 1..ATTRS : w.on[i] = "n"
Closes(s, w) == IF Silent(w) THEN Plain ELSE [fg |-> IF w.fg > 0 THEN None ELSE s.fg, bg |-> IF w.bg > 0 THEN None ELSE s.bg, on |-> [i \in 1..ATTRS |-> s.on[i] /\ i \notin Ended(w)]]
Run(s, t) == IF t = <<>> THEN <<>> ELSE <<[style |-> s, text |-> t]>>
RECURSIVE Join(_)
Join(rs) == IF Len(rs) < 2 THEN rs ELSE IF rs[1].style = rs[2].style THEN Join(<<[style |-> rs[1].style, text |-> rs[1].text \o rs[2].text]>> \o SubSeq(rs, 3, Len(rs))) ELSE <<Head(rs)>> \o Join(Tail(rs))
Shown(s, t, w) == IF t = <<>> THEN [runs |-> <<>>, left |-> s] ELSE [runs |-> Run(Opens(s, w), t), left |-> Closes(Opens(s, w), w)]
\* a styled text inside a styled text: before, inside, behind
Nested(s, o, i, ts) == LET a == Opens(s, o) b == Opens(a, i) c == IF ts[2] = <<>> THEN a ELSE Closes(b, i) IN
   IF ts[1] \o ts[2] \o ts[3] = <<>> THEN [runs |-> <<>>, left |-> s] ELSE [runs |-> Join(Run(a, ts[1]) \o Run(b, ts[2]) \o Run(c, ts[3])), left |-> Closes(c, o)]
----------------------------------------------------------------------------
(* the message formats *)
SP == 32  LF == 10
Label(type) == CASE type = "error" -> <<69,82,82,79,82>> [] type = "warn" -> <<87,65,82,78>> [] type = "info" -> <<73,78,70,79>>
Hue(type) == CASE type = "error" -> <<9>> [] type = "warn" -> <<3>> [] type = "info" -> <<2>>
St(fg, bg) == [fg |-> fg, bg |-> bg, on |-> Plain.on]
Title(type, t) == IF t = <<>> THEN <<>> ELSE Run(St(<<15>>, Hue(type)), <<SP>> \o Label(type) \o <<SP>>) \o Run(Plain, <<SP>>) \o Run(St(Hue(type), None), t)
Head5(k) == CASE k = "name" -> <<21517,31216>> [] k = "code" -> <<20195,30721>> [] k = "message" -> <<28040,24687>> [] k = "data" -> <<25968,25454>> [] k = "date" -> <<26102,38388>> [] k = "stack" -> <<22534,26632>>
Dashes == [i \in 1..80 |-> 45]
Digits(n) == LET RECURSIVE D(_) D(m) == IF m < 10 THEN <<48 + m>> ELSE D(m \div 10) \o <<48 + (m % 10)>> IN D(n)
Value(v) == IF v.k = "t" THEN Run(Plain, v.t) ELSE Run(St(<<3>>, None), Digits(v.n))     \* numbers are shown in yellow
Section(k, body) == <<Run(Plain, <<LF>>) \o Run(St(<<15>>, <<6>>), <<SP>> \o Head5(k) \o <<SP>>), body>>
\* a section without anything to say is left out
Says(s) == s.k = "data" \/ s.v.k = "n" \/ s.v.t # <<>>
Pieces(c) == LET told == SelectSeq(c.sections, Says)
                 a == Concat([i \in 1..Len(told) |-> Section(told[i].k, Value(told[i].v))])
                 b == a \o (IF c.date THEN Section("date", Run(St(<<5>>, None), <<68>>)) ELSE <<>>)
             IN b \o (IF c.stack \/ (c.type = "error" /\ b # <<>>) THEN Section("stack", Run(St(<<1>>, None), <<83>>)) ELSE <<>>)
RECURSIVE Spaced(_)
Spaced(ps) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o Run(Plain, <<SP>>) \o Spaced(Tail(ps))
Message(c) ==
  LET body == Pieces(c)  rule == Run(Plain, <<LF>> \o Dashes)
      title == IF c.showTitle THEN <<Title(c.type, c.title)>> ELSE <<>>
      all == title \o (IF c.rules THEN <<rule>> \o body \o <<rule>> ELSE body) IN
  IF all = <<>> THEN <<>>
  ELSE IF body = <<>> THEN Join(Spaced(all))
  \* with something to say the message stands on lines of its own
  ELSE LET top == IF Head(all) # <<>> /\ Head(all)[1].text[1] = LF THEN Head(all) ELSE Run(Plain, <<LF>>) \o Head(all) IN Join(Spaced(<<top>> \o Tail(all) \o <<Run(Plain, <<LF>>)>>))
RECURSIVE Lines(_)
Lines(ts) == IF Len(ts) = 0 THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o <<LF, SP, SP>> \o Lines(Tail(ts))
----------------------------------------------------------------------------
EvalDef(c) ==
  CASE c.f = "style" -> Shown(c.s, c.t, c.w)
    [] c.f = "bare"  -> IF c.t = <<>> THEN [runs |-> <<>>, left |-> c.s] ELSE [runs |-> Run(Plain, c.t), left |-> Plain]
    [] c.f = "nest"  -> Nested(c.s, c.o, c.i, c.ts)
    [] c.f = "name"  -> IF c.n = 0 THEN <<"refused">> ELSE IF c.bits = 24 THEN <<Shades(c.term)[c.n], Shades(c.term)[c.n]>> ELSE <<<<c.n - 1>>, <<c.n - 1>>>>
    [] c.f = "code"  -> IF Len(c.v) \in {1, 3} /\ \A i \in 1..Len(c.v) : c.v[i] \in 0..255 THEN <<c.v, c.v>> ELSE <<"refused">>
    [] c.f = "message" -> Message(c)
    [] c.f = "print" -> Title(c.type, Lines(c.ts))
LawDef(c, o) ==
  CASE c.f = "style" -> /\ Concat([i \in 1..Len(o.runs) |-> o.runs[i].text]) = c.t
                        /\ (c.t # <<>> => /\ \A i \in 1..ATTRS : c.w.on[i] = "y" => o.runs[1].style.on[i] /\ ~o.left.on[i]
                                          /\ (c.w.fg > 0 => o.left.fg = None) /\ (c.w.bg > 0 => o.left.bg = None)
                                          /\ (c.s = Plain => o.left = Plain))
    [] c.f = "nest" -> Concat([i \in 1..Len(o.runs) |-> o.runs[i].text]) = Concat(c.ts)
    [] OTHER -> TRUE
----------------------------------------------------------------------------
Txt == <<97, 98>>
Wishes(S) == [1..ATTRS -> S]
W(fg, bg, on) == [fg |-> fg, bg |-> bg, on |-> on]
NoneOn == [i \in 1..ATTRS |-> "n"]
OneOn(i, v) == [NoneOn EXCEPT ![i] = v]
Small == {W(0, 0, NoneOn), W(2, 0, NoneOn), W(0, 4, NoneOn), W(16, 9, NoneOn)} \cup {W(0, 0, OneOn(i, "y")) : i \in 1..ATTRS} \cup {W(3, 0, [NoneOn EXCEPT ![i] = "y", ![j] = "y"]) : i \in 1..ATTRS, j \in {1, 4, 6}} \cup {W(0, 0, OneOn(i, "f")) : i \in {1, 3, 6}}
Starts == {Plain, [fg |-> <<1>>, bg |-> <<2>>, on |-> [i \in 1..ATTRS |-> TRUE]]} \cup {[Plain EXCEPT !.on[i] = TRUE] : i \in 1..ATTRS}
Texts == {<<>>, <<37, 100>>, <<97>>, <<37>>, <<97, 37, 115, 32, 37, 37>>}
Secs == {[k |-> k, v |-> v] : k \in {"name", "code", "message", "data"}, v \in {[k |-> "t", t |-> t] : t \in {<<>>, <<120>>, <<37, 100>>}} \cup {[k |-> "n", n |-> n] : n \in {0, 500}}}
SecOK(s) == s.v.k = "t" \/ s.k \in {"code", "data"}
SecLists == {<<>>} \cup {<<s>> : s \in {x \in Secs : SecOK(x)}} \cup {<<s, t>> : s \in {x \in Secs : SecOK(x)}, t \in {x \in Secs : SecOK(x)}}
SSpec == ((pc = "call" /\ out = <<>> /\
   \/ \E on \in Wishes(IF Deep THEN {"n", "y", "f"} ELSE {"n", "y"}), fg \in {0, 2}, bg \in {0, 5} : call = [f |-> "style", s |-> Plain, t |-> Txt, w |-> W(fg, bg, on)]
   \/ \E s \in Starts, w \in Small, t \in {<<>>, <<97>>} : call = [f |-> "style", s |-> s, t |-> t, w |-> w]
   \/ \E fg \in 0..16, bg \in 0..16 : call = [f |-> "style", s |-> Plain, t |-> Txt, w |-> W(fg, bg, NoneOn)]
   \/ \E s \in Starts, t \in {<<>>, Txt} : call = [f |-> "bare", s |-> s, t |-> t]
   \/ \E o \in Small, i \in Small, ts \in {<<<<97>>, <<98>>, <<99>>>>, <<<<>>, <<98>>, <<99>>>>, <<<<97>>, <<98>>, <<>>>>, <<<<97>>, <<>>, <<99>>>>} : call = [f |-> "nest", s |-> Plain, o |-> o, i |-> i, ts |-> ts]
   \/ \E n \in 0..16, bits \in {3, 8} : call = [f |-> "name", n |-> n, bits |-> bits, term |-> ""]
   \/ \E n \in 0..16, i \in 1..Len(Terminals) : call = [f |-> "name", n |-> n, bits |-> 24, term |-> Terminals[i]]
   \/ \E n \in (0 - 2)..300 : call = [f |-> "code", v |-> <<n>>]
   \/ \E a \in {0 - 1, 0, 7, 255, 256}, b \in {0 - 1, 0, 100, 255, 256}, d \in {0 - 1, 0, 200, 255, 256} : call = [f |-> "code", v |-> <<a, b, d>>]
   \/ \E k \in {0, 2, 4} : call = [f |-> "code", v |-> [i \in 1..k |-> 9]]
   \/ \E type \in {"error", "warn", "info"}, t \in Texts, ss \in {x \in SecLists : Len(x) < 2 \/ x[1].k # x[2].k}, d \in BOOLEAN, st \in {FALSE}, a \in BOOLEAN, b \in BOOLEAN :
        (Deep \/ (Len(ss) < 2) \/ (a /\ ~d)) /\ call = [f |-> "message", type |-> type, title |-> t, sections |-> ss, date |-> d, stack |-> st, showTitle |-> a, rules |-> b]
   \/ \E type \in {"error", "warn", "info"}, ts \in UNION {[1..k -> Texts] : k \in 1..2} : call = [f |-> "print", type |-> type, ts |-> ts]
   \* values that are no texts are printed as what they are
   \/ \E type \in {"error", "warn", "info"}, ts \in UNION {[1..k -> {<<97>>, <<48>>, <<55>>, <<102, 97, 108, 115, 101>>, <<78, 97, 78>>}] : k \in 1..3} : call = [f |-> "print", type |-> type, ts |-> ts]))
  /\ [][CNext]_<<pc, call, out>>
CasesDef == {}
=============================================================================
