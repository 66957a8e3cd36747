------------------------------- MODULE Written -------------------------------
(* Writing a file and reading it back: what the data becomes, where it goes, and what is left when it fails.  Texts   *)
(* are sequences of 16-bit units, contents sequences of bytes.                                                         *)
EXTENDS FuncBase
CONSTANTS Big
(* ---- encodings ---- *)
Hi(u) == u >= 55296 /\ u <= 56319
Lo(u) == u >= 56320 /\ u <= 57343
Cont(x) == 128 + (x % 64)
Enc(p) == IF p < 128 THEN <<p>> ELSE IF p < 2048 THEN <<192 + (p \div 64), Cont(p)>>
          ELSE IF p < 65536 THEN <<224 + (p \div 4096), Cont(p \div 64), Cont(p)>>
          ELSE <<240 + (p \div 262144), Cont(p \div 4096), Cont(p \div 64), Cont(p)>>
RECURSIVE Utf8(_)
Utf8(t) == IF t = <<>> THEN <<>>
           ELSE IF Len(t) > 1 /\ Hi(t[1]) /\ Lo(t[2]) THEN Enc((t[1] - 55296) * 1024 + (t[2] - 56320) + 65536) \o Utf8(Drop(t, 2))
           ELSE Enc(IF Hi(t[1]) \/ Lo(t[1]) THEN 65533 ELSE t[1]) \o Utf8(Tail(t))
Encode(t, e) == CASE e \in {"default", "utf8"} -> Utf8(t)
                  [] e = "utf16le" -> Concat([i \in 1..Len(t) |-> <<t[i] % 256, t[i] \div 256>>])
                  [] e = "latin1" -> [i \in 1..Len(t) |-> t[i] % 256]
(* ---- JSON: a value without a text of its own is left out of objects and null in lists ---- *)
Null == <<110, 117, 108, 108>>
HexD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
U4(u) == <<92, 117, HexD(u \div 4096), HexD((u \div 256) % 16), HexD((u \div 16) % 16), HexD(u % 16)>>
Esc(u) == CASE u = 34 -> <<92, 34>> [] u = 92 -> <<92, 92>> [] u = 8 -> <<92, 98>> [] u = 12 -> <<92, 102>> [] u = 10 -> <<92, 110>> [] u = 13 -> <<92, 114>> [] u = 9 -> <<92, 116>>
            [] u < 32 /\ u \notin {8, 9, 10, 12, 13} -> U4(u) [] OTHER -> <<u>>
RECURSIVE Inner(_)
Inner(t) == IF t = <<>> THEN <<>> ELSE IF Len(t) > 1 /\ Hi(t[1]) /\ Lo(t[2]) THEN <<t[1], t[2]>> \o Inner(Drop(t, 2))
            ELSE (IF Hi(t[1]) \/ Lo(t[1]) THEN U4(t[1]) ELSE Esc(t[1])) \o Inner(Tail(t))
Quote(t) == <<34>> \o Inner(t) \o <<34>>
Absent(v) == v.k \in {"undef", "fn", "sym"}
RECURSIVE Json(_), Joined(_), Bad(_)
Joined(q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<44>> \o Joined(Tail(q))
Json(v) == CASE v.k = "text" -> Quote(v.t) [] v.k = "lit" -> v.t [] v.k \in {"nan", "undef", "fn", "sym"} -> Null
             [] v.k = "date" -> Quote(v.t) [] v.k = "form" -> Json(v.of)
             [] v.k = "arr" -> <<91>> \o Joined([i \in 1..Len(v.a) |-> Json(v.a[i])]) \o <<93>>
             [] v.k = "obj" -> LET q == SelectSeq(v.o, LAMBDA p : ~Absent(p.v)) IN <<123>> \o Joined([i \in 1..Len(q) |-> Quote(q[i].n) \o <<58>> \o Json(q[i].v)]) \o <<125>>
Bad(v) == CASE v.k \in {"big", "circ", "throws"} -> TRUE
            [] v.k = "arr" -> \E i \in 1..Len(v.a) : Bad(v.a[i])
            [] v.k = "obj" -> \E i \in 1..Len(v.o) : Bad(v.o[i].v)
            [] OTHER -> FALSE
(* ---- writing ---- *)
Formatted(c) == c.fmt # "no" /\ c.data.k \in {"obj", "arr"}
Refused(c) == (c.data.k \notin {"text", "bytes", "arr", "obj"}) \/ (c.data.k = "obj" /\ ~Formatted(c))
Bytes(c) == CASE Formatted(c) -> Encode(Json(c.data), c.enc) [] c.data.k = "text" -> Encode(c.data.t, c.enc) [] c.data.k = "bytes" -> c.data.b
              [] OTHER -> Concat([i \in 1..Len(c.data.a) |-> Encode(c.data.a[i].t, c.enc)])    \* a list that is not to be formatted: its texts
Flag(c) == IF c.flag = "default" THEN "w+" ELSE c.flag
Unmasked == [default |-> 493, m600 |-> 384, m777 |-> 493, m666 |-> 420, m755 |-> 493]
Old(c) == [k |-> c.old.k, b |-> c.old.b, mode |-> IF c.old.k = "file" THEN 416 ELSE 0]
Reached(c) == c.have = c.depth \/ (c.mk # "no" /\ ~c.block)
Open(c) == Reached(c) /\ c.old.k # "dir" /\ (Flag(c) = "wx" => c.old.k = "none") /\ (Flag(c) = "ax" => c.old.k = "none") /\ (Flag(c) = "r+" => c.old.k = "file")
Content(c) == CASE Flag(c) \in {"a", "ax"} -> c.old.b \o Bytes(c) [] Flag(c) = "r+" -> Bytes(c) \o Drop(c.old.b, Len(Bytes(c))) [] OTHER -> Bytes(c)
Write(c) == IF Formatted(c) /\ Bad(c.data) THEN [ok |-> FALSE, have |-> c.have, file |-> Old(c)]
            ELSE IF Refused(c) \/ ~Open(c) THEN [ok |-> FALSE, have |-> 0 - 1, file |-> Old(c)]
            ELSE [ok |-> TRUE, have |-> c.depth, file |-> [k |-> "file", b |-> Content(c), mode |-> IF c.old.k = "file" THEN 416 ELSE Unmasked[c.mode]]]
(* folders: made with all their parents, or, when that is switched off, only below one that is there *)
Mkdir(c) == LET made == c.depth - c.have IN
    IF c.block \/ (c.rec = "no" /\ made # 1) THEN [ok |-> FALSE, have |-> c.have, modes |-> <<>>]
    ELSE [ok |-> TRUE, have |-> c.depth, modes |-> [i \in 1..made |-> Unmasked[c.mode]]]
Read(c) == IF c.old.k # "file" \/ (c.locked /\ c.flag # "r") THEN [ok |-> FALSE, t |-> <<>>, same |-> TRUE] ELSE [ok |-> TRUE, t |-> c.t, same |-> TRUE]
EvalDef(c) == CASE c.f = "write" -> Write(c) [] c.f = "mkdir" -> Mkdir(c) [] c.f = "read" -> Read(c)
(* ---- requests ---- *)
Tx(t) == [k |-> "text", t |-> t]
By(b) == [k |-> "bytes", b |-> b]
Ob(o) == [k |-> "obj", o |-> o]
Ar(a) == [k |-> "arr", a |-> a]
K(x) == [k |-> x]
Lit(t) == [k |-> "lit", t |-> t]
F(n, v) == [n |-> n, v |-> v]
A == <<97>>
ISO == <<49, 57, 55, 48, 45, 48, 49, 45, 48, 50, 84, 48, 48, 58, 48, 48, 58, 48, 48, 46, 48, 48, 48, 90>>
Leaves == {Tx(A), Tx(<<>>), Tx(<<34, 92, 10, 1, 233, 55357, 56832>>), Tx(<<55357>>), Tx(<<8232, 127, 9, 31>>), Lit(<<55>>), Lit(<<45, 51>>), Lit(<<116, 114, 117, 101>>), Lit(Null), K("nan"), K("undef"), K("fn"), K("sym"), K("big"), K("circ"), K("throws"), [k |-> "date", t |-> ISO], [k |-> "form", of |-> Tx(<<102>>)]}
Nested == {Ob(<<>>), Ar(<<>>), Ar(<<Tx(A), K("undef")>>), Ob(<<F(A, K("undef"))>>), Ob(<<F(<<34>>, Ar(<<Lit(<<55>>)>>))>>), Ar(<<Ob(<<F(A, K("big"))>>)>>), Ar(<<Ar(<<Ar(<<K("circ")>>)>>)>>)}
Few == Leaves \cup Nested
Shapes == {Ob(<<>>), Ar(<<>>)} \cup {Ob(<<F(A, v)>>) : v \in Few} \cup {Ar(<<v>>) : v \in Few} \cup {Ob(<<F(<<98>>, v), F(A, w)>>) : v, w \in IF Big THEN Few ELSE Leaves} \cup {Ar(<<v, w>>) : v, w \in IF Big THEN Few ELSE Leaves}
Texts == {Tx(t) : t \in {<<>>, A, <<123, 125>>, <<34, 97, 34>>, <<233, 255>>, <<65279, 97>>, <<20013, 10, 55357, 56832>>, <<97, 55357>>, <<0, 97>>}}
Lists == {Ar(<<>>), Ar(<<Tx(A)>>), Ar(<<Tx(A), Tx(<<>>), Tx(<<98, 20013>>)>>)}
Datas == Texts \cup {By(<<>>), By(<<255, 254, 0>>), By(<<97>>)} \cup {Lit(<<55>>), K("undef"), Lit(Null), K("fn")}
Narrow(d) == d.k # "text" \/ \A i \in 1..Len(d.t) : d.t[i] < 256
OldOf == {[k |-> "none", b |-> <<>>], [k |-> "file", b |-> <<>>], [k |-> "file", b |-> <<111, 108, 100, 195, 169, 33>>], [k |-> "dir", b |-> <<>>]}
NoOld == [k |-> "none", b |-> <<>>]
Places == {p \in [depth : 0..2, have : 0..2, block : BOOLEAN, old : OldOf] : p.have <= p.depth /\ (p.block => p.have < p.depth) /\ (p.have < p.depth => p.old = NoOld)}
Dir1 == [depth |-> 1, have |-> 1, block |-> FALSE, old |-> NoOld]
Req(p, d, e, g, m, k, x) == [f |-> "write", depth |-> p.depth, have |-> p.have, block |-> p.block, old |-> p.old, data |-> d, enc |-> e, flag |-> g, mode |-> m, mk |-> k, fmt |-> x]
Encs == {"default", "utf8", "utf16le", "latin1"}
Flags == {"default", "w", "w+", "a", "ax", "wx", "r+"}
Modes == {"default", "m600", "m777", "m666"}
Switch == {"default", "yes", "no"}
Readable == {<<>>, A, <<65279, 97, 13, 10>>, <<20013, 55357, 56832>>, <<233, 0, 255>>, <<97, 10>>}
CasesDef ==
    {Req(p, d, "default", g, "default", k, "default") : p \in Places, d \in {Tx(<<97, 233>>), Tx(<<>>), Ob(<<F(A, Lit(<<55>>))>>), Ob(<<>>), Ar(<<>>), Ar(<<K("big")>>), Lit(<<55>>), By(<<255, 0>>)}, g \in Flags, k \in Switch}
    \cup {Req(p, d, "default", "default", "default", "default", x) : p \in {Dir1, [Dir1 EXCEPT !.depth = 2], [Dir1 EXCEPT !.old = [k |-> "file", b |-> <<111, 108>>]]}, d \in Shapes, x \in {"default", "yes"}}
    \cup {Req(Dir1, d, e, g, "default", "default", x) : d \in {d \in Datas : TRUE} \cup Lists \cup {Ob(<<F(A, Tx(<<233>>))>>)}, e \in Encs \ {"latin1"}, g \in {"default", "a"}, x \in Switch}
    \cup {Req([Dir1 EXCEPT !.old = [k |-> "file", b |-> <<111, 195, 169>>]], d, e, g, "default", "default", "default") : d \in {d \in Datas : Narrow(d)} \cup {Ob(<<F(A, Tx(<<233>>))>>)}, e \in Encs, g \in Flags}
    \cup {Req(p, Tx(A), "default", g, m, "default", "default") : p \in Places, g \in {"default", "a", "wx"}, m \in Modes}
    \cup {[f |-> "mkdir", depth |-> d, have |-> h, block |-> b, rec |-> r, mode |-> m] : d \in 1..3, h \in 0..3, b \in BOOLEAN, r \in Switch, m \in {"default", "m777", "m755"}}
    \cup {[f |-> "read", old |-> o, t |-> t, enc |-> e, flag |-> g, locked |-> k] : o \in {[k |-> "file"], [k |-> "none"], [k |-> "dir"]}, t \in Readable, e \in Encs, g \in {"default", "r", "r+"}, k \in BOOLEAN}
Wanted(c) == (c.f = "mkdir" => c.have <= c.depth /\ (c.block => c.have < c.depth)) /\ (c.f = "read" /\ c.enc = "latin1" => \A i \in 1..Len(c.t) : c.t[i] < 256)
WSpec == pc = "call" /\ out = <<>> /\ call \in {c \in CasesDef : Wanted(c)} /\ [][CNext]_<<pc, call, out>>
(* laws, stated without the writing function *)
LawDef(c, o) ==
    /\ (c.f = "write" /\ ~o.ok => o.file = Old(c))
    /\ (c.f = "write" /\ o.ok => /\ \A i \in 1..Len(o.file.b) : o.file.b[i] \in 0..255
                                 /\ (Flag(c) = "a" => Take(o.file.b, Len(c.old.b)) = c.old.b)
                                 /\ (Flag(c) = "r+" => Len(o.file.b) >= Len(c.old.b))
                                 /\ (c.old.k # "none" => Flag(c) \notin {"wx", "ax"}))
    /\ (c.f = "mkdir" => o.have >= c.have)
=============================================================================
