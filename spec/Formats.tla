------------------------------ MODULE Formats -------------------------------
(* The formats of addresses, mail addresses, links and phone numbers, as grammars over tokens, and the scripts     *)
(* of texts as ranges of code points.                                                                              *)
EXTENDS FuncBase
CONSTANTS MaxIp, MaxMail, MaxUri
\* ---- addresses (version 6): tokens "h" a group of one to four digits, ":" , "4" four decimal numbers; bad: anything else
\* split at the colons
RECURSIVE Fields(_, _)
Fields(t, cur) == IF t = <<>> THEN <<cur>> ELSE IF t[1] = ":" THEN <<cur>> \o Fields(Tail(t), <<>>) ELSE Fields(Tail(t), Append(cur, t[1]))
Group(x) == x = <<"h">>
Count(q) == FoldL(LAMBDA a, x : a + (IF x = <<"4">> THEN 2 ELSE 1), 0, q)
\* a run of groups, the last of which may be in decimal notation
Run(q) == \A i \in 1..Len(q) : Group(q[i]) \/ (i = Len(q) /\ q[i] = <<"4">>)
Hex(q) == \A i \in 1..Len(q) : Group(q[i])
Double(t) == {i \in 1..(Len(t) - 1) : t[i] = ":" /\ t[i + 1] = ":"}
FieldsOf(t) == IF t = <<>> THEN <<>> ELSE Fields(t, <<>>)
V6(t) == IF Double(t) = {} THEN LET q == FieldsOf(t) IN Run(q) /\ Count(q) = 8
         ELSE \E i \in Double(t) : LET a == FieldsOf(Take(t, i - 1)) b == FieldsOf(Drop(t, i + 1)) IN Double(t) = {i} /\ Hex(a) /\ Run(b) /\ Count(a) + Count(b) <= 7
\* c.form: "plain", "brackets", "port" (brackets and a port), "half" (a bracket missing), "open" (port without brackets)
Ip(c) == CASE c.form = "plain" -> V6(c.t) [] c.form = "brackets" -> V6(c.t) [] c.form = "port" -> V6(c.t) /\ c.port <= 65535 [] OTHER -> FALSE
\* ---- mail: local part: a text in quotes, or atoms between dots; then a host name, or an address in brackets
AtomCh == {"a", "9", "+", "-", "_", "#", "/"}
RECURSIVE Split(_, _, _)
Split(t, x, cur) == IF t = <<>> THEN <<cur>> ELSE IF t[1] = x THEN <<cur>> \o Split(Tail(t), x, <<>>) ELSE Split(Tail(t), x, Append(cur, t[1]))
Local(t) == \/ Len(t) >= 3 /\ t[1] = "Q" /\ t[Len(t)] = "Q"
            \/ \A i \in 1..Len(Split(t, ".", <<>>)) : LET p == Split(t, ".", <<>>)[i] IN p # <<>> /\ \A j \in 1..Len(p) : p[j] \in AtomCh
Label(p) == p # <<>> /\ p[1] \in {"a", "9"} /\ \A j \in 1..Len(p) : p[j] \in {"a", "9", "-", "_"}
Top(p) == Len(p) >= 2 /\ p[1] = "a" /\ p[Len(p)] = "a" /\ \A j \in 1..Len(p) : p[j] \in {"a", "9", "-", "_"}
Host(t) == LET q == Split(t, ".", <<>>) IN Top(q[Len(q)]) /\ \A i \in 1..(Len(q) - 1) : Label(q[i])
\* the at sign that parts the two is the last one
Mail(t) == LET s == {i \in 1..Len(t) : t[i] = "@"} IN s # {} /\ LET m == CHOOSE i \in s : \A j \in s : j <= i IN Local(Take(t, m - 1)) /\ (Drop(t, m) = <<"I">> \/ Host(Drop(t, m)))
\* lengths: c.local, and the lengths of the labels of the host name
Long(c) == c.local <= 64 /\ FoldL(LAMBDA a, x : a + x, Len(c.labels) - 1, c.labels) <= 255 /\ \A i \in 1..Len(c.labels) : c.labels[i] <= 64
\* ---- links: scheme://, at least one permitted character, and a last one that is not punctuation; escapes that can be read
\* tokens: "a" plain, "." plain but not at the end, "/" , " " (written as three), "q" a quote (three), "%41" (read as one), "%20", "%C3%A9", bad: "%", "%z", "%C3", "\n", "c" a character of another script
EndOK == {"a", "/", "%41", "%20", "%C3%A9"}
Mid == EndOK \cup {".", " ", "q"}
Size(x) == CASE x \in {" ", "q", "%20"} -> 3 [] x = "%C3%A9" -> 6 [] OTHER -> 1
Chars(x) == CASE x \in {"%41", "%20"} -> 3 [] x = "%C3%A9" -> 6 [] OTHER -> 1
Uri(c) == /\ c.scheme \in {"http", "https", "ftp", "file"}
          /\ FoldL(LAMBDA a, x : a + Chars(x), c.fill.n, c.t) >= 2 /\ \A i \in 1..Len(c.t) : c.t[i] \in Mid
          /\ c.t[Len(c.t)] \in EndOK
          /\ FoldL(LAMBDA a, x : a + Size(x), Len(c.fill.x) * c.fill.n * (IF c.fill.n = 0 THEN 0 ELSE Size(c.fill.x[1])) + (CASE c.scheme = "https" -> 8 [] c.scheme = "ftp" -> 6 [] OTHER -> 7), c.t) <= 2000
\* ---- phone numbers: eleven digits behind an optional country code; c.n the first three, c.more how many follow
Strict == (130..139) \cup {145, 146, 147, 149} \cup ((150..153) \cup (155..159)) \cup (165..167) \cup (170..178) \cup (180..189) \cup ({190, 191, 192} \cup (195..199))
Phone(c) == c.pre \in {"", "+86", "0086"} /\ c.more = 8 /\ CASE c.level = 0 -> c.n \in 100..199 [] c.level = 1 -> c.n \in 130..199 [] OTHER -> c.n \in Strict
\* ---- scripts
Within(x, R) == \E i \in 1..Len(R) : x >= R[i][1] /\ x <= R[i][2]
Han  == <<<<13312, 19893>>, <<19968, 40943>>, <<64014, 64015>>, <<64017, 64017>>, <<64019, 64020>>, <<64031, 64031>>, <<64033, 64033>>, <<64035, 64036>>, <<64039, 64041>>, <<131072, 173782>>, <<173824, 177972>>, <<177984, 178205>>, <<178208, 183969>>, <<183984, 191456>>>>
Kana == <<<<12353, 12438>>, <<12441, 12447>>, <<12448, 12543>>, <<12784, 12799>>, <<13008, 13054>>, <<13056, 13143>>, <<65382, 65391>>, <<65393, 65437>>>>
Japanese == <<<<11904, 11929>>, <<11931, 12019>>, <<12032, 12245>>, <<12293, 12293>>, <<12295, 12295>>, <<12321, 12329>>, <<12344, 12347>>, <<13312, 19893>>, <<19968, 40943>>, <<63744, 64109>>, <<64112, 64217>>, <<12353, 12438>>, <<12445, 12447>>, <<12449, 12538>>, <<12541, 12543>>, <<12784, 12799>>, <<13008, 13054>>, <<13056, 13143>>, <<65382, 65391>>, <<65393, 65437>>>>
Punct == <<<<8192, 8303>>, <<11776, 11903>>, <<12288, 12351>>, <<65280, 65519>>, <<65072, 65103>>, <<65040, 65055>>>>
Has(t, R) == \E i \in 1..Len(t) : Within(t[i], R)
EvalDef(c) == CASE c.f = "ip" -> Ip(c) [] c.f = "mail" -> Mail(c.t) [] c.f = "mailLong" -> Long(c) [] c.f = "uri" -> Uri(c) [] c.f = "phone" -> Phone(c)
                [] c.f = "script" -> [chinese |-> Has(c.t, Han), only |-> Has(c.t, Han) /\ ~Has(c.t, Kana), japanese |-> Has(c.t, Japanese), punctuation |-> Has(c.t, Punct)]
LawDef(c, o) == /\ (c.f = "phone" /\ o) => (c.level > 0 => Phone([c EXCEPT !.level = c.level - 1]))
                /\ (c.f = "ip" /\ o) => c.t # <<>> /\ Len(c.t) <= 15
                /\ c.f = "script" => (o.only => o.chinese)
----------------------------------------------------------------------------
Ends(R) == UNION {{R[i][1] - 1, R[i][1], R[i][2], R[i][2] + 1} : i \in 1..Len(R)}
Points == {x \in Ends(Han) \cup Ends(Kana) \cup Ends(Japanese) \cup Ends(Punct) \cup {97, 32, 44, 44032, 128512, 65535, 65536, 0, 20013} : x \notin 55296..57343}
Toks(n) == SeqsUpTo({"a", ".", "/", " ", "q", "%41", "%20", "%C3%A9", "%", "%z", "%C3", "nl", "c"}, n)
NoFill == [x |-> <<"a">>, n |-> 0]
FSpec == ((pc = "call" /\ out = <<>> /\
  \/ \E t \in SeqsUpTo({"h", ":", "4"}, MaxIp), m \in {"plain", "port"} : (m = "port" => Len(t) <= 8) /\ call = [f |-> "ip", t |-> t, form |-> m, port |-> 80]
  \/ \E a, b \in 0..9, d \in BOOLEAN, m \in {"plain", "brackets", "port", "half", "open"}, p \in {0, 9, 10, 99, 443, 9999, 10000, 59999, 60000, 64999, 65499, 65529, 65530, 65535, 65536, 65540, 65600, 66000, 70000, 100000} :
       (m # "port" => p = 80 \/ p = 0) /\ (m = "port" => a \in {1, 8} /\ b \in {0, 1}) /\
       LET H(n) == Concat([i \in 1..n |-> IF i = n THEN <<"h">> ELSE <<"h", ":">>])
       IN call = [f |-> "ip", t |-> IF b = 0 /\ ~d THEN H(a) ELSE H(a) \o <<":", ":">> \o (IF d THEN H(b) \o (IF b = 0 THEN <<"4">> ELSE <<":", "4">>) ELSE H(b)), form |-> m, port |-> p]
  \/ \E a \in 1..9 : call = [f |-> "ip", t |-> Concat([i \in 1..a |-> <<"h", ":">>]) \o <<"4">>, form |-> "plain", port |-> 0]
  \/ \E t \in SeqsUpTo({"h", ":", "4", "g", "hh", "."}, 4) : call = [f |-> "ip", t |-> t, form |-> "plain", port |-> 0]
  \/ \E t \in SeqsUpTo({"a", "9", ".", "-", "@", "Q", " ", "_"}, MaxMail) : call = [f |-> "mail", t |-> t]
  \/ MaxMail > 2 /\ \E l \in SeqsUpTo({"a", ".", "Q", "@", " ", "#"}, MaxMail - 2), d \in SeqsUpTo({"a", "9", ".", "-", "I", "@"}, 3) : call = [f |-> "mail", t |-> l \o <<"@">> \o d]
  \/ \E n \in {1, 2, 63, 64, 65}, q \in BOOLEAN, L \in SeqsUpTo({2, 62, 63, 64, 65, 57, 58, 59, 60, 61}, 4) : L # <<>> /\ (Len(L) = 4 => L[1] = 64 /\ L[2] \in {62, 64}) /\ (q => n > 4) /\ call = [f |-> "mailLong", local |-> n, quoted |-> q, labels |-> L]
  \/ \E s \in {"http", "https", "ftp", "file", "ws", "HTTP", ""}, t \in Toks(MaxUri) : (s \in {"http", "file"} \/ Len(t) <= 2) /\ call = [f |-> "uri", scheme |-> s, t |-> t, fill |-> NoFill]
  \/ \E s \in {"http", "https"}, x \in {"a", " ", "%41", "%20"}, n \in {100, 662, 663, 664, 665, 1989, 1990, 1991, 1992, 1993, 1994, 2100}, t \in {<<"a">>, <<"a", "a">>, <<".", "a">>, <<" ", "a">>} : (x \in {" ", "%20"}) = (n < 1000) /\ call = [f |-> "uri", scheme |-> s, t |-> t, fill |-> [x |-> <<x>>, n |-> n]]
  \/ \E p \in {"", "+86", "0086", "86", "+0086", " ", "-"}, n \in 90..210, m \in {7, 8, 9}, v \in 0..2 : (m # 8 => n \in 130..140) /\ call = [f |-> "phone", pre |-> p, n |-> n, more |-> m, level |-> v]
  \/ \E x \in Points, a \in {<<>>, <<97>>, <<20013>>, <<12354>>, <<128512>>}, b \in {<<>>, <<98, 44032>>} : call = [f |-> "script", t |-> a \o <<x>> \o b])
  /\ [][CNext]_<<pc, call, out>>)
CasesDef == {}
=============================================================================
