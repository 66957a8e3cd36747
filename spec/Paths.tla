-------------------------------- MODULE Paths --------------------------------
(* Paths as code points: what a valid Windows path is, the one kind of path whose separators must stay, and the *)
(* shortest way of writing the place a path names, with the home marker at its beginning expanded.              *)
EXTENDS FuncBase
CONSTANTS MaxTok, MaxNorm
----------------------------------------------------------------------------
BS == 92
SL == 47
DOT == 46
Alpha(c) == c \in 65..90 \/ c \in 97..122
Starts(t, w) == Len(t) >= Len(w) /\ \A i \in 1..Len(w) : t[i] = w[i]
Ends(t, w) == Len(t) >= Len(w) /\ \A i \in 1..Len(w) : t[Len(t) - Len(w) + i] = w[i]
RECURSIVE SplitAt(_, _)
SplitAt(t, S) == IF \A i \in 1..Len(t) : t[i] \notin S THEN <<t>> ELSE LET i == CHOOSE i \in 1..Len(t) : t[i] \in S /\ \A j \in 1..(i - 1) : t[j] \notin S IN <<SubSeq(t, 1, i - 1)>> \o SplitAt(Drop(t, i), S)
Bad == {60, 62, 58, 34, 47, 92, 124, 63, 42, 10, 13}
Digit19 == 49..57
Reserved(n) == n \in {<<67, 79, 78>>, <<80, 82, 78>>, <<65, 85, 88>>, <<78, 85, 76>>} \/ (Len(n) = 4 /\ SubSeq(n, 1, 3) \in {<<67, 79, 77>>, <<76, 80, 84>>} /\ n[4] \in Digit19)
Name(n, size) == n = <<DOT, DOT>> \/ (n # <<>> /\ Len(n) <= size - 12 /\ ~Reserved(n) /\ (\A i \in 1..Len(n) : n[i] \notin Bad) /\ Last(n) \notin {DOT, 32})
Prefix == <<BS, BS, 63, BS>>
\* an optional prefix and a drive, or one or two dots; then names behind one separator each, possibly one more at the end
Root(t) == LET e == Starts(t, Prefix) u == IF e THEN Drop(t, 4) ELSE t IN
           IF Len(u) >= 2 /\ Alpha(u[1]) /\ u[2] = 58 THEN <<Len(t) - Len(u) + 2>>
           ELSE IF e THEN <<>> ELSE IF Starts(t, <<DOT, DOT>>) THEN <<2>> ELSE IF Starts(t, <<DOT>>) THEN <<1>> ELSE <<>>
ValidWin(t, size) ==
  /\ Len(t) <= size /\ Root(t) # <<>>
  /\ LET rest == Drop(t, Root(t)[1]) names == SplitAt(rest, {BS}) IN
     /\ Len(names) >= 2 /\ names[1] = <<>>                                         \* a separator follows the root
     /\ LET ns == IF Len(names) > 1 /\ Last(names) = <<>> THEN Tail(Front(names)) ELSE Tail(names) IN \A i \in 1..Len(ns) : Name(ns[i], size)
Size(extend) == IF extend THEN 32767 ELSE 260
Extended(t) == ValidWin(t, 32767) /\ Starts(t, Prefix)
Unify(t) == IF Extended(t) THEN t ELSE [i \in 1..Len(t) |-> IF t[i] = BS THEN SL ELSE t[i]]
\* long paths, by the lengths of their names
Long(c) == LET total == (CASE c.pre = "drive" -> 2 [] c.pre = "ext" -> 6 [] c.pre = "dot" -> 1) + FoldL(LAMBDA a, n : a + n + 1, 0, c.names) + (IF c.slash THEN 1 ELSE 0) IN
           total <= Size(c.extend) /\ (\A i \in 1..Len(c.names) : c.names[i] >= 1 /\ c.names[i] <= Size(c.extend) - 12) /\ (c.names # <<>> \/ c.slash)
----------------------------------------------------------------------------
Expand(t, home) == IF t # <<>> /\ t[1] = 126 /\ (Len(t) = 1 \/ t[2] \in {SL, BS}) THEN home \o Tail(t) ELSE t
Seps(sys) == IF sys = "win" THEN {SL, BS} ELSE {SL}
Sep(sys, c) == c \in Seps(sys)
Drive(sys, t) == IF sys = "win" /\ Len(t) >= 2 /\ Alpha(t[1]) /\ t[2] = 58 THEN 2 ELSE 0
Out(sys) == IF sys = "win" THEN BS ELSE SL
\* the names that remain of a path: "." and empty ones say nothing, ".." takes back the name before it
Kept(ns, rooted) == FoldL(LAMBDA a, n : IF n \in {<<>>, <<DOT>>} THEN a ELSE IF n # <<DOT, DOT>> THEN Append(a, n) ELSE IF a # <<>> /\ Last(a) # <<DOT, DOT>> THEN Front(a) ELSE IF rooted THEN a ELSE Append(a, n), <<>>, ns)
RECURSIVE Join(_, _)
Join(q, s) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<s>> \o Join(Tail(q), s)
Normal(t, sys) ==
  LET d == Drive(sys, t) u == Drop(t, d)
      rooted == u # <<>> /\ Sep(sys, u[1]) trail == u # <<>> /\ Sep(sys, Last(u))
      q == Kept(SplitAt(u, Seps(sys)), rooted)
      body == Join(q, Out(sys)) IN
  Take(t, d) \o (IF rooted THEN <<Out(sys)>> ELSE <<>>) \o (IF q # <<>> THEN body \o (IF trail THEN <<Out(sys)>> ELSE <<>>) ELSE IF rooted THEN <<>> ELSE IF trail THEN <<DOT, Out(sys)>> ELSE <<DOT>>)
\* the place a path names, from a directory far below the root
Place(t, sys) == LET d == Drive(sys, t) u == Drop(t, d) rooted == u # <<>> /\ Sep(sys, u[1]) IN
                 <<Take(t, d), rooted, Kept((IF rooted THEN <<>> ELSE <<<<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<7>>>>) \o SplitAt(u, Seps(sys)), TRUE)>>
EvalDef(c) == CASE c.f = "win" -> ValidWin(c.t, Size(c.extend)) [] c.f = "ext" -> Extended(c.t) [] c.f = "unify" -> Unify(c.t) [] c.f = "long" -> Long(c) [] c.f = "normal" -> Normal(Expand(c.t, c.home), c.sys)
LawDef(c, o) ==
  /\ c.f = "unify" => Unify(o) = o /\ Len(o) = Len(c.t)
  /\ c.f = "normal" => /\ Place(o, c.sys) = Place(Expand(c.t, c.home), c.sys)
                       /\ Normal(o, c.sys) = o
                       /\ \A i \in 1..(Len(o) - 1) : ~(Sep(c.sys, o[i]) /\ Sep(c.sys, o[i + 1]))
----------------------------------------------------------------------------
Tok == {<<BS>>, <<SL>>, <<DOT>>, <<97>>, <<99, 58>>, Prefix, <<67, 79, 78>>, <<67, 79, 77, 49>>, <<48>>, <<32>>, <<63>>}
Texts(S, n) == {Concat(q) : q \in SeqsUpTo(S, n)}
NTok == {<<SL>>, <<DOT>>, <<97>>, <<126>>, <<BS>>, <<98, 46>>}
Homes == {<<47, 104, 47, 117>>, <<47>>, <<47, 104, 36, 38, 47, 47, 120, 47>>}
WHome == <<67, 58, 92, 85, 92, 117>>
\* (paths of more than one computer, and a drive without a separator behind it, are not asked about)
WinOK(t) == LET d == Drive("win", t) IN (d = 2 => Len(t) >= 3 /\ Sep("win", t[3])) /\ ~(Len(t) >= 2 /\ Sep("win", t[1]) /\ Sep("win", t[2])) /\ \A i \in 1..Len(t) : (t[i] = 58 => i = 2 /\ d = 2)
Lens == {1, 100, 240, 246, 247, 248, 249, 253, 254, 255, 256, 257, 258, 259, 260, 261, 300, 32000, 32748, 32754, 32755, 32756, 32757, 32758, 32759, 32760, 32761, 32762, 32763, 32764, 32765, 32766}
PSpec == ((pc = "call" /\ out = <<>> /\
   \/ \E t \in Texts(Tok, MaxTok), e \in BOOLEAN : call = [f |-> "win", t |-> t, extend |-> e]
   \/ \E t \in Texts(Tok, MaxTok), f \in {"ext", "unify"} : call = [f |-> f, t |-> t]
   \/ \E a \in {<<99, 58, BS>>, Prefix \o <<67, 58, BS>>, <<DOT, BS>>}, t \in Texts({<<BS>>, <<DOT>>, <<97>>, <<67, 79, 78>>, <<32>>}, MaxTok), e \in BOOLEAN : call = [f |-> "win", t |-> a \o t, extend |-> e]
   \/ \E p \in {"drive", "ext", "dot"}, a \in Lens, n \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12}, s \in BOOLEAN, e \in BOOLEAN : call = [f |-> "long", pre |-> p, names |-> IF n = 0 THEN <<a>> ELSE IF n = 1 THEN <<2, a>> ELSE <<a, n>>, slash |-> s, extend |-> e]
   \/ \E t \in Texts(NTok, MaxNorm), h \in Homes : (h = <<47, 104, 47, 117>> \/ (t # <<>> /\ t[1] = 126)) /\ call = [f |-> "normal", t |-> t, home |-> h, sys |-> "posix"]
   \/ \E t \in Texts(NTok, MaxNorm), d \in {<<>>, <<67, 58>>} : WinOK(d \o t) /\ call = [f |-> "normal", t |-> d \o t, home |-> WHome, sys |-> "win"])
  /\ [][CNext]_<<pc, call, out>>)
CasesDef == {}
=============================================================================
