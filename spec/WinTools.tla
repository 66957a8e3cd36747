----------------------------- MODULE WinTools ------------------------------
(* The helpers for Windows and the questions about the platform.  The task list is a table of fixed columns:  *)
(* it is laid out here as the system command prints it, and read back by its columns.                         *)
EXTENDS FuncBase
CONSTANTS MaxName, MaxList
BL == 32  CR == 13  NL == 10
Pad(n) == [i \in 1..n |-> BL]
Right(t, n) == Pad(n - Len(t)) \o t
Left(t, n)  == t \o Pad(n - Len(t))
RECURSIVE Thousands(_)
Thousands(t) == IF Len(t) <= 3 THEN t ELSE Thousands(Take(t, Len(t) - 3)) \o <<44>> \o Drop(t, Len(t) - 3)
Digits(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] \in 48..57
Line(k) == Left(k.name, 25) \o <<BL>> \o Right(k.pid, 8) \o <<BL>> \o Left(k.session, 16) \o <<BL>> \o Right(k.sid, 11) \o <<BL>>
           \o Right(IF Digits(k.mem) THEN Thousands(k.mem) \o <<BL, 75>> ELSE k.mem, 12)
Layout(q) == <<CR, NL>> \o Concat([i \in 1..Len(q) |-> Line(q[i]) \o <<CR, NL>>])
\* reading by columns
RECURSIVE Trim(_)
Trim(t) == IF t = <<>> THEN t ELSE IF t[1] \in {BL, CR} THEN Trim(Tail(t)) ELSE IF t[Len(t)] \in {BL, CR} THEN Trim(Take(t, Len(t) - 1)) ELSE t
RECURSIVE LinesOf(_, _)
LinesOf(t, cur) == IF t = <<>> THEN <<cur>> ELSE IF t[1] = NL THEN <<cur>> \o LinesOf(Tail(t), <<>>) ELSE LinesOf(Tail(t), Append(cur, t[1]))
Col(l, a, n) == Trim(SubSeq(l, a, a + n - 1))
Mem(t) == SelectSeq(IF t[Len(t)] = 75 THEN Take(t, Len(t) - 2) ELSE t, LAMBDA x : x # 44)
IsTask(l) == Len(l) >= 76 /\ Digits(Col(l, 27, 8)) /\ Digits(Col(l, 53, 11))
Task(l) == [name |-> Col(l, 1, 25), pid |-> Col(l, 27, 8), session |-> Col(l, 36, 16), sid |-> Col(l, 53, 11), mem |-> Mem(Col(l, 65, 12))]
Tasks(t) == LET q == SelectSeq(LinesOf(t, <<>>), IsTask) IN [i \in 1..Len(q) |-> Task(q[i])]
\* the system language: the line behind the heading and its underline; its second word
RECURSIVE Words(_, _)
Words(t, cur) == IF t = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) ELSE IF t[1] \in {BL, CR} THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Words(Tail(t), <<>>) ELSE Words(Tail(t), Append(cur, t[1]))
Language(t) == LET q == LinesOf(t, <<>>) IN IF Len(q) < 4 THEN <<"none">> ELSE LET w == Words(q[4], <<>>) IN IF Len(w) < 2 THEN <<"none">> ELSE <<"found", w[2]>>
\* shortcuts: what is asked for, or else the default, each in its place
DOT == 46  BS == 92
Base(p) == LET s == {i \in 1..Len(p) : p[i] \in {BS, 47}} IN IF s = {} THEN p ELSE Drop(p, CHOOSE i \in s : \A j \in s : j <= i)
Stem(b) == LET s == {i \in 2..Len(b) : b[i] = DOT} IN IF s = {} THEN b ELSE Take(b, (CHOOSE i \in s : \A j \in s : j <= i) - 1)
Or(o, k, d) == IF k \in DOMAIN o THEN o[k] ELSE d
Shortcut(c) ==
  LET o == c.opts  dir == Or(o, "dirPath", <<>>)  force == Or(o, "force", FALSE) IN
  IF ~c.windows THEN <<"refused">>
  ELSE IF ~force /\ (~c.exists \/ (dir # <<>> /\ c.dir # "directory")) THEN <<"refused">>
  ELSE <<"made", <<c.path, dir, Or(o, "name", Stem(Base(c.path))), Or(o, "args", <<>>), Or(o, "description", <<>>), Or(o, "cwd", <<>>), Or(o, "icon", c.path), Or(o, "windowMode", 4), Or(o, "hotkey", <<>>)>>>>
\* opening
Shell(c) == IF c.platform = "win32" \/ (c.platform = "linux" /\ c.release = "wsl") THEN "win" ELSE IF c.platform = "darwin" THEN "mac" ELSE "other"
Open(c) == [program |-> IF c.command # "" THEN c.command ELSE CASE Shell(c) = "win" -> "start" [] Shell(c) = "mac" -> "open" [] OTHER -> "xdg-open",
            shell |-> IF (c.command = "" /\ Shell(c) = "win") \/ c.platform = "win32" THEN "cmd" ELSE "sh", args |-> c.args]
EvalDef(c) == CASE c.f = "list" -> Tasks(c.text)
                [] c.f = "find" -> SelectSeq(Tasks(c.text), LAMBDA k : k.name = c.name)
                [] c.f = "kill" -> c.status = 0 /\ ~c.complains
                [] c.f = "language" -> IF c.windows THEN Language(c.text) ELSE <<"none">>
                [] c.f = "shortcut" -> Shortcut(c)
                [] c.f = "platform" -> [windows |-> c.type = "Windows_NT", mac |-> c.type = "Darwin", linux |-> c.type = "Linux", wsl |-> c.type = "Linux" /\ c.release \in {"4.4.0-19041-Microsoft", "5.15.90.1-microsoft-standard-WSL2"},
                                        cmd |-> IF c.type = "Windows_NT" THEN "npm.cmd" ELSE "npm"]
                [] c.f = "open" -> Open(c)
LawDef(c, o) == /\ c.f = "list" => o = c.tasks
                /\ c.f = "find" => o = SelectSeq(c.tasks, LAMBDA k : k.name = c.name)
----------------------------------------------------------------------------
NameCh == {97, 57, 32, 75, 28450}
Names == {Concat([i \in 1..Len(q) |-> <<q[i]>>]) : q \in {q \in SeqsUpTo(NameCh, MaxName) : q # <<>> /\ q[1] # 32 /\ q[Len(q)] # 32}} \cup
         {[i \in 1..25 |-> IF i = 22 THEN 32 ELSE IF i > 22 THEN 57 ELSE 97], [i \in 1..25 |-> 97], [i \in 1..24 |-> IF i \in {3, 4, 23} THEN 32 ELSE 57], <<83, 121, 32, 32, 32, 73, 46, 101, 120, 101>>}
Few == {<<97>>, <<97, 32, 32, 57>>, <<65>>, <<97, 98>>}
Pids == {<<48>>, <<55, 52>>, <<49, 50, 51, 52, 53, 54, 55, 56>>}
Sess == {<<67, 111, 110>>, <<82, 45, 84, 35, 48>>, <<>>, <<51, 49, 67, 53, 67, 69, 57, 52, 50, 53, 57, 68, 52, 48, 48, 54>>}
Sids == {<<48>>, <<54, 53, 53, 51, 54>>}
Mems == {<<48>>, <<57, 57, 57>>, <<49, 48, 48, 48>>, <<49, 50, 51, 52, 53, 54, 55>>, <<78, 47, 65>>}
T1(n, p, s, i, m) == [name |-> n, pid |-> p, session |-> s, sid |-> i, mem |-> m]
K1 == {T1(n, <<55>>, <<67>>, <<49>>, <<56>>) : n \in Few} \cup {T1(<<97>>, <<56>>, <<>>, <<48>>, <<49, 48, 48, 48>>)}
Heads == {<<>>, <<13, 10, 76, 32, 32, 78, 13, 10, 45, 32, 45, 13, 10>>, <<10, 76, 10, 45, 10>>}
Langs == {<<50, 48, 53, 50, 32, 32, 122, 104, 45, 67, 78, 32, 32, 20013, 13, 10>>, <<49, 32, 101, 110, 32, 69, 13, 10>>, <<13, 10>>, <<>>}
Paths == {<<67, 58, 92, 97, 46, 98, 46, 101, 120, 101>>, <<67, 58, 92, 100, 46, 100, 92, 97>>, <<97, 46>>, <<67, 58, 92, 46, 104>>}
Fields == {"name", "args", "description", "cwd", "icon", "hotkey", "dirPath", "windowMode", "force"}
Val(k) == CASE k = "windowMode" -> 7 [] k = "force" -> TRUE [] k = "name" -> <<110, 49>> [] k = "args" -> <<45, 97, 32, 34, 98, 34>> [] k = "description" -> <<100>> [] k = "cwd" -> <<67, 58, 92>> [] k = "icon" -> <<105>> [] k = "hotkey" -> <<72>> [] k = "dirPath" -> <<68, 58, 92, 120>>
WSpec == ((pc = "call" /\ out = <<>> /\
   \/ \E n \in Names, p \in Pids, s \in Sess, i \in Sids, m \in Mems : LET q == <<T1(n, p, s, i, m)>> IN call = [f |-> "list", tasks |-> q, text |-> Layout(q)]
   \/ \E q \in SeqsUpTo(K1, MaxList) : call = [f |-> "list", tasks |-> q, text |-> Layout(q)]
   \/ \E q \in SeqsUpTo(K1, MaxList), n \in Few : call = [f |-> "find", tasks |-> q, text |-> Layout(q), name |-> n]
   \/ \E s \in {0, 1, 128}, e \in BOOLEAN : call = [f |-> "kill", status |-> s, complains |-> e]
   \/ \E h \in Heads, l \in Langs, w \in BOOLEAN : call = [f |-> "language", text |-> h \o l, windows |-> w]
   \/ \E p \in Paths, K \in SUBSET Fields, x \in BOOLEAN, d \in {"directory", "file", "nothing"} : call = [f |-> "shortcut", path |-> p, opts |-> [k \in K |-> Val(k)], exists |-> x, dir |-> d, windows |-> TRUE]
   \/ call = [f |-> "shortcut", path |-> <<97>>, opts |-> [k \in {"force"} |-> TRUE], exists |-> TRUE, dir |-> "directory", windows |-> FALSE]
   \/ \E t \in {"Windows_NT", "Darwin", "Linux", "FreeBSD", "CYGWIN_NT-10.0"}, r \in {"10.0.19045", "4.4.0-19041-Microsoft", "5.15.90.1-microsoft-standard-WSL2", "6.1.0-18-amd64"} : call = [f |-> "platform", type |-> t, release |-> r]
   \/ \E p \in {"win32", "darwin", "linux", "freebsd"}, r \in {"wsl", "plain"}, m \in {"", "code", "my-app"}, a \in SeqsUpTo({"http://x/y", "b.txt"}, 2), o \in BOOLEAN :
        (o => Len(a) = 1) /\ call = [f |-> "open", platform |-> p, release |-> r, command |-> m, args |-> a, one |-> o])
  /\ [][CNext]_<<pc, call, out>>)
CasesDef == {}
=============================================================================
