------------------------------ MODULE JsonText -------------------------------
(* Conversion to JSON and back.  A value is a slot: > 0 a node of the graph, otherwise a leaf code.                    *)
EXTENDS FuncBase
CONSTANTS Len1, Big
(* leaves: 0 number, -1 undefined, -2 null, -3 function, -4 NaN, -5 date, -6 bigint, -7 throws when asked for its form, *)
(* -8 boxed text, -9 its form is undefined, -10 symbol, -11 text                                                       *)
L(x) == [j |-> "leaf", v |-> x]
Error == [j |-> "error", v |-> ""]
None == [j |-> "none", v |-> ""]
Leaf(s) == CASE s = 0 -> L("number") [] s \in {-1, -3, -9, -10} -> None [] s \in {-2, -4} -> L("null") [] s = -5 -> L("date") [] s = -8 -> L("boxed") [] s = -11 -> L("text") [] OTHER -> Error
IntKey(k) == k \in {"0", "1"}
Ordered(f, rev) == IF ~rev THEN f ELSE SelectSeq(f, LAMBDA x : IntKey(x[1])) \o Rev(SortSeq(SelectSeq(f, LAMBDA x : ~IntKey(x[1])), LAMBDA x, y : (CASE x[1] = "a" -> 1 [] x[1] = "b" -> 2 [] x[1] = "c" -> 3 [] x[1] = "__proto__" -> 0) < (CASE y[1] = "a" -> 1 [] y[1] = "b" -> 2 [] y[1] = "c" -> 3 [] y[1] = "__proto__" -> 0)))
Within(stk, n) == \E i \in 1..Len(stk) : stk[i][1] = n
PathAt(stk, n) == stk[CHOOSE i \in 1..Len(stk) : stk[i][1] = n][2]
Dropped(c, k) == CASE c.how = "list" -> ~Contains(c.list, k) [] c.how = "drop" -> k = "b" [] OTHER -> FALSE
AnyError(q) == \E i \in 1..Len(q) : q[i].j = "error"
RECURSIVE Val(_, _, _, _, _), Field(_, _, _, _, _, _, _)
(* stk: the plain containers being written, with the path of each; raws: other objects being written *)
Val(c, s, stk, path, raws) ==
    IF s <= 0 THEN IF s = 0 /\ c.how = "num" THEN L("seven") ELSE Leaf(s)
    ELSE LET n == c.h[s] IN
         IF n.t = "raw" /\ s \in raws THEN Error
         ELSE IF n.t # "raw" /\ Within(stk, s) THEN (IF c.cycles THEN [j |-> "mark", v |-> PathAt(stk, s)] ELSE Error)
         ELSE LET raw == n.t = "raw"
                  stk2 == IF raw THEN <<>> ELSE Append(stk, <<s, path>>)
                  raws2 == IF raw THEN raws \cup {s} ELSE raws
                  f == IF n.t = "obj" THEN Ordered(n.f, c.rev) ELSE n.f
                  kid(i) == Field(c, n.t, f[i], stk2, path, raws2, raw)
                  kids == [i \in 1..Len(f) |-> kid(i)]
              IN IF AnyError(kids) THEN Error
                 ELSE IF n.t = "arr" THEN [j |-> "arr", v |-> [i \in 1..n.len |-> LET S == {m \in 1..Len(f) : f[m][1] = ToString(i - 1)} IN IF S = {} THEN L("null") ELSE LET r == kids[CHOOSE m \in S : TRUE] IN IF r.j = "none" THEN L("null") ELSE r]]
                 ELSE [j |-> "obj", v |-> SelectSeq([i \in 1..Len(f) |-> <<f[i][1], kids[i]>>], LAMBDA p : p[2].j # "none")]
Field(c, t, p, stk, path, raws, raw) ==
    IF t # "arr" /\ c.how = "throw" /\ p[1] = "b" THEN Error
    ELSE IF t # "arr" /\ Dropped(c, p[1]) /\ (p[2] # -7) THEN None
    ELSE Val(c, p[2], stk, IF raw THEN <<>> ELSE Append(path, p[1]), raws)
Written(c) == Val(c, 1, <<>>, <<>>, {})
(* ---- parsing ---- *)
NoBlank(q) == SelectSeq(q, LAMBDA x : x # "_")
(* blanks may stand between tokens, never inside: every token here is a single symbol *)
Bad == [ok |-> FALSE, v |-> Error, rest |-> <<>>]
SetField(f, k, v) == IF \E i \in 1..Len(f) : f[i][1] = k THEN [i \in 1..Len(f) |-> IF f[i][1] = k THEN <<k, v>> ELSE f[i]] ELSE Append(f, <<k, v>>)
RECURSIVE PVal(_), PItems(_, _), PFields(_, _)
PVal(q) == IF q = <<>> THEN Bad
           ELSE CASE Head(q) \in {"a", "b"} -> [ok |-> TRUE, v |-> L(Head(q)), rest |-> Tail(q)]
                  [] Head(q) = "1" -> [ok |-> TRUE, v |-> L("1"), rest |-> Tail(q)]
                  [] Head(q) = "null" -> [ok |-> TRUE, v |-> L("null"), rest |-> Tail(q)]
                  [] Head(q) = "[" -> IF Len(q) > 1 /\ q[2] = "]" THEN [ok |-> TRUE, v |-> [j |-> "arr", v |-> <<>>], rest |-> Drop(q, 2)] ELSE PItems(Tail(q), <<>>)
                  [] Head(q) = "{" -> IF Len(q) > 1 /\ q[2] = "}" THEN [ok |-> TRUE, v |-> [j |-> "obj", v |-> <<>>], rest |-> Drop(q, 2)] ELSE PFields(Tail(q), <<>>)
                  [] OTHER -> Bad
PItems(q, acc) == LET r == PVal(q) IN IF ~r.ok \/ r.rest = <<>> THEN Bad
                  ELSE IF Head(r.rest) = "]" THEN [ok |-> TRUE, v |-> [j |-> "arr", v |-> Append(acc, r.v)], rest |-> Tail(r.rest)]
                  ELSE IF Head(r.rest) = "," THEN PItems(Tail(r.rest), Append(acc, r.v)) ELSE Bad
PFields(q, acc) == IF Len(q) < 3 \/ q[1] \notin {"a", "b"} \/ q[2] # ":" THEN Bad
                   ELSE LET r == PVal(Drop(q, 2)) f == SetField(acc, q[1], r.v)
                        IN IF ~r.ok \/ r.rest = <<>> THEN Bad
                           ELSE IF Head(r.rest) = "}" THEN [ok |-> TRUE, v |-> [j |-> "obj", v |-> f], rest |-> Tail(r.rest)]
                           ELSE IF Head(r.rest) = "," THEN PFields(Tail(r.rest), f) ELSE Bad
RECURSIVE Revive(_, _)
Revive(x, how) == CASE x.j = "arr" -> LET q == [i \in 1..Len(x.v) |-> Revive(x.v[i], how)] IN IF AnyError(q) THEN Error ELSE [x EXCEPT !.v = q]
                    [] x.j = "obj" -> LET q == [i \in 1..Len(x.v) |-> <<x.v[i][1], IF how = "throw" /\ x.v[i][1] = "b" THEN Error ELSE Revive(x.v[i][2], how)>>]
                                      IN IF \E i \in 1..Len(q) : q[i][2].j = "error" THEN Error ELSE [x EXCEPT !.v = SelectSeq(q, LAMBDA p : ~(how = "drop" /\ p[1] = "a"))]
                    [] OTHER -> IF how = "num" /\ x.v = "1" THEN L("seven") ELSE x
Parsed(c) == LET r == PVal(NoBlank(c.t)) IN IF ~r.ok \/ r.rest # <<>> THEN Error ELSE Revive(r.v, c.how)
EvalDef(c) == CASE c.f = "write" -> Written(c) [] c.f = "parse" -> Parsed(c) [] c.f = "round" -> c.data
Leaves == IF Big THEN {0, -1, -6, -7} ELSE {0, -1}
Keys == {"a", "b", "0"}
DistinctF(f) == \A i, j \in 1..Len(f) : i # j => f[i][1] # f[j][1]
IntsFirst(f) == \A i, j \in 1..Len(f) : IntKey(f[j][1]) /\ i < j => IntKey(f[i][1])
Fields(S) == {g \in SeqsUpTo(Keys \X S, 2) : DistinctF(g) /\ IntsFirst(g)}
Node(t, f, n) == [t |-> t, f |-> f, len |-> n]
ObjNodes(S) == {Node(t, f, 0) : t \in {"obj", "raw"}, f \in Fields(S)}
ArrNodes(S) == {Node("arr", [i \in 1..Len(q) |-> <<IF i = 1 THEN "0" ELSE "1", q[i]>>], Len(q) + x) : q \in SeqsUpTo(S, 2), x \in {0, 1}} \cup {Node("arr", <<<<"1", s>>>>, 2) : s \in S}
Graph(n) == ObjNodes(Leaves \cup 1..n) \cup ArrNodes(Leaves \cup 1..n)
RECURSIVE Below(_, _)
Below(h, S) == LET T2 == S \cup UNION {{h[n].f[i][2] : i \in 1..Len(h[n].f)} \cap 1..Len(h) : n \in S} IN IF T2 = S THEN S ELSE Below(h, T2)
KidsOf(h, n) == {h[n].f[i][2] : i \in 1..Len(h[n].f)} \cap 1..Len(h)
Cyclic(h) == \E n \in Below(h, {1}) : n \in Below(h, KidsOf(h, n))
W(h, how, cy, rev) == [f |-> "write", h |-> h, how |-> how, list |-> <<"a", "0">>, cycles |-> cy, rev |-> rev]
Small == {0, -1, -6}
CasesDef == {}
Toks == {"{", "}", "[", "]", ",", ":", "a", "b", "1", "null", "_", "x"}
JInit == pc = "call" /\ out = <<>> /\
    \/ \E s \in {0, -1, -2, -3, -4, -5, -6, -7, -8, -9, -10, -11}, t \in {"obj", "arr", "raw"}, k \in Keys, w \in {"no", "list", "id", "drop", "num", "throw"}, r \in BOOLEAN :
         call = W(<<Node(t, <<<<IF t = "arr" THEN "0" ELSE k, s>>>>, IF t = "arr" THEN 1 ELSE 0)>>, w, TRUE, r)
    \/ \E n1 \in Graph(2), n2 \in ObjNodes({0, 1, 2}) \cup ArrNodes({0, 1, 2}), w \in {"no", "id", "list"}, cy \in BOOLEAN, r \in BOOLEAN :
         /\ (w = "list" => cy /\ ~r /\ ~Cyclic(<<n1, n2>>)) /\ (w = "id" => cy /\ ~r)
         /\ call = W(<<n1, n2>>, w, cy, r)
    \/ \E n1 \in ObjNodes({2, -6}), n2 \in ObjNodes({0, 1, 2}), w \in {"drop", "num", "throw"} : call = W(<<n1, n2>>, w, TRUE, FALSE)
    \/ \E q \in SeqsUpTo(Toks, Len1), w \in {"no", "num", "drop", "throw"} : (\A i \in 1..(Len(q) - 1) : ~(q[i] = "1" /\ q[i + 1] = "1")) /\ (w # "no" => Parsed([t |-> q, how |-> "no"]).j # "error") /\ call = [f |-> "parse", t |-> q, how |-> w]
JSpec == JInit /\ [][CNext]_<<pc, call, out>>
RECURSIVE Plain(_)
Plain(x) == x.j # "mark" /\ (x.j = "arr" => \A i \in 1..Len(x.v) : Plain(x.v[i])) /\ (x.j = "obj" => \A i \in 1..Len(x.v) : Plain(x.v[i][2]))
HasLeaf(h, S) == \E n \in Below(h, {1}) : \E i \in 1..Len(h[n].f) : h[n].f[i][2] \in S
LawDef(c, o) ==
    /\ (c.f = "write" /\ o.j = "error" => Cyclic(c.h) \/ HasLeaf(c.h, {-6, -7}) \/ c.how = "throw")
    /\ (c.f = "write" /\ o.j # "error" /\ ~Cyclic(c.h) => Plain(o))
    /\ (c.f = "write" /\ o.j # "error" /\ Cyclic(c.h) /\ c.how \in {"no", "id"} => c.cycles /\ ~Plain(o))
=============================================================================
