------------------------------- MODULE Objects -------------------------------
(* Utilities on plain objects.  An object is its own properties in creation order: [k, e, c, v] = key, enumerable,   *)
(* configurable, value.  Keys "0".."3" are index-like, "s1","s2" stand for symbols, the others for names.            *)
EXTENDS FuncBase
CONSTANTS MaxProps
Ints == <<"0", "1", "2", "3", "10">>
Syms == {"s1", "s2"}
IsInt(k) == \E i \in 1..Len(Ints) : Ints[i] = k
IntNo(k) == CHOOSE i \in 1..Len(Ints) : Ints[i] = k
(* the order in which a key listing meets the properties *)
InOrder(o) == LET is == SelectSeq(o, LAMBDA p : IsInt(p.k)) IN SortSeq(is, LAMBDA a, b : IntNo(a.k) < IntNo(b.k)) \o SelectSeq(o, LAMBDA p : ~IsInt(p.k) /\ p.k \notin Syms) \o SelectSeq(o, LAMBDA p : p.k \in Syms)
At(o, level) == CASE level = 0 -> SelectSeq(InOrder(o), LAMBDA p : p.e /\ p.k \notin Syms)
                  [] level = 1 -> SelectSeq(InOrder(o), LAMBDA p : p.k \notin Syms)
                  [] level = 2 -> SelectSeq(InOrder(o), LAMBDA p : p.k \in Syms)
                  [] level = 3 -> InOrder(o)
Map(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
KeysOf(o, level) == Map(At(o, level), LAMBDA p : p.k)
HasKey(o, k) == \E i \in 1..Len(o) : o[i].k = k
Prop(o, k) == o[CHOOSE i \in 1..Len(o) : o[i].k = k]
(* a list of wanted things, every or some *)
Among(q, S, any) == IF any THEN \E i \in 1..Len(q) : q[i] \in S ELSE \A i \in 1..Len(q) : q[i] \in S
Without(o, ks) == SelectSeq(InOrder(o), LAMBDA p : ~Contains(ks, p.k))
(* deleting: the answer has exactly the others; when some cannot be deleted the answer is another object, else the object itself *)
Deleted(o, ks) == [ret |-> Without(o, ks), same |-> \A i \in 1..Len(o) : Contains(ks, o[i].k) => o[i].c]
Lower(k) == CASE k = "A" -> "a" [] k = "B" -> "b" [] k = "Ab" -> "ab" [] OTHER -> k
RECURSIVE LowerKeys(_, _, _)
LowerKeys(q, cover, acc) ==
    IF q = <<>> THEN acc
    ELSE LET k == Lower(Head(q).k) p == [k |-> k, e |-> TRUE, c |-> TRUE, v |-> Head(q).v]
         IN LowerKeys(Tail(q), cover, IF ~HasKey(acc, k) THEN Append(acc, p) ELSE IF cover THEN Map(acc, LAMBDA x : IF x.k = k THEN p ELSE x) ELSE acc)
(* shallow equality over enumerable names, by a comparison: "is", "loose" (all values alike) or "never" *)
Same(a, b, how) == CASE how = "is" -> a = b [] how = "loose" -> TRUE [] how = "never" -> FALSE
ShallowEq(a, b, how) == LET ka == KeysOf(a, 0) kb == KeysOf(b, 0)
                        IN how = "loose" \/ (Range(ka) = Range(kb) /\ \A k \in Range(ka) : Same(Prop(a, k).v, Prop(b, k).v, how))
(* ---- key paths as text ---- *)
Blank == {" "}
RECURSIVE TrimL(_), TrimR(_)
TrimL(q) == IF q # <<>> /\ Head(q) \in Blank THEN TrimL(Tail(q)) ELSE q
TrimR(q) == IF q # <<>> /\ Last(q) \in Blank THEN TrimR(Front(q)) ELSE q
Trim(q) == TrimL(TrimR(q))
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE Find(_, _, _)
Find(q, x, i) == IF i > Len(q) THEN 0 ELSE IF q[i] = x THEN i ELSE Find(q, x, i + 1)
Key(q) == [t |-> "name", s |-> q]
Quoted(q) == Len(q) > 2 /\ q[1] \in {"'", "dq"} /\ Last(q) = q[1] /\ ~Contains(SubSeq(q, 2, Len(q) - 1), q[1])
Whole(q) == LET d == Find(q, ".", 1) IN IF d = 0 THEN q ELSE IF d = 1 THEN <<"0">> ELSE SubSeq(q, 1, d - 1)
Fraction(q) == LET d == Find(q, ".", 1) IN IF d = 0 THEN <<>> ELSE SubSeq(q, d + 1, Len(q))
(* digits, perhaps with a fraction that is zero: .0, 7., 7.00 are whole numbers *)
IsIndex(q) == /\ \E i \in 1..Len(q) : q[i] \in Digits
              /\ \A i \in 1..Len(Whole(q)) : Whole(q)[i] \in Digits
              /\ \A i \in 1..Len(Fraction(q)) : Fraction(q)[i] = "0"
(* leading zeros of an index carry no value *)
RECURSIVE NoZeros(_)
NoZeros(q) == IF Len(q) > 1 /\ q[1] = "0" THEN NoZeros(Tail(q)) ELSE q
(* deps: what the names a, b, $ stand for *)
Dep(q) == CASE q = <<"a">> -> <<[t |-> "name", s |-> <<"b", "b">>]>> [] q = <<"b">> -> <<[t |-> "index", s |-> <<"0">>]>> [] q = <<"$">> -> <<[t |-> "index", s |-> <<"7">>]>> [] OTHER -> <<>>
Bracket(q) == IF Quoted(q) THEN (LET s == Trim(SubSeq(q, 2, Len(q) - 1)) IN IF s = <<>> THEN <<>> ELSE <<Key(s)>>)
              ELSE IF IsIndex(q) THEN <<[t |-> "index", s |-> NoZeros(Whole(q))]>> ELSE Dep(q)
Push(acc, q) == LET s == TrimR(q) IN IF s = <<>> THEN acc ELSE Append(acc, Key(s))
RECURSIVE ReadPath(_, _, _, _)
ReadPath(q, i, cur, acc) ==
    IF i > Len(q) THEN Push(acc, cur)
    ELSE CASE q[i] = "." -> ReadPath(q, i + 1, <<>>, Push(acc, cur))
           [] q[i] = "[" -> LET m == Find(q, "]", i + 1) b == IF m = 0 THEN <<>> ELSE Bracket(Trim(SubSeq(q, i + 1, m - 1)))
                            IN IF b = <<>> THEN <<"error">> ELSE ReadPath(q, m + 1, <<>>, Push(acc, cur) \o b)
           [] q[i] = "]" -> <<"error">>
           [] OTHER -> ReadPath(q, i + 1, Append(cur, q[i]), acc)
ToKeys(q) == ReadPath(q, 1, <<>>, <<>>)
(* ---- reading a place ---- a value: [o |-> object id] or a leaf; the object graph maps an object to its children   *)
(* tree: sequence of nodes; a node is a sequence of [k, own, to], to > 0 a node, -1 undefined, -2 null, -3.. leaves, of which -5 the text ab, -6 the text a, -7 the empty text, -8 zero, -9 no *)
Step(t, at, k, own) == IF at \in {-5, -6} /\ k = "0" THEN -6 ELSE IF at <= 0 THEN -1 ELSE LET S == {i \in 1..Len(t[at]) : t[at][i].k = k /\ (own => t[at][i].own)} IN IF S = {} THEN -1 ELSE t[at][CHOOSE i \in S : TRUE].to
RECURSIVE Walk(_, _, _, _)
Walk(t, at, ks, own) == IF ks = <<>> THEN at ELSE IF at \in {-1, -2} THEN -1 ELSE Walk(t, Step(t, at, Head(ks), own), Tail(ks), own)
Broken(t, at, ks) == \E n \in 1..Len(ks) : Walk(t, at, SubSeq(ks, 1, n - 1), FALSE) \in {-1, -2}
(* ---- ordering keys ---- nodes [t: "obj"|"arr"|"other", f: sequence of <<key, slot>>]; canonical form in visit order *)
NameNo(k) == CASE k = "0" -> 1 [] k = "1" -> 2 [] k = "A" -> 3 [] k = "_" -> 4 [] k = "a" -> 5 [] k = "b" -> 6 [] k = "c" -> 7
SortNames(f, rev) == SortSeq(f, LAMBDA x, y : LET xi == x[1] \in {"0", "1"} yi == y[1] \in {"0", "1"}
                                               IN IF xi # yi THEN xi ELSE IF rev /\ ~xi THEN NameNo(x[1]) > NameNo(y[1]) ELSE NameNo(x[1]) < NameNo(y[1]))
Sorts(h, n, c, root) == (n = root \/ c.deep)
FieldsOf(h, n, c, on) == IF on /\ h[n].t = "obj" THEN SortNames(h[n].f, c.rev) ELSE h[n].f
(* which nodes are rebuilt: the root, and with deep everything below it through objects and arrays *)
Twin(h, n, on) == <<n, on /\ h[n].t # "other">>   \* other values are never rebuilt
RECURSIVE CanonV(_, _, _, _)
(* work list of <<node>> slots; seen: nodes in visit order; a rebuilt node has its fields in sorted order *)
CanonV(h, todo, seen, c) ==
    IF todo = <<>> THEN seen
    ELSE LET n == Head(todo)[1] on == Head(todo)[2]
         IN IF n <= 0 \/ \E i \in 1..Len(seen) : seen[i] = Twin(h, n, on) THEN CanonV(h, Tail(todo), seen, c)
            ELSE LET fs == FieldsOf(h, n, c, on) below == on /\ c.deep /\ h[n].t # "other"
                 IN CanonV(h, [i \in 1..Len(fs) |-> <<fs[i][2], below>>] \o Tail(todo), Append(seen, Twin(h, n, on)), c)
PosOf(l, x) == CHOOSE i \in 1..Len(l) : l[i] = x
Sorted(c) == LET l == CanonV(c.h, <<<<1, TRUE>>>>, <<>>, c)
             IN [i \in 1..Len(l) |-> LET n == l[i][1] on == l[i][2] fs == FieldsOf(c.h, n, c, on) below == on /\ c.deep /\ c.h[n].t # "other"
                                     IN [t |-> c.h[n].t, new |-> on /\ c.h[n].t # "other", f |-> [j \in 1..Len(fs) |-> <<fs[j][1], IF fs[j][2] > 0 THEN PosOf(l, Twin(c.h, fs[j][2], below)) ELSE fs[j][2]>>]]]
EvalDef(c) ==
    CASE c.f = "list" -> [keys |-> KeysOf(c.o, c.level), values |-> Map(At(c.o, c.level), LAMBDA p : p.v), pairs |-> Map(At(c.o, c.level), LAMBDA p : <<p.k, p.v>>)]
      [] c.f = "all" -> KeysOf(c.o, 3)
      [] c.f = "lack" -> SelectSeq(c.q, LAMBDA k : ~HasKey(c.o, k))
      [] c.f = "bare" -> InOrder(c.o)
      [] c.f = "hasKeys" -> Among(c.q, Range(KeysOf(c.o, c.level)), c.any)
      [] c.f = "hasValues" -> Among(c.q, {p.v : p \in Range(At(c.o, 0))}, c.any)
      [] c.f = "derive" -> [ret |-> Without(c.o, c.q), before |-> InOrder(c.o)]
      [] c.f = "delete" -> Deleted(c.o, c.q)
      [] c.f = "lower" -> InOrder(LowerKeys(InOrder(c.o), c.cover, <<>>))
      [] c.f = "equal" -> ShallowEq(c.a, c.b, c.how)
      [] c.f = "read" -> ToKeys(c.t)
      [] c.f = "written" -> [keys |-> ToKeys(c.t)]
      [] c.f = "get" -> Walk(c.tree, 1, c.q, c.own)
      [] c.f = "cascade" -> IF Broken(c.tree, 1, c.q) THEN "nothing" ELSE Walk(c.tree, 1, c.q, FALSE)
      [] c.f = "sort" -> Sorted(c)
      [] c.f = "inherits" -> HasKey(c.tree[1], c.k) /\ ~Prop(c.tree[1], c.k).own
      [] c.f = "class" -> [inst |-> c.i = c.j, ctor |-> c.i]
Names == {"a", "A", "1", "0", "s1"}
P(k, e, cf, v) == [k |-> k, e |-> e, c |-> cf, v |-> v]
DistinctKeys(o) == \A i, j \in 1..Len(o) : i # j => o[i].k # o[j].k
(* objects: distinct keys; flags vary on two of them *)
Objs == {o \in SeqsUpTo({P(k, e, cf, v) : k \in Names, e \in BOOLEAN, cf \in BOOLEAN, v \in {1}}, MaxProps) : DistinctKeys(o)}
Numbered(o) == [i \in 1..Len(o) |-> [o[i] EXCEPT !.v = i]]
Plain(o) == \A i \in 1..Len(o) : o[i].c
Vis(o) == \A i \in 1..Len(o) : o[i].c /\ o[i].e
Qs == SeqsUpTo({"a", "1", "s1", "zz"}, 2)
Simple == {o \in SeqsUpTo({P(k, TRUE, TRUE, v) : k \in {"a", "b", "0", "s1"}, v \in {1, 2}}, 2) : DistinctKeys(o)}
HiddenToo == {o \in SeqsUpTo({P(k, e, TRUE, 1) : k \in {"a", "b"}, e \in BOOLEAN}, 2) : DistinctKeys(o)}
PathAlpha == {"a", "0", ".", "[", "]", "'", "dq", " "}
TreeKeys == {"a", "0", "x-y"}
Leafs == {-1, -2, -3, -5, -7, 2}
Trees == {<<n1, n2>> : n1 \in {q \in SeqsUpTo([k : TreeKeys, own : BOOLEAN, to : Leafs], 1) : DistinctKeys(q)}, n2 \in {q \in SeqsUpTo([k : TreeKeys, own : BOOLEAN, to : {-1, -2, -4, 1}], 1) : DistinctKeys(q)}}
NodeKeys == {"a", "0", "b", "A"}
DistinctF(f) == \A i, j \in 1..Len(f) : i # j => f[i][1] # f[j][1]
(* index-like names first: that is how an object lists them *)
IntsFirst(f) == \A i, j \in 1..Len(f) : f[j][1] \in {"0", "1"} /\ i < j => f[i][1] \in {"0", "1"}
ObjNodes(S) == {[t |-> "obj", f |-> f] : f \in {g \in SeqsUpTo(NodeKeys \X S, 2) : DistinctF(g) /\ IntsFirst(g)}}
ArrNodes(S) == {[t |-> "arr", f |-> [i \in 1..Len(q) |-> <<IF i = 1 THEN "0" ELSE "1", q[i]>>]] : q \in SeqsUpTo(S, 2)}
OthNodes(S) == {[t |-> "other", f |-> f] : f \in {<<<<"b", s>>, <<"a", 0>>>> : s \in S}}
SNodes == ObjNodes({0, 1, 2}) \cup ArrNodes({0, 1, 2}) \cup OthNodes({0, 1, 2})
CasesDef == {}
OInit == pc = "call" /\ out = <<>> /\
    \/ \E o \in Objs, l \in 0..3 : call = [f |-> "list", o |-> Numbered(o), level |-> l]
    \/ \E o \in Objs, l \in 0..3, q \in Qs, y \in BOOLEAN : Plain(o) /\ Len(o) <= 2 /\ call = [f |-> "hasKeys", o |-> Numbered(o), level |-> l, q |-> q, any |-> y]
    \/ \E o \in Objs, q \in SeqsUpTo({1, 2, 7}, 2), y \in BOOLEAN : Plain(o) /\ Len(o) <= 2 /\ call = [f |-> "hasValues", o |-> Numbered(o), q |-> q, any |-> y]
    \/ \E o \in Objs : call = [f |-> "all", o |-> Numbered(o)]
    \/ \E o \in Objs, q \in Qs : call = [f |-> "lack", o |-> Numbered(o), q |-> q]
    \/ \E o \in Objs : call = [f |-> "bare", o |-> Numbered(o)]
    \/ \E o \in Objs, q \in Qs : call = [f |-> "derive", o |-> Numbered(o), q |-> q]
    \/ \E o \in Objs, q \in Qs : call = [f |-> "delete", o |-> Numbered(o), q |-> q]
    \/ \E o \in {x \in SeqsUpTo({P(k, e, TRUE, 1) : k \in {"a", "A", "Ab", "ab", "0", "s1"}, e \in BOOLEAN}, MaxProps) : DistinctKeys(x)}, y \in BOOLEAN : call = [f |-> "lower", o |-> Numbered(o), cover |-> y]
    \/ \E a \in Simple, b \in Simple, w \in {"is", "loose", "never"} : call = [f |-> "equal", a |-> a, b |-> b, how |-> w]
    \/ \E a \in HiddenToo, b \in HiddenToo : call = [f |-> "equal", a |-> a, b |-> b, how |-> "is"]
    \/ \E t \in SeqsUpTo(PathAlpha, MaxProps + 2) : call = [f |-> "read", t |-> t]
    \/ \E t \in Trees, q \in SeqsUpTo(TreeKeys, 3), own \in BOOLEAN : call = [f |-> "get", tree |-> t, q |-> q, own |-> own]
    \/ \E t \in Trees, q \in SeqsUpTo(TreeKeys, 3) : q # <<>> /\ call = [f |-> "cascade", tree |-> t, q |-> q]
    \/ \E t \in Trees, k \in TreeKeys : call = [f |-> "inherits", tree |-> t, k |-> k]
    \/ \E i \in 0..3, j \in 1..3 : call = [f |-> "class", i |-> i, j |-> j]
    \/ \E n1 \in SNodes, n2 \in SNodes, d \in BOOLEAN, r \in BOOLEAN : n1.t # "other" /\ (n1.t = "arr" => ~r) /\ call = [f |-> "sort", h |-> <<n1, n2>>, deep |-> d, rev |-> r]
OSpec == OInit /\ [][CNext]_<<pc, call, out>>
LawDef(c, o) ==
    /\ (c.f = "list" => (c.level = 3 => Len(o.keys) = Len(c.o)) /\ Len(o.values) = Len(o.keys))
    /\ (c.f \in {"derive", "delete"} => {p.k : p \in Range(o.ret)} = {p.k : p \in Range(c.o)} \ Range(c.q))
    /\ (c.f = "equal" /\ c.how = "is" /\ c.a = c.b => o)
    /\ (c.f = "equal" => o = ShallowEq(c.b, c.a, c.how))
    (* ordering: the same fields with the same values *)
    /\ (c.f = "sort" => o[1].t = c.h[1].t /\ {x[1] : x \in Range(o[1].f)} = {x[1] : x \in Range(c.h[1].f)})
=============================================================================
