----------------------------- MODULE SourceText ----------------------------
(* Values written as source text.  A heap is a sequence of nodes (kind, slots); a slot is a node number (> 0) or  *)
(* a leaf (<= 0).  Evaluating the text gives the graph unfolded into a tree from its root: a node met again on    *)
(* the way down from the root is the mark [Circular].  The synchronous form cannot look into promises.            *)
EXTENDS FuncBase
CONSTANTS Kinds2, Kinds3
Width(k) == CASE k \in {"obj", "null", "arr", "map", "set", "sparse", "class"} -> 2 [] k \in {"pending"} -> 0 [] OTHER -> 1
IsRef(v) == v > 0
\* fulfilled/rejected/pending promises; objects that write themselves: async (textLater, failsLater), or at once (text, fails)
Mark(k) == [k |-> k, f |-> <<>>]
RECURSIVE Tree(_, _, _, _)
Slot(h, v, path, how) == IF IsRef(v) THEN Tree(h, v, path, how) ELSE v
Tree(h, n, path, how) ==
  LET k == h[n].k  full == [k |-> k, f |-> [i \in 1..Len(h[n].f) |-> Slot(h, h[n].f[i], path \cup {n}, how)]] IN
  IF n \in path THEN Mark("circular")
  ELSE IF k \in {"fulfilled", "rejected", "pending"} THEN (IF how = "sync" THEN Mark("unknown") ELSE full)
  ELSE IF k = "textLater" THEN (IF how = "sync" THEN full ELSE Mark("own text"))
  ELSE IF k = "text" THEN Mark("own text")
  ELSE full
EvalDef(c) == Tree(c.h, 1, {}, c.how)
Refs(h, n) == {h[n].f[i] : i \in {j \in 1..Len(h[n].f) : IsRef(h[n].f[j])}}
RECURSIVE Reach(_, _)
Reach(h, S) == LET N == S \cup UNION {Refs(h, n) : n \in S} IN IF N = S THEN S ELSE Reach(h, N)
Leaves == {ToString(0 - i) : i \in 0..80}
RECURSIVE Depth(_), Circ(_)
IsTree(x) == ToString(x) \notin Leaves
Circ(x) == IF ~IsTree(x) THEN 0 ELSE IF x.k = "circular" THEN 1 ELSE FoldL(LAMBDA a, y : a + Circ(y), 0, x.f)
Depth(x) == IF ~IsTree(x) THEN 0 ELSE 1 + FoldL(LAMBDA a, y : LET d == Depth(y) IN IF d > a THEN d ELSE a, 0, x.f)
Cyclic(h) == \E n \in Reach(h, {1}) : n \in Reach(h, Refs(h, n))
LawDef(c, o) == /\ Depth(o) <= Cardinality(Reach(c.h, {1})) + 1
                /\ ~Cyclic(c.h) => Circ(o) = 0
                /\ (Cyclic(c.h) /\ \A n \in 1..Len(c.h) : c.h[n].k \in {"obj", "null", "arr", "map", "set", "sparse", "class"}) => Circ(o) > 0
----------------------------------------------------------------------------
Promises == {"fulfilled", "rejected", "pending"}
\* a set's members differ; nothing is fulfilled with a promise
Fine(h) == \A i \in 1..Len(h) : (h[i].k = "set" => h[i].f[1] # h[i].f[2]) /\ (h[i].k = "fulfilled" => ~(IsRef(h[i].f[1]) /\ h[h[i].f[1]].k \in Promises))
Nodes(kinds, n) == UNION {{[k |-> k, f |-> f] : f \in [1..Width(k) -> {0} \cup 1..n]} : k \in kinds}
Fns(kinds, n) == [1..n -> Nodes(kinds, n)]
SSpec == ((pc = "call" /\ out = <<>> /\
    \/ \E n \in 1..2 : \E h \in Fns(Kinds2, n), w \in {"sync", "async"} : Fine(h) /\ (n = 2 => 2 \in Reach(h, {1})) /\ call = [f |-> "write", h |-> h, how |-> w]
    \/ \E h \in Fns(Kinds3, 3), w \in {"sync", "async"} : Fine(h) /\ Cardinality(Reach(h, {1})) = 3 /\ call = [f |-> "write", h |-> h, how |-> w])
  /\ [][CNext]_<<pc, call, out>>)
CasesDef == {}
=============================================================================
