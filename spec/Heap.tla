-------------------------------- MODULE Heap ---------------------------------
(* Object graphs and their deep copies.  A heap is a sequence of nodes; a node has a kind and slots, and a slot is
   a node number (> 0) or a primitive (<= 0).  Root is node 1.  What a copy must be is the graph itself up to the
   choice of new node identities: its canonical form numbers nodes in the order a depth-first visit meets them.   *)
EXTENDS FuncBase
CONSTANTS Kinds2, Kinds3
Prims == {0}
Width(k) == IF k \in {"obj", "arr", "map", "set", "null", "class", "err", "agg"} THEN 2 ELSE IF k = "blank" THEN 0 ELSE 1
IsRef(v) == v > 0
Refs(h, n) == {h[n].f[i] : i \in {j \in 1..Len(h[n].f) : IsRef(h[n].f[j])}}
(* visit: the list of nodes met, in order *)
RECURSIVE Visit(_, _, _), VisitAll(_, _, _)
Visit(h, n, seen) == IF \E i \in 1..Len(seen) : seen[i] = n THEN seen ELSE VisitAll(h, h[n].f, Append(seen, n))
VisitAll(h, fs, seen) == IF fs = <<>> THEN seen ELSE VisitAll(h, Tail(fs), IF IsRef(Head(fs)) THEN Visit(h, Head(fs), seen) ELSE seen)
IndexOf(l, n) == CHOOSE i \in 1..Len(l) : l[i] = n
Canon(h, n) == LET l == Visit(h, n, <<>>) IN [i \in 1..Len(l) |-> [k |-> h[l[i]].k, f |-> [j \in 1..Len(h[l[i]].f) |-> IF IsRef(h[l[i]].f[j]) THEN IndexOf(l, h[l[i]].f[j]) ELSE h[l[i]].f[j]]]]
(* a set's members differ *)
Fine(h) == \A i \in 1..Len(h) : h[i].k = "set" => h[i].f[1] # h[i].f[2]
Nodes(kinds, n) == UNION {{[k |-> k, f |-> f] : f \in [1..Width(k) -> Prims \cup 1..n]} : k \in kinds}
CasesDef == {}
Fns(kinds, n) == [1..n -> Nodes(kinds, n)]
HInit == pc = "call" /\ out = <<>> /\
    \/ \E n \in 1..2 : \E h \in Fns(Kinds2, n) : Fine(h) /\ call = [f |-> "copy", h |-> h, lacked |-> FALSE, has |-> FALSE]
    \/ \E h \in Fns(Kinds3, 3) : Fine(h) /\ Len(Visit(h, 1, <<>>)) = 3 /\ call = [f |-> "copy", h |-> h, lacked |-> FALSE, has |-> FALSE]
    \/ \E h \in Fns(Kinds2, 2), l \in BOOLEAN, b \in BOOLEAN : h[1].k = "obj" /\ Fine(h) /\ call = [f |-> "attrs", h |-> h, lacked |-> l, has |-> b]
HSpec == HInit /\ [][CNext]_<<pc, call, out>>
Slot(h, v) == IF IsRef(v) THEN Canon(h, v) ELSE v
EvalDef(c) == IF c.f = "copy" THEN [copy |-> Canon(c.h, 1), fresh |-> TRUE]
              ELSE [a |-> IF c.lacked /\ c.has THEN "kept" ELSE Slot(c.h, c.h[1].f[1]), b |-> Slot(c.h, c.h[1].f[2]), fresh |-> TRUE]
(* the copy has exactly the reachable nodes, and some one-to-one correspondence maps the graph onto it *)
RECURSIVE Reach(_, _)
Reach(h, S) == LET N == S \cup UNION {Refs(h, n) : n \in S} IN IF N = S THEN S ELSE Reach(h, N)
LawDef(c, o) == c.f = "copy" =>
    LET R == Reach(c.h, {1}) IN
    /\ Len(o.copy) = Cardinality(R)
    /\ Len(o.copy) <= 4 => \E m \in [R -> 1..Len(o.copy)] :
        /\ m[1] = 1 /\ \A x, y \in R : m[x] = m[y] => x = y
        /\ \A x \in R : o.copy[m[x]] = [k |-> c.h[x].k, f |-> [i \in 1..Len(c.h[x].f) |-> IF IsRef(c.h[x].f[i]) THEN m[c.h[x].f[i]] ELSE c.h[x].f[i]]]
=============================================================================
