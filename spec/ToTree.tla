------------------------------- MODULE ToTree --------------------------------
(* toTree: flat records with unique ids -> forest.  A record is <<id, parent>>; parent 0 is a root marker.            *)
EXTENDS FuncBase
CONSTANT MaxN
Ids(items) == {items[i][1] : i \in 1..Len(items)}
Idx(n) == 1..n
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Missing == 9
(* clash # 0: that record's own id is also a root marker, which is refused                                              *)
CasesDef == UNION {{[items |-> [i \in 1..n |-> <<p[i], q[i]>>], strict |-> t, clash |-> k] : p \in Perms(n), q \in [1..n -> (0..n) \cup {Missing}], t \in BOOLEAN, k \in {0} \cup {j \in 1..n : n <= 2}} : n \in 0..MaxN}
(* children of parent p, in input order *)
KidsOf(items, p) == SelectSeq(items, LAMBDA r : r[2] = p)
RECURSIVE Node(_, _)
Node(items, id) == LET k == KidsOf(items, id) IN [id |-> id, kids |-> [i \in 1..Len(k) |-> Node(items, k[i][1])]]
Forest(items) == LET r == KidsOf(items, 0) IN [i \in 1..Len(r) |-> Node(items, r[i][1])]
RECURSIVE Below(_, _)
Below(items, S) == LET n == S \cup {items[i][1] : i \in {j \in 1..Len(items) : items[j][2] \in S}} IN IF n = S THEN S ELSE Below(items, n)
Reached(items) == Below(items, {0}) \ {0}
Orphans(items) == {i \in 1..Len(items) : items[i][2] = Missing}
EvalDef(c) == IF c.clash # 0 THEN "root id"
              ELSE IF c.strict /\ Orphans(c.items) # {} THEN "orphans"
              ELSE IF c.strict /\ Reached(c.items) # Ids(c.items) THEN "cycle" ELSE Forest(c.items)
RECURSIVE Flat(_)
Flat(f) == IF f = <<>> THEN <<>> ELSE <<Head(f).id>> \o Flat(Head(f).kids) \o Flat(Tail(f))
RECURSIVE PairsOf(_, _)
PairsOf(f, p) == UNION {{<<f[i].id, p>>} \cup PairsOf(f[i].kids, f[i].id) : i \in 1..Len(f)}
LawDef(c, o) == c.clash # 0 \/ (c.strict /\ Reached(c.items) # Ids(c.items)) \/ (/\ Range(Flat(o)) = Reached(c.items) /\ Len(Flat(o)) = Cardinality(Reached(c.items))
                                 /\ PairsOf(o, 0) = {r \in Range(c.items) : r[1] \in Reached(c.items)})
=============================================================================
