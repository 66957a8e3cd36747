------------------------------ MODULE ArrayOps -------------------------------
(* Rearranging arrays: splitting, moving, flattening, de-duplicating, ordering, ranges, dimensions.  Indices are 0-based as in the library. *)
EXTENDS FuncBase
CONSTANTS MaxN, MaxStep
Iota(n) == [i \in 1..n |-> i]
RECURSIVE Steps(_, _)
Steps(v, k) == IF Len(v) <= k THEN (IF v = <<>> THEN <<>> ELSE <<v>>) ELSE <<Take(v, k)>> \o Steps(Drop(v, k), k)
ByStep(v, k) == IF k >= Len(v) THEN <<v>> ELSE Steps(v, k)
Chunk(v, k, pad) ==
    LET n == Len(v) IN
    IF k >= n THEN <<v>>
    ELSE LET f == n \div k
             d == n % k
         IN IF d = 0 \/ pad = "" THEN Steps(v, f)
            ELSE IF pad = "start" THEN Steps(Take(v, d * (f + 1)), f + 1) \o Steps(Drop(v, d * (f + 1)), f)
            ELSE Steps(Take(v, (k - d) * f), f) \o Steps(Drop(v, (k - d) * f), f + 1)
Move(v, from, to) ==
    LET n == Len(v)
        a == IF from < 0 THEN n + from ELSE from
        b == IF to < 0 THEN n + to ELSE to
        rest == Take(v, a) \o Drop(v, a + 1)
    IN Take(rest, b) \o <<v[a + 1]>> \o Drop(rest, b)
InRange(n, i) == i < n /\ i >= -n
(* ordering of texts, given as sequences of code units; stable *)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
RECURSIVE Ins(_, _, _)
Ins(Less(_, _), x, q) == IF q = <<>> THEN <<x>> ELSE IF Less(x, q[1]) THEN <<x>> \o q ELSE <<q[1]>> \o Ins(Less, x, Tail(q))
RECURSIVE SortBy(_, _)
SortBy(Less(_, _), q) == IF q = <<>> THEN <<>> ELSE Ins(Less, Last(q), SortBy(Less, Front(q)))
RECURSIVE Dedup(_, _)
Dedup(q, seen) == IF q = <<>> THEN <<>> ELSE IF Head(q) \in seen THEN Dedup(Tail(q), seen) ELSE <<Head(q)>> \o Dedup(Tail(q), seen \cup {Head(q)})
(* nested arrays: [a |-> TRUE, k |-> elements, v |-> 0] or leaf [a |-> FALSE, k |-> <<>>, v |-> n] *)
RECURSIVE Leaves(_)
Leaves(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q).a THEN Leaves(Head(q).k) ELSE <<Head(q).v>>) \o Leaves(Tail(q))
RECURSIVE Flat1(_)
Flat1(q) == IF q = <<>> THEN <<>> ELSE Head(q).k \o Flat1(Tail(q))
RECURSIVE Level(_)
Level(q) == IF q = <<>> \/ \E i \in 1..Len(q) : ~q[i].a THEN 1 ELSE 1 + Level(Flat1(q))
SetMax(S, d) == IF S = {} THEN d ELSE CHOOSE m \in S : \A x \in S : x <= m
RECURSIVE Depth(_), DepthFilled(_, _)
Depth(q) == 1 + SetMax({IF q[i].a THEN Depth(q[i].k) ELSE 0 : i \in 1..Len(q)}, 0)
DepthFilled(q, lvl) == SetMax({IF q[i].a THEN DepthFilled(q[i].k, lvl + 1) ELSE lvl : i \in 1..Len(q)}, 0)
ArgItems(q) == Concat([i \in 1..Len(q) |-> IF q[i].a THEN [j \in 1..Len(q[i].k) |-> q[i].k[j].v] ELSE <<q[i].v>>])
LongestIdx(L, sign) == CHOOSE i \in 1..Len(L) : (\A j \in 1..Len(L) : sign * L[i] >= sign * L[j]) /\ (\A j \in 1..(i - 1) : L[j] # L[i])
Err == "error"
EvalDef(c) ==
    CASE c.f = "splitByStep" -> IF c.k < 1 THEN Err ELSE ByStep(c.v, c.k)
      [] c.f = "splitChunk"  -> IF c.k < 1 THEN Err ELSE Chunk(c.v, c.k, c.pad)
      [] c.f = "move"        -> IF InRange(Len(c.v), c.from) /\ InRange(Len(c.v), c.to) THEN Move(c.v, c.from, c.to) ELSE Err
      [] c.f = "range"       -> IF c.step = 0 \/ (c.from > c.to /\ c.step > 0) \/ (c.from < c.to /\ c.step < 0) THEN Err
                                ELSE [i \in 1..(((IF c.step > 0 THEN c.to - c.from ELSE c.from - c.to) \div (IF c.step > 0 THEN c.step ELSE -c.step)) + 1) |-> c.from + (i - 1) * c.step]
      [] c.f = "flat"        -> Leaves(c.v)
      [] c.f = "dimensionLevel" -> Level(c.v)
      [] c.f = "isMultiDimensional" -> Level(c.v) > 1 /\ (c.dim = 0 \/ (IF c.strict THEN Level(c.v) = c.dim ELSE Level(c.v) >= c.dim))
      [] c.f = "maxRecursionDepth" -> IF c.empty THEN Depth(c.v) ELSE DepthFilled(c.v, 1)
      [] c.f = "unique"      -> Dedup(ArgItems(c.v), {})
      [] c.f = "isUnique"    -> Len(Dedup(c.v, {})) = Len(c.v)
      [] c.f \in {"sortByEng", "sortWords"} -> IF c.rev THEN SortBy(LAMBDA a, b : LexLess(b, a), c.v) ELSE SortBy(LexLess, c.v)
      [] c.f = "sortByEngInitials" -> IF c.rev THEN SortBy(LAMBDA a, b : a[1] > b[1], c.v) ELSE SortBy(LAMBDA a, b : a[1] < b[1], c.v)
      [] c.f = "sortToIndexes" -> LET p == SortBy(LAMBDA a, b : a[1] < b[1], [i \in 1..Len(c.v) |-> <<c.v[i], i - 1>>]) IN [i \in 1..Len(p) |-> p[i][2]]
      [] c.f = "maxLengthIndex" -> IF c.v = <<>> THEN "null" ELSE ToString(LongestIdx(c.v, 1) - 1)
      [] c.f = "minLengthIndex" -> IF c.v = <<>> THEN "null" ELSE ToString(LongestIdx(c.v, -1) - 1)
      [] c.f = "fromArrayLike" -> c.v
      [] c.f = "toArray"     -> IF c.kind = "array" THEN c.v ELSE IF (c.kind = "null" /\ ~c.nul) \/ (c.kind = "undefined" /\ ~c.und) THEN <<>> ELSE <<c.kind>>
      [] c.f = "toObject"    -> LET ks == Dedup([i \in 1..Len(c.v) |-> c.v[i][1]], {})
                                IN [i \in 1..Len(ks) |-> <<ks[i], c.v[SetMax({j \in 1..Len(c.v) : c.v[j][1] = ks[i]}, 0)][2]>>]
      [] c.f = "shuffle"     -> "every order, equally often"
Leaf(n) == [a |-> FALSE, k |-> <<>>, v |-> n]
Arr(q)  == [a |-> TRUE, k |-> q, v |-> 0]
T0 == {Leaf(1), Arr(<<>>)}
T1 == {Arr(q) : q \in SeqsUpTo(T0, 2)} \cup {Leaf(2)}
T2 == {Arr(q) : q \in SeqsUpTo(T1, 2)} \cup T1
Forests == SeqsUpTo(T1, 3) \cup SeqsUpTo(T2, 1)
Words == SeqsUpTo({97, 98}, 2) \ {<<>>}
CasesDef ==
    [f : {"splitByStep"}, v : {Iota(n) : n \in 0..MaxStep}, k : -1..(MaxStep + 1)]
    \cup [f : {"splitChunk"}, v : {Iota(n) : n \in 0..MaxStep}, k : -1..(MaxStep + 1), pad : {"", "start", "end"}]
    \cup [f : {"move"}, v : {Iota(n) : n \in 0..MaxN}, from : -(MaxN + 1)..(MaxN + 1), to : -(MaxN + 1)..(MaxN + 1)]
    \cup [f : {"range"}, from : -4..4, to : -4..4, step : -3..3]
    \cup [f : {"flat", "dimensionLevel"}, v : Forests]
    \cup [f : {"isMultiDimensional"}, v : Forests, dim : {0, 2, 3}, strict : BOOLEAN] \cup [f : {"maxRecursionDepth"}, v : Forests, empty : BOOLEAN]
    \cup [f : {"unique"}, v : SeqsUpTo({Leaf(1), Leaf(2), Arr(<<Leaf(2), Leaf(3)>>), Arr(<<Leaf(3), Leaf(1), Leaf(3)>>), Arr(<<>>)}, 4)]
    \cup [f : {"isUnique"}, v : SeqsUpTo(1..4, 4)]
    \cup [f : {"sortByEng", "sortWords", "sortByEngInitials"}, v : SeqsUpTo(Words, 3), rev : BOOLEAN]
    \cup [f : {"sortToIndexes", "maxLengthIndex", "minLengthIndex"}, v : SeqsUpTo({0, 1, 2, 10}, 4)]
    \cup [f : {"fromArrayLike"}, v : {Iota(n) : n \in 0..4}]
    \cup [f : {"toArray"}, kind : {"array", "null", "undefined", "value", "false"}, v : {Iota(n) : n \in 0..2}, nul : BOOLEAN, und : BOOLEAN]
    \cup [f : {"toObject"}, v : SeqsUpTo({<<k, x>> : k \in {"a", "b", "1x"}, x \in 1..2}, 3)]
    \cup [f : {"shuffle"}, n : 0..4]
(* the splits lose nothing and reorder nothing; sorting is a permutation *)
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
LawDef(c, o) ==
    /\ (c.f \in {"splitByStep", "splitChunk"} /\ c.k > 0 => Concat(o) = c.v)
    /\ (c.f = "splitChunk" /\ c.k > 0 /\ c.pad # "" /\ c.k < Len(c.v) => Len(o) = c.k /\ \A i, j \in 1..Len(o) : Len(o[i]) - Len(o[j]) \in -1..1)
    /\ (c.f = "move" /\ InRange(Len(c.v), c.from) /\ InRange(Len(c.v), c.to) =>
            LET from == IF c.from < 0 THEN c.from + Len(c.v) ELSE c.from
                to   == IF c.to < 0 THEN c.to + Len(c.v) ELSE c.to
            IN o[to + 1] = c.v[from + 1] /\ SelectSeq(o, LAMBDA e : e # from + 1) = SelectSeq(c.v, LAMBDA e : e # from + 1))
    /\ (c.f \in {"sortByEng", "sortWords", "sortByEngInitials"} => \A i \in 1..Len(c.v) : Count(o, c.v[i]) = Count(c.v, c.v[i]))
=============================================================================
