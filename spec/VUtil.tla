------------------------------- MODULE VUtil -------------------------------
(* Helpers shared by the specifications: emission of graph edges / cases / rejected events as JSON lines. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
EmitE(from, act, to) == PrintT("@E" \o ToJson(<<from, act, to>>))
EmitC(rec)  == PrintT("@C" \o ToJson(rec))
EmitB(rec)  == PrintT("@B" \o ToJson(rec))
Range(f)    == {f[x] : x \in DOMAIN f}
Min(a, b)   == IF a < b THEN a ELSE b
Max(a, b)   == IF a > b THEN a ELSE b
MapSeq(Op(_), q) == [i \in 1..Len(q) |-> Op(q[i])]
Rev(q)      == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Last(q)     == q[Len(q)]
Front(q)    == SubSeq(q, 1, Len(q) - 1)
Drop(q, n)  == SubSeq(q, n + 1, Len(q))
Take(q, n)  == SubSeq(q, 1, Min(n, Len(q)))
Contains(q, x) == \E i \in 1..Len(q) : q[i] = x
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
RECURSIVE FoldL(_, _, _)
FoldL(Op(_, _), acc, q) == IF q = <<>> THEN acc ELSE FoldL(Op, Op(acc, Head(q)), Tail(q))
RECURSIVE Concat(_)
Concat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Concat(Tail(qq))
FilterSeq(q, T(_)) == SelectSeq(q, T)
=============================================================================
