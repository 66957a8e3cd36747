-------------------------------- MODULE Utf8 --------------------------------
(* Texts as sequences of 16-bit units; characters, their UTF-8 bytes, cutting by a byte limit, byte counts  *)
(* in words.  A lone surrogate counts as a character of its own and is encoded like U+FFFD.                 *)
EXTENDS FuncBase
CONSTANTS MaxLen, MaxSplit, MaxBig
Hi(u) == u >= 55296 /\ u <= 56319
Lo(u) == u >= 56320 /\ u <= 57343
Pair(t, i) == i < Len(t) /\ Hi(t[i]) /\ Lo(t[i + 1])
\* characters: each a sequence of one or two units
RECURSIVE Chars(_)
Chars(t) == IF t = <<>> THEN <<>> ELSE IF Pair(t, 1) THEN <<<<t[1], t[2]>>>> \o Chars(SubSeq(t, 3, Len(t))) ELSE <<<<t[1]>>>> \o Chars(Tail(t))
Raw(c) == IF Len(c) = 2 THEN (c[1] - 55296) * 1024 + (c[2] - 56320) + 65536 ELSE c[1]
Point(c) == IF Len(c) = 1 /\ (Hi(c[1]) \/ Lo(c[1])) THEN 65533 ELSE Raw(c)
Cont(x) == 128 + (x % 64)
Enc(p) == IF p < 128 THEN <<p>> ELSE IF p < 2048 THEN <<192 + (p \div 64), Cont(p)>>
          ELSE IF p < 65536 THEN <<224 + (p \div 4096), Cont(p \div 64), Cont(p)>>
          ELSE <<240 + (p \div 262144), Cont(p \div 4096), Cont(p \div 64), Cont(p)>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Bytes(t) == LET cs == Chars(t) IN Flat([i \in 1..Len(cs) |-> Enc(Point(cs[i]))])
Size(c) == Len(Enc(Point(c)))
\* pieces filled greedily: a character opens a new piece exactly when it does not fit
RECURSIVE Cut(_, _, _, _, _)
Cut(cs, limit, cur, n, done) ==
  IF cs = <<>> THEN IF cur = <<>> THEN done ELSE Append(done, cur)
  ELSE LET c == Head(cs) IN
       IF cur # <<>> /\ n + Size(c) > limit THEN Cut(Tail(cs), limit, c, Size(c), Append(done, cur))
       ELSE Cut(Tail(cs), limit, cur \o c, n + Size(c), done)
\* byte counts in words: m * base^k, shown with dp decimals in the least unit where the rounded number stays below the base
RECURSIVE Pow(_, _)
Pow(b, n) == IF n <= 0 THEN 1 ELSE b * Pow(b, n - 1)
RoundAt(m, b, e, dp) == LET d == Pow(b, e) IN (2 * m * Pow(10, dp) + d) \div (2 * d)
Tie(m, b, e, dp) == LET d == Pow(b, e) IN (2 * m * Pow(10, dp)) % (2 * d) = d
Unit(m, b, k, dp) == CHOOSE u \in 1..8 : /\ u >= k /\ (u = 8 \/ RoundAt(m, b, u - k, dp) < b * Pow(10, dp))
                                         /\ \A v \in 1..8 : v >= k /\ v < u => RoundAt(m, b, v - k, dp) >= b * Pow(10, dp)
Words(c) == LET b == IF c.si THEN 1000 ELSE 1024 IN
  IF c.k = 0 /\ c.m < b THEN [u |-> 0, w |-> c.m]
  ELSE LET u == Unit(c.m, b, c.k, c.dp) IN [u |-> u, w |-> RoundAt(c.m, b, u - c.k, c.dp)]
\* (numbers exactly between two roundings depend on how the quotient is represented: left out)
WellPosed(c) == LET b == IF c.si THEN 1000 ELSE 1024 IN ~c.si \/ \A u \in 1..2 : ~Tie(c.m, b, u, c.dp)
EvalDef(c) ==
  CASE c.f = "bytes" -> [len |-> Len(Bytes(c.t)), bytes |-> Bytes(c.t)]
    [] c.f = "chars" -> [chars |-> Chars(c.t), joined |-> c.t]
    [] c.f = "at" -> [at |-> [i \in 1..(Len(c.t) + 1) |-> IF i > Len(c.t) THEN 0 - 1 ELSE IF Pair(c.t, i) THEN Raw(<<c.t[i], c.t[i + 1]>>) ELSE c.t[i]]]
    [] c.f = "split" -> IF c.limit = 0 THEN <<>> ELSE Cut(Chars(c.t), c.limit, <<>>, 0, <<>>)
    [] c.f = "words" -> Words(c)
Total(p) == Len(Bytes(p))
LawDef(c, o) ==
  CASE c.f = "bytes" -> /\ o.len = Len(o.bytes) /\ \A i \in 1..o.len : o.bytes[i] \in 0..247
                        /\ o.len <= 3 * Len(c.t) /\ o.len >= Len(c.t)
    [] c.f = "chars" -> Flat(o.chars) = c.t
    [] c.f = "at" -> TRUE
    [] c.f = "split" -> c.limit = 0 \/ (/\ Flat(o) = c.t
                        /\ \A i \in 1..Len(o) : /\ o[i] # <<>>
                                                /\ (Total(o[i]) <= c.limit \/ Len(Chars(o[i])) = 1)
                                                /\ (i = 1 \/ ~Pair(<<o[i-1][Len(o[i-1])], o[i][1]>>, 1))
                                                /\ (i = 1 \/ Total(o[i-1]) + Size(Chars(o[i])[1]) > c.limit))
    [] c.f = "words" -> o.u \in 0..8
Edges == {0, 65, 127, 128, 2047, 2048, 55295, 55296, 56319, 56320, 57343, 57344, 65533, 65535}
Few == {65, 233, 20013, 55357, 56832}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
USpec == ((pc = "call" /\ out = <<>> /\
   \/ \E t \in Seqs(Edges, MaxLen), f \in {"bytes", "at", "chars"} : call = [f |-> f, t |-> t]
   \/ \E t \in Seqs(Few, MaxSplit), l \in 0..9 : call = [f |-> "split", t |-> t, limit |-> l]
   \/ \E m \in 0..MaxBig \cup {1023, 1024, 1025, 999949, 999950, 999951, 999999, 1000000, 1000001, 1048063, 1048064, 1048524, 1048525, 1048575, 1048576}, k \in 0..7, si \in BOOLEAN, dp \in 0..2, neg \in BOOLEAN :
        /\ (k > 0 => m > 0) /\ (m > 1100 => k < 5)
        /\ call = [f |-> "words", m |-> m, k |-> k, si |-> si, dp |-> dp, neg |-> neg] /\ WellPosed(call)))
  /\ [][CNext]_<<pc, call, out>>
CasesDef == {}
=============================================================================
