------------------------------ MODULE Refusals ------------------------------
(* Which arguments the functions that state a condition on their arguments refuse.  A value is a kind with a number or a text; the     *)
(* facts below say what each is, the table Bad(f, a) which of them each function must refuse (a: its arguments, in order).             *)
EXTENDS FuncBase
N(k, n) == [k |-> k, n |-> n, t |-> ""]
Txt(t) == [k |-> "text", n |-> 0, t |-> t]
K(k) == N(k, 0)
Ints == {N("int", n) : n \in -2..6}
Halves == {N("half", n) : n \in {-2, -1, 0, 1, 2}}
Huge == {K("-big"), K("big"), K("safe"), K("-safe"), K("ms"), K("over")}
Numbers == Ints \cup Halves \cup Huge \cup {K("nan"), K("inf"), K("-inf"), K("-0")}
Texts == {Txt(t) : t \in {"", " ", "3", "-1", "2.5", "x", "1e400", "Infinity", "0x10", "3 x"}}
Objects == {K(k) : k \in {"object", "empty array", "array of 1", "date", "map", "instance", "regexp", "bare"}}
Funcs == {K(k) : k \in {"fn/0", "fn/1", "async/0", "async/1", "async arrow", "class", "async generator", "generator", "bound"}}
Others == {K("null"), K("true"), K("false"), K("bigint"), K("symbol")}
Undef == {K("undefined")}
All == Numbers \cup Texts \cup Objects \cup Funcs \cup Others \cup Undef
(* facts *)
Number(v) == v \in Numbers
Finite(v) == Number(v) /\ v.k \notin {"nan", "inf", "-inf"}
Whole(v) == Finite(v) /\ v.k # "half"
Safe(v) == Whole(v) /\ v.k \notin {"-big", "big"}
Negative(v) == v.k \in {"-big", "-safe", "-inf"} \/ (v.k \in {"int", "half"} /\ v.n < 0)   \* half: n + 1/2
Nought(v) == v.k = "-0" \/ (v.k = "int" /\ v.n = 0)
Positive(v) == Number(v) /\ v.k # "nan" /\ ~Negative(v) /\ ~Nought(v)
Uint(v) == Whole(v) /\ ~Negative(v)
Small(v, lo, hi) == (v.k = "int" /\ v.n \in lo..hi) \/ (v.k = "-0" /\ lo <= 0 /\ hi >= 0)
IsUndef(v) == v.k = "undefined"
Sync(v) == v.k \in {"fn/0", "fn/1", "class", "generator", "bound"}
Blank(v) == v.k = "text" /\ v.t \in {"", " "}
NumText(v) == v.k = "text" /\ v.t \in {"3", "-1", "2.5", "0x10"}   \* texts that write a finite number
Index(v, len) == Uint(v) /\ Small(v, 0, len)                         \* a place in a text of that length
Of(f, n) == [f |-> f, n |-> n]
(* ---- what each must refuse ------------------------------------------- *)
BadIds == {Txt(t) : t \in {"", " ", "-1", "2.5", "x", "1e400", "Infinity", "0x10", "3 x", "index ", "Index", "100", "00x", "lastIndex", "indices", "constructor"}}
GoodIds == {Txt(t) : t \in {"3", "0", "10", "99", "index", "input", "groups", "length"}}
Bad(f, a) ==
  CASE f = "toInt" -> Blank(a[1]) \/ (a[1].k = "text" /\ ~NumText(a[1])) \/ (Number(a[1]) /\ ~Finite(a[1]))
    [] f = "inRange" -> ~Number(a[1]) \/ a[1].k = "nan" \/ ~Number(a[2]) \/ a[2].k = "nan" \/ (~IsUndef(a[3]) /\ (~Number(a[3]) \/ a[3].k = "nan"))
    [] f \in {"range", "rangeSafe"} -> ~Safe(a[1]) \/ ~Safe(a[2])
    [] f = "withDelimiter value" -> ~Finite(a[1]) /\ ~NumText(a[1])
    [] f \in {"withDelimiter capacity", "splitByStep", "splitChunk"} -> ~(Whole(a[1]) /\ Positive(a[1]))
    [] f = "splitChunk pad" -> a[1] \notin {Txt("start"), Txt("end")} \cup Undef
    [] f = "array range" -> ~Finite(a[3]) \/ Nought(a[3]) \/ (a[1].n > a[2].n /\ Positive(a[3])) \/ (a[1].n < a[2].n /\ Negative(a[3]))
    [] f = "isMultiDimensional" -> ~IsUndef(a[1]) /\ ~(Whole(a[1]) /\ Positive(a[1]) /\ a[1] # N("int", 1))
    [] f = "toRegExp" -> a[1] \notin {Txt(t) : t \in {"", "g", "i", "m", "u", "y", "gi", "yumig", "migyu"}}
    [] f \in {"notStarts", "startsSlice"} -> ~Index(a[1], 4)
    [] f \in {"word", "wordStart", "wordEnd"} -> ~Uint(a[1])
    [] f \in {"runOnlyNTimes", "runAfterTimes"} -> ~Safe(a[1]) \/ Negative(a[1]) \/ ~Sync(a[2])
    [] f = "timeoutLog" -> ~(Uint(a[1]) /\ a[1].k \notin {"over", "big", "safe"})
    [] f \in {"delay", "delayRun", "timeoutOr", "setTimeout"} -> ~(Safe(a[1]) \/ a[1].k \in {"object", "bare"} \/ NumText(a[1]) \/ Blank(a[1]) \/ a[1].k = "array of 1") \/ a[1].k \in {"over", "safe"} \/ a[1] = Txt("2.5")
    [] f = "createCookie name" -> a[1].k # "text" \/ a[1].t \in {"", "a|line", "wide"}
    [] f = "createCookie encode" -> ~IsUndef(a[1]) /\ a[1].k # "fn/1"
    [] f = "createCookie value" -> a[1].k # "text" \/ a[1].t \in {"", "a|line", "wide"}
    [] f = "parseCookie" -> a[1].k # "text" \/ a[1].t \notin {"a=b", "=", "a=b; c=d", "x; a=b"}
    [] f = "parseSetCookie" -> a[1].t \notin {"a=b", "=", "a=b; c=d"}
    [] f = "sortKeys" -> a[1].k \notin {"object", "empty array", "array of 1"}
    [] f \in {"keys", "values"} -> ~Small(a[1], 0, 3)
    [] f = "execAll" -> (Number(a[1]) /\ ~(Small(a[1], 0, 6))) \/ a[1] \in BadIds
    [] f = "collectItems" -> ~(Whole(a[1]) /\ Positive(a[1])) /\ ~IsUndef(a[1])
    [] f = "splitByBytes" -> ~(Whole(a[1]) /\ Positive(a[1]))
    [] f = "colorCode8bit" -> ~Index(a[1], 255)
    [] f \in {"readline", "readlineFromCode"} -> a[1].k # "text"
    [] f = "readFragment" -> ~(Safe(a[1]) /\ ~Negative(a[1])) \/ ~(Safe(a[2]) /\ ~Negative(a[2]))
    [] f = "destPath" -> \E i \in 1..3 : a[i].k # "text" \/ a[i].t = ""
EvalDef(c) == IF Bad(c.f, c.a) THEN "refused" ELSE "accepted"
One(f, S) == {[f |-> f, a |-> <<v>>] : v \in S}
Falsy == {K("nan"), K("null"), K("false"), Txt(""), N("int", 0), K("-0")}
Objish == Objects \cup Funcs \cup Others
CasesDef == One("toInt", Numbers \cup Texts)
  \cup {[f |-> "inRange", a |-> <<x, y, z>>] : x \in {N("int", 1), K("nan"), K("inf"), Txt("3"), K("null"), K("undefined")}, y \in All, z \in {N("int", 2), K("undefined")}}
  \cup {[f |-> "inRange", a |-> <<N("int", 1), N("half", 2), z>>] : z \in All}
  \cup {[f |-> f, a |-> <<x, y>>] : f \in {"range", "rangeSafe"}, x \in {N("int", 0), N("half", 0), K("-safe")}, y \in All}
  \cup {[f |-> f, a |-> <<y, N("int", 3)>>] : f \in {"range", "rangeSafe"}, y \in All}
  \cup One("withDelimiter value", Numbers \cup (Texts \ {Txt(""), Txt(" "), Txt("0x10")}))
  \cup One("withDelimiter capacity", (All \ Undef) \ {K("ms"), K("over"), K("safe"), K("big")})   \* (a pattern cannot count that far)
  \cup One("splitByStep", All) \cup One("splitChunk", All) \cup One("splitChunk pad", All \cup {Txt("start"), Txt("end"), Txt("Start"), Txt("middle")})
  \cup {[f |-> "array range", a |-> <<N("int", x), N("int", y), z>>] : x \in 0..2, y \in 0..2, z \in All \ Undef}
  \cup One("isMultiDimensional", All)
  \cup One("toRegExp", {Txt(t) : t \in {"", "g", "i", "m", "u", "y", "gi", "yumig", "migyu", "gg", "x", "gx", "xg", "G", " ", "g ", "yumigy", "gimyux", "-", "null"}})
  \cup {[f |-> f, a |-> <<x>>] : f \in {"notStarts", "startsSlice", "word", "wordStart", "wordEnd"}, x \in All \ Undef}
  \cup {[f |-> f, a |-> <<x, K("fn/0")>>] : f \in {"runOnlyNTimes", "runAfterTimes"}, x \in All}
  \cup {[f |-> f, a |-> <<x, y>>] : f \in {"runOnlyNTimes", "runAfterTimes"}, x \in {N("int", 0), N("int", 2)}, y \in All}
  \cup One("timeoutLog", All)
  \cup {[f |-> f, a |-> <<x>>] : f \in {"delay", "delayRun", "timeoutOr", "setTimeout"}, x \in (((All \ Undef) \ Funcs) \ {K("instance"), K("date"), K("map"), K("regexp")}) \ {Txt("1e400")}}
  \cup One("createCookie name", All \cup {Txt("a|line"), Txt("wide")})
  \cup One("createCookie value", All \cup {Txt("a|line"), Txt("wide")})
  \cup One("createCookie encode", (((All \ Funcs) \cup {K("fn/0"), K("fn/1")})))
  \cup One("parseCookie", All \cup {Txt(t) : t \in {"a=b", "=", "a=b; c=d", "x; a=b", "a", "a; b"}})
  \cup One("parseSetCookie", {Txt(t) : t \in {"", " ", "a=b", "=", "a=b; c=d", "x; a=b", "a", "a; b", ";", "secure; a=b"}})
  \cup One("sortKeys", All \ {K("bare")})
  \cup {[f |-> f, a |-> <<x>>] : f \in {"keys", "values"}, x \in All \ Undef}
  \cup One("execAll", (All \ {K("nan"), K("generator"), K("async generator"), K("class"), K("bound")}) \cup BadIds \cup GoodIds)
  \cup One("collectItems", All \ Falsy)
  \cup One("splitByBytes", All \ Undef) \cup One("colorCode8bit", All)
  \cup {[f |-> f, a |-> <<x>>] : f \in {"readline", "readlineFromCode"}, x \in All}
  \cup {[f |-> "readFragment", a |-> <<x, y>>] : x \in (All \ Undef), y \in {N("int", 0), K("-0")}}
  \cup {[f |-> "readFragment", a |-> <<N("int", 0), y>>] : y \in (All \ Undef) \ (({K("ms"), K("over"), K("safe")} \cup {N("int", n) : n \in 1..6}))}
  \cup {[f |-> "destPath", a |-> [i \in 1..3 |-> IF i = j THEN v ELSE Txt("x")]] : j \in 1..3, v \in All}
(* whatever the function, NaN is no count, no place and no duration *)
LawDef(c, o) == (\E i \in 1..Len(c.a) : c.a[i].k = "nan") => o = "refused"
=============================================================================
