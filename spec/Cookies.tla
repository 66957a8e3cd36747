------------------------------ MODULE Cookies -------------------------------
(* Cookie headers.  Texts are sequences of symbols: "=", ";", " ", ",", "q" (double quote), "n" (newline), other symbols are ordinary characters. *)
EXTENDS FuncBase
CONSTANTS Len1, Len2, Alpha1, Alpha2
Blank == {" ", "n"}
RECURSIVE TrimL(_), TrimR(_)
TrimL(q) == IF q # <<>> /\ Head(q) \in Blank THEN TrimL(Tail(q)) ELSE q
TrimR(q) == IF q # <<>> /\ Last(q) \in Blank THEN TrimR(Front(q)) ELSE q
Trim(q) == TrimL(TrimR(q))
First(q, x) == LET S == {i \in 1..Len(q) : q[i] = x} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A k \in S : m <= k
RECURSIVE SplitAt(_, _)
SplitAt(q, x) == LET i == First(q, x) IN IF i = 0 THEN <<q>> ELSE <<Take(q, i - 1)>> \o SplitAt(Drop(q, i), x)
Has(q, x) == First(q, x) # 0
Unquote(q) == IF Len(q) > 1 /\ q[1] = "q" /\ Last(q) = "q" THEN Trim(SubSeq(q, 2, Len(q) - 1)) ELSE q
(* a cookie header: name=value segments between semicolons; a later value of the same name counts *)
Pairs(q) == LET segs == SelectSeq(SplitAt(q, ";"), LAMBDA s : Has(s, "="))
            IN [i \in 1..Len(segs) |-> LET e == First(segs[i], "=") IN <<Trim(Take(segs[i], e - 1)), Unquote(Trim(Drop(segs[i], e)))>>]
LastWins(ps) == SelectSeq([i \in 1..Len(ps) |-> IF \E k \in 1..(i - 1) : ps[k][1] = ps[i][1] THEN <<>> ELSE <<ps[i][1], ps[CHOOSE k \in 1..Len(ps) : ps[k][1] = ps[i][1] /\ \A m \in (k + 1)..Len(ps) : ps[m][1] # ps[i][1]][2]>>], LAMBDA p : p # <<>>)
(* a combined set-cookie header is cut at the commas that are followed by a new name=; other commas belong to the text *)
NextStop(q, i) == LET S == {k \in i..Len(q) : q[k] \in {"=", ";", ","}} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A k \in S : m <= k
Cut(q, i) == q[i] = "," /\ LET k == NextStop(q, i + 1) IN k # 0 /\ q[k] = "="
RECURSIVE SplitCuts(_, _, _)
SplitCuts(q, from, i) == IF i > Len(q) THEN <<SubSeq(q, from, Len(q))>>
                         ELSE IF Cut(q, i) THEN <<SubSeq(q, from, i - 1)>> \o SplitCuts(q, i + 1, i + 1) ELSE SplitCuts(q, from, i + 1)
(* building: the parts in the documented order, each given attribute once and no other *)
Attr(c, k) == CASE k = "maxAge"  -> (CASE c.maxAge = "no" -> <<>> [] c.maxAge = "10" -> <<"Max-Age=10">> [] c.maxAge = "2.7" -> <<"Max-Age=2">> [] c.maxAge = "0" -> <<"Max-Age=0">> [] c.maxAge = "-1" -> <<"Max-Age=-1">> [] OTHER -> <<"Max-Age=0">>)
                [] k = "domain"  -> IF c.domain = "x.org" THEN <<"Domain=x.org">> ELSE <<>>
                [] k = "path"    -> IF c.path = "/a" THEN <<"Path=/a">> ELSE <<>>
                [] k = "expires" -> IF c.expires = "date" THEN <<"Expires=Wed, 01 Jan 2020 00:00:00 GMT">> ELSE <<>>
                [] k = "httpOnly" -> IF c.httpOnly = "true" THEN <<"HttpOnly">> ELSE <<>>
                [] k = "secure"  -> IF c.secure = "true" THEN <<"Secure">> ELSE <<>>
                [] k = "sameSite" -> (CASE c.sameSite \in {"true", "strict", "STRICT"} -> <<"SameSite=Strict">> [] c.sameSite = "lax" -> <<"SameSite=Lax">> [] c.sameSite = "None" -> <<"SameSite=None">> [] OTHER -> <<>>)
Order == <<"maxAge", "domain", "path", "expires", "httpOnly", "secure", "sameSite">>
Build(c) == CASE c.nv = "bad name" \/ c.nv = "bad value" -> <<"TypeError">>
              [] OTHER -> <<CASE c.nv = "plain" -> "n=v" [] c.nv = "encoded" -> "n=%3D%3B%20%2C%E4%BD%A0" [] c.nv = "own" -> "n=<v>">> \o Concat([i \in 1..7 |-> Attr(c, Order[i])])
(* parsing a set-cookie text: attribute tokens in any order and letter case *)
AttrKey(a) == CASE a = "flagS" -> "secure" [] a = "flagH" -> "httpOnly" [] a = "age" -> "maxAge" [] a = "exp" -> "expires" [] a = "same" -> "sameSite" [] a = "dom" -> "domain" [] a = "path" -> "path" [] a = "flagP" -> "partitioned" [] a = "eq" -> "x"
AttrVal(a) == CASE a \in {"flagS", "flagH"} -> "true" [] a = "age" -> "3600" [] a = "exp" -> "2022-06-07T11:49:38.000Z" [] a = "same" -> "Lax" [] a = "dom" -> ".x.org" [] a = "path" -> "/p%20q" [] a = "flagP" -> "" [] a = "eq" -> "a=b=c%3D"
ByName == <<"dom", "exp", "flagH", "age", "flagP", "path", "same", "flagS", "eq">>     \* by key, alphabetically
ParsedSet(c) == [name |-> "n", value |-> (CASE c.val = "plain" -> "v" [] c.val = "eq" -> "a=b==" [] c.val = "enc" -> (IF c.decode THEN "=;" ELSE "%3D%3B") [] c.val = "bad" -> "%E0%A4%A" [] c.val = "empty" -> ""),
                 attrs |-> Concat([i \in 1..9 |-> IF Contains(c.attrs, ByName[i]) THEN <<<<AttrKey(ByName[i]), AttrVal(ByName[i])>>>> ELSE <<>>])]
(* the characters of a name, a value, a domain and a path: a tab, and everything from the blank to U+00FF except DEL *)
CharOk(n) == n = 9 \/ n \in 32..126 \/ n \in 128..255
TextOk(q) == q # <<>> /\ \A i \in 1..Len(q) : CharOk(q[i])
CharAnswer(c) == CASE TextOk(c.q) -> "kept" [] c.at \in {"name", "value"} -> "TypeError" [] OTHER -> "left out"
(* what cannot be read or joined at all *)
Refusal == [join |-> "EvalError", firstPart |-> "EvalError", notText |-> "TypeError", decoder |-> "TypeError", encoder |-> "TypeError", null |-> "fine"]
JoinNames == <<"n", "k_1", "x">>
Names(c) == [i \in 1..Len(c.names) |-> <<c.names[i], i>>]
EvalDef(c) ==
    CASE c.f = "parse" -> IF ~Has(c.t, "=") THEN "TypeError" ELSE LastWins(Pairs(c.t))
      [] c.f = "split" -> IF c.t = <<>> THEN <<>> ELSE LET p == SplitCuts(c.t, 1, 1) IN [i \in 1..Len(p) |-> Trim(p[i])]
      [] c.f = "create" -> Build(c)
      [] c.f = "parseSet" -> ParsedSet(c)
      [] c.f = "chars" -> CharAnswer(c)
      [] c.f = "setval" -> c.q                 \* whatever the characters: the text behind the first "=" up to the ";", as it stands
      [] c.f = "age" -> c.n
      [] c.f = "join" -> [i \in 1..Len(c.vals) |-> <<JoinNames[i], c.vals[i]>>]
      [] c.f = "refuse" -> Refusal[c.kind]
      [] c.f = "roundtrip" -> c.names          \* join with commas, split, parse, join as a cookie header, parse: every name with its own value
Attrs == {"flagS", "flagH", "age", "exp", "same", "dom", "path", "flagP", "eq", "nm", "vl"}          \* (nm, vl: attributes called name and value, which are none)
NoRep(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
ValCodes == ((33..126) \ {37, 59}) \cup {161, 255, 913, 8364, 20320, 65281}      \* (no percent sign: those are read as escapes)
Codes == 0..300 \cup {383, 913, 4095, 4096, 4105, 4351, 8232, 8233, 12288, 20320, 65279, 65533}
CasesDef ==
    [f : {"parse"}, t : SeqsUpTo(Alpha1, Len1)] \cup [f : {"split"}, t : SeqsUpTo(Alpha2, Len2)]
    \cup [f : {"create"}, nv : {"plain", "encoded", "own", "bad name", "bad value"}, maxAge : {"no", "10", "2.7", "0", "-1", "NaN"}, domain : {"no", "x.org", "bad"}, path : {"no", "/a"}, expires : {"no", "date", "text"},
          httpOnly : {"no", "true", "1"}, secure : {"no", "true", "false"}, sameSite : {"no", "true", "strict", "STRICT", "lax", "None", "bad", "false"}]
    \cup [f : {"chars"}, at : {"name", "value", "domain", "path"}, q : {<<>>} \cup {<<n>> : n \in Codes} \cup {<<97, n>> : n \in Codes} \cup {<<n, 98>> : n \in Codes} \cup {<<97, n, 98>> : n \in Codes}]
    \cup [f : {"setval"}, at : {"value", "path", "domain", "sameSite", "own"}, decode : BOOLEAN, q : {<<n>> : n \in ValCodes} \cup {<<97, n, 98>> : n \in ValCodes \cup {32}} \cup {<<43, 43>>, <<97, 43, 98, 43>>, <<34, 97, 34>>}]
    \cup [f : {"age"}, n : -3..3 \cup {-86400, 10, 59, 86400, 2147483647, -2147483647}]
    \cup [f : {"join"}, vals : UNION {[1..n -> {"", "v", "a=b", "a b", "0", "=", "%3B"}] : n \in 1..3}]
    \cup [f : {"refuse"}, kind : {"join", "firstPart", "notText", "decoder", "encoder", "null"}, nr : 1..6]
    \cup [f : {"parseSet"}, val : {"plain", "eq", "enc", "bad", "empty"}, decode : BOOLEAN, attrs : {q \in SeqsUpTo(Attrs, 3) : NoRep(q)}]
LawDef(c, o) ==
    /\ (c.f = "parse" /\ Has(c.t, "=") => \A i, j \in 1..Len(o) : i # j => o[i][1] # o[j][1])
    (* nothing but separating commas and blanks is lost by a split *)
    /\ (c.f = "split" => SelectSeq(Concat(o), LAMBDA x : x \notin Blank \cup {","}) = SelectSeq(c.t, LAMBDA x : x \notin Blank \cup {","}))
    /\ (c.f = "create" /\ o # <<"TypeError">> => Len(o) = 1 + Cardinality({i \in 1..7 : Attr(c, Order[i]) # <<>>}))
=============================================================================
