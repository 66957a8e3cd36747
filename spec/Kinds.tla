-------------------------------- MODULE Kinds --------------------------------
(* What kind of value is this?  Values are described by how they were made; from that follow their type, tag, *)
(* size, protocols and number range, and from those the answer of every predicate of packages/types.          *)
(* One request gives one value, and the answer lists the predicates that hold, so that the classes are judged *)
(* together: every predicate not listed must be false, and every assertion must throw exactly for those.      *)
EXTENDS FuncBase
CONSTANTS MaxItems, Wide
----------------------------------------------------------------------------
(* numbers: class, sign, the whole part of the magnitude in base 10000, whether there is a fraction *)
Num(s, m, fr) == [k |-> "num", c |-> "fin", s |-> s, m |-> m, fr |-> fr]
NaN == [k |-> "num", c |-> "nan", s |-> 1, m |-> <<>>, fr |-> FALSE]
Inf(s) == [k |-> "num", c |-> "inf", s |-> s, m |-> <<>>, fr |-> FALSE]
RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE Limbs(n \div 10000) \o <<n % 10000>>
IntN(n) == Num(IF n < 0 THEN 0 - 1 ELSE 1, Limbs(IF n < 0 THEN 0 - n ELSE n), FALSE)
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLeq(Tail(a), Tail(b))
MLeq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLeq(a, b)
Fin(v) == v.k = "num" /\ v.c = "fin"
IsInt(v) == Fin(v) /\ ~v.fr
IsZero(v) == IsInt(v) /\ v.m = <<>>
Pos(v) == Fin(v) /\ v.s > 0 /\ (v.m # <<>> \/ v.fr)
Neg(v) == Fin(v) /\ v.s < 0 /\ (v.m # <<>> \/ v.fr)
Within(v, m) == IsInt(v) /\ MLeq(v.m, m)
Between(v, lo, hi) == IsInt(v) /\ (IF Neg(v) THEN MLeq(v.m, lo) ELSE MLeq(v.m, hi))     \* from minus lo to hi
UintUpTo(v, hi) == IsInt(v) /\ ~Neg(v) /\ MLeq(v.m, hi)
Even(v) == IsInt(v) /\ (v.m = <<>> \/ v.m[Len(v.m)] % 2 = 0)
Mod(m, k) == FoldL(LAMBDA a, d : (a * 10000 + d) % k, 0, m)
Small(m) == FoldL(LAMBDA a, d : a * 10000 + d, 0, m)
SAFE == <<9007, 1992, 5474, 991>>
Safe(v) == Within(v, SAFE)
\* (above 2^32 only numbers with a divisor below 2^16 are asked about)
Prime(v) == Pos(v) /\ IsInt(v) /\ v.m # <<1>> /\ IF Len(v.m) <= 2 THEN LET n == Small(v.m) IN \A i \in 2..(IF Len(v.m) = 1 THEN 100 ELSE 10000) : i * i > n \/ n % i # 0
                                               ELSE \A i \in 2..65536 : Mod(v.m, i) # 0
Leap(v) == Pos(v) /\ Safe(v) /\ Mod(v.m, 4) = 0 /\ (Mod(v.m, 100) # 0 \/ Mod(v.m, 400) = 0)
----------------------------------------------------------------------------
Wrapped(v, k) == v.k = k \/ (v.k = "box" /\ v.of.k = k)
Inner(v) == IF v.k = "box" THEN v.of ELSE v
IsStr(v) == Wrapped(v, "str")
TYPED == <<"Int8Array", "Uint8Array", "Uint8ClampedArray", "Int16Array", "Uint16Array", "Int32Array", "Uint32Array", "Float32Array", "Float64Array", "BigInt64Array", "BigUint64Array">>
Typeof(v) == CASE v.k = "prim" -> IF v.p \in {"true", "false"} THEN "boolean" ELSE IF v.p = "null" THEN "object" ELSE v.p
               [] v.k = "num" -> "number" [] v.k = "big" -> "bigint" [] v.k = "str" -> "string" [] v.k = "fn" -> "function" [] OTHER -> "object"
BoxTag(v) == CASE v.k = "num" -> "Number" [] v.k = "big" -> "BigInt" [] v.k = "str" -> "String" [] v.k = "prim" -> IF v.p = "symbol" THEN "Symbol" ELSE "Boolean"
FnTag(s) == CASE s \in {"async", "asyncArrow", "asyncMethod"} -> "AsyncFunction" [] s = "gen" -> "GeneratorFunction" [] s = "asyncGen" -> "AsyncGeneratorFunction" [] OTHER -> "Function"
Tag(v) == CASE v.k = "prim" /\ v.p \in {"undefined", "null"} -> IF v.p = "null" THEN "Null" ELSE "Undefined"
            [] v.k \in {"prim", "num", "big", "str"} -> BoxTag(v)
            [] v.k = "box" -> BoxTag(v.of)
            [] v.k = "arr" -> "Array" [] v.k = "fn" -> FnTag(v.shape) [] v.k = "col" -> v.type
            [] v.k = "buf" -> IF v.type = "Buffer" THEN "Uint8Array" ELSE v.type
            [] v.k = "err" -> IF v.made = "like" THEN "Object" ELSE "Error"
            [] v.k = "own" -> v.type
            [] v.k = "stream" -> "Object"
            [] v.k = "obj" -> IF v.tag # "" THEN v.tag ELSE "Object"
            [] v.k = "like" -> "Object" [] v.k = "desc" -> "Object"
            [] v.k = "then" -> "Object"
Obj(v) == Typeof(v) = "object" /\ ~(v.k = "prim")
Arr(v) == v.k = "arr"
Items(v, P(_)) == Arr(v) /\ Len(v.items) > 0 /\ \A i \in 1..Len(v.items) : v.items[i].k = "hole" \/ P(v.items[i])    \* holes are not visited
IsNumP(v) == v.k = "num" /\ v.c # "nan"
IsNum(v) == Wrapped(v, "num") /\ Inner(v).c # "nan"
IsBig(v) == Wrapped(v, "big")
IsBoolP(v) == v.k = "prim" /\ v.p \in {"true", "false"}
IsBool(v) == IsBoolP(v) \/ (v.k = "box" /\ IsBoolP(v.of))
IsSymP(v) == v.k = "prim" /\ v.p = "symbol"
IsSym(v) == IsSymP(v) \/ (v.k = "box" /\ IsSymP(v.of))
Undef(v) == v.k = "prim" /\ v.p = "undefined"
Null(v) == v.k = "prim" /\ v.p = "null"
Falsy(v) == Undef(v) \/ Null(v) \/ (v.k = "prim" /\ v.p = "false") \/ IsZero(v) \/ (v.k = "num" /\ v.c = "nan") \/ (v.k = "big" /\ v.s = 0) \/ (v.k = "str" /\ v.t = <<>>)
Buf(v) == v.k = "buf" /\ v.type = "Buffer"
Typed(v) == v.k = "buf" /\ Contains(TYPED, v.type)
Fn(v) == v.k = "fn"
Async(v) == Fn(v) /\ FnTag(v.shape) \in {"AsyncFunction", "AsyncGeneratorFunction"}
\* the length a value has, or none (-1)
Length(v) == CASE v.k \in {"str", "box"} -> IF IsStr(v) THEN Len(Inner(v).t) ELSE 0 - 1
               [] v.k = "arr" -> Len(v.items) [] v.k = "fn" -> v.arity [] v.k = "like" -> v.len
               [] v.k = "buf" -> IF Buf(v) \/ Typed(v) THEN v.n ELSE 0 - 1
               [] v.k = "own" -> IF v.type = "Arguments" THEN v.n ELSE 0 - 1
               [] v.k = "obj" -> IF v.has = "length" THEN v.n ELSE 0 - 1
               [] OTHER -> 0 - 1
Size(v) == CASE v.k = "col" -> IF v.type \in {"Map", "Set"} THEN v.n ELSE 0 - 1
             [] v.k = "own" -> IF v.type \in {"Blob", "File", "URLSearchParams"} THEN v.n ELSE 0 - 1
             [] v.k = "obj" -> IF v.has = "size" THEN v.n ELSE 0 - 1
             [] OTHER -> 0 - 1
Err(v, t) == v.k = "err" /\ v.made # "like" /\ v.type = t
Plain(v) == v.k \in {"like", "desc", "then"} \/ (v.k = "err" /\ v.made = "like") \/ (v.k = "obj" /\ v.proto = "Object" /\ v.tag = "")
Props(v, level) == LET o == CASE v.k = "obj" -> <<v.shown + (IF v.has \in {"", "iterator", "asyncIterator"} THEN 0 ELSE 1), v.hidden, v.marks + (IF v.has \in {"iterator", "asyncIterator"} THEN 1 ELSE 0)>> [] v.k = "like" -> <<1 + Cardinality(Range(v.keys)) + v.extra, 0, 0>> [] v.k = "desc" -> <<Len(v.fields), 0, 0>> [] v.k = "then" -> <<1, 0, 0>> [] v.k = "err" -> <<3, 0, 0>> [] v.k = "stream" -> <<9, 9, 9>>
                    IN CASE level = 0 -> o[1] [] level = 1 -> o[1] + o[2] [] level = 2 -> o[3] [] level = 3 -> o[1] + o[2] + o[3]
SyncIter(v) == (v.k \in {"str", "arr"}) \/ (v.k = "box" /\ v.of.k = "str") \/ Buf(v) \/ Typed(v) \/ (v.k = "col" /\ v.type \in {"Map", "Set"})
               \/ (v.k = "own" /\ v.type \in {"Arguments", "Generator", "Map Iterator", "URLSearchParams", "FormData"}) \/ (v.k = "obj" /\ v.has = "iterator")
AsyncIter(v) == (v.k = "own" /\ v.type = "AsyncGenerator") \/ (v.k = "obj" /\ v.has = "asyncIterator") \/ (v.k = "stream" /\ v.type \in {"Readable", "Duplex", "Transform"})
Next(v) == (v.k = "own" /\ v.type \in {"Generator", "AsyncGenerator", "Map Iterator"}) \/ (v.k = "obj" /\ v.has = "next")
Then(v) == v.k = "then" \/ (v.k = "own" /\ v.type = "Promise") \/ (v.k = "obj" /\ v.has = "then") \/ (Fn(v) /\ v.odd = "then")
Readable(v) == v.k = "stream" /\ v.type \in {"Readable", "Duplex", "Transform"} /\ v.rd
Writable(v) == v.k = "stream" /\ v.type \in {"Writable", "Duplex", "Transform"} /\ v.wr
Blank(c) == c \in {32, 9, 10, 13, 160, 65279, 12288}
RECURSIVE TrimL(_)
TrimL(t) == IF t # <<>> /\ Blank(Head(t)) THEN TrimL(Tail(t)) ELSE t
Trim(t) == Rev(TrimL(Rev(TrimL(t))))
Letter(c) == c \in 97..122 \/ c \in 65..90 \/ c \in {36, 95, 233, 20013}
Word(t) == t # <<>> /\ Letter(t[1]) /\ \A i \in 2..Len(t) : Letter(t[i]) \/ t[i] \in 48..57
Reserved == {<<105, 102>>, <<118, 97, 114>>, <<110, 101, 119>>, <<116, 104, 105, 115>>, <<110, 117, 108, 108>>, <<99, 108, 97, 115, 115>>}
Descriptor(v, extra) ==
  v.k = "desc" /\ LET f == v.fields Has(n) == \E i \in 1..Len(f) : f[i][1] = n
                      Ok(n) == \E i \in 1..Len(f) : f[i][1] = n /\ f[i][2]
                      accessor == (Has("get") /\ Ok("get")) \/ (Has("set") /\ Ok("set")) IN
    /\ Has("value") # accessor                                          \* a value or a getter or setter, not both
    /\ \A i \in 1..Len(f) : (f[i][1] \in {"configurable", "enumerable", "writable"} => f[i][2]) /\ (f[i][1] = "x" => extra)
\* the objects found under constructors as their prototype
IsProto(v) == v.k = "obj" /\ v.proto = "prototype"
----------------------------------------------------------------------------
P(n, v) ==
  CASE n = "isArray" -> Arr(v) [] n = "isArrayFilled" -> Arr(v) /\ Len(v.items) > 0
    [] n = "isArrayIndex" -> UintUpTo(v, <<42, 9496, 7295>>)
    [] n = "isArrayLike" -> Obj(v) /\ ~Arr(v) /\ Length(v) >= 0
    [] n = "isArrayLikeFilled" -> Obj(v) /\ ~Arr(v) /\ Length(v) > 0
    [] n = "isArraySparse" -> Arr(v) /\ \E i \in 1..Len(v.items) : v.items[i].k = "hole"
    [] n = "isArrayTwoDimensional" -> Items(v, Arr)
    [] n = "isBigInt" -> IsBig(v) [] n = "isBigIntArray" -> Items(v, IsBig) [] n = "isBigIntFilled" -> IsBig(v) /\ Inner(v).s > 0
    [] n = "isBigIntObject" -> v.k = "box" /\ v.of.k = "big" [] n = "isBigIntPrimitive" -> v.k = "big"
    [] n = "isBoolean" -> IsBool(v) [] n = "isBooleanArray" -> Items(v, IsBool) [] n = "isBooleanObject" -> v.k = "box" /\ IsBool(v) [] n = "isBooleanPrimitive" -> IsBoolP(v)
    [] n = "isFalse" -> v.k = "prim" /\ v.p = "false" [] n = "isTrue" -> v.k = "prim" /\ v.p = "true"
    [] n = "isArrayBuffer" -> Tag(v) = "ArrayBuffer" [] n = "isSharedArrayBuffer" -> Tag(v) = "SharedArrayBuffer" [] n = "isDataView" -> Tag(v) = "DataView"
    [] n = "isArrayBufferView" -> Typed(v) \/ Tag(v) = "DataView" [] n = "isTypedArray" -> Typed(v)
    [] n = "isBuffer" -> Buf(v) [] n = "isBufferArray" -> Items(v, Buf) [] n = "isBufferFilled" -> Buf(v) /\ v.n > 0
    [] n = "isInt8Array" -> v.k = "buf" /\ v.type = "Int8Array" [] n = "isUint8Array" -> v.k = "buf" /\ v.type = "Uint8Array" [] n = "isUint8ClampedArray" -> v.k = "buf" /\ v.type = "Uint8ClampedArray"
    [] n = "isInt16Array" -> v.k = "buf" /\ v.type = "Int16Array" [] n = "isUint16Array" -> v.k = "buf" /\ v.type = "Uint16Array"
    [] n = "isInt32Array" -> v.k = "buf" /\ v.type = "Int32Array" [] n = "isUint32Array" -> v.k = "buf" /\ v.type = "Uint32Array"
    [] n = "isFloat32Array" -> v.k = "buf" /\ v.type = "Float32Array" [] n = "isFloat64Array" -> v.k = "buf" /\ v.type = "Float64Array"
    [] n = "isBigInt64Array" -> v.k = "buf" /\ v.type = "BigInt64Array" [] n = "isBigUint64Array" -> v.k = "buf" /\ v.type = "BigUint64Array"
    [] n \in {"isMap", "isSet", "isWeakMap", "isWeakSet", "isWeakRef"} -> v.k = "col" /\ n = (CASE v.type = "Map" -> "isMap" [] v.type = "Set" -> "isSet" [] v.type = "WeakMap" -> "isWeakMap" [] v.type = "WeakSet" -> "isWeakSet" [] v.type = "WeakRef" -> "isWeakRef")
    [] n = "isMapFilled" -> v.k = "col" /\ v.type = "Map" /\ v.n > 0 [] n = "isSetFilled" -> v.k = "col" /\ v.type = "Set" /\ v.n > 0
    [] n = "isDate" -> Tag(v) = "Date" [] n = "isLeapYear" -> Leap(v)
    [] n \in {"isDocument", "isElement", "isHTMLElement", "isNodeList", "isTextNode", "isWindow", "isFileList", "isFileReader"} -> FALSE     \* (there is no document here)
    [] n = "isReactElement" -> v.k = "obj" /\ v.has = "react"
    [] n = "isAnyError" -> (v.k = "err" /\ v.made # "like") \/ (v.k = "own" /\ v.type = "DOMException") [] n = "isError" -> Err(v, "Error") [] n = "isAggregateError" -> Err(v, "AggregateError") [] n = "isEvalError" -> Err(v, "EvalError") [] n = "isRangeError" -> Err(v, "RangeError")
    [] n = "isReferenceError" -> Err(v, "ReferenceError") [] n = "isSyntaxError" -> Err(v, "SyntaxError") [] n = "isTypeError" -> Err(v, "TypeError") [] n = "isURIError" -> Err(v, "URIError")
    [] n = "isErrorLike" -> v.k = "err" \/ (v.k = "own" /\ v.type = "DOMException") [] n = "isDOMException" -> Tag(v) = "DOMException"
    [] n = "isEvent" -> Tag(v) = "Event" [] n = "isBlob" -> Tag(v) = "Blob" [] n = "isFile" -> Tag(v) = "File" [] n = "isFormData" -> Tag(v) = "FormData"
    [] n = "isURL" -> Tag(v) = "URL" [] n = "isURLSearchParams" -> Tag(v) = "URLSearchParams" [] n = "isRegExp" -> Tag(v) = "RegExp" [] n = "isPromise" -> Tag(v) = "Promise"
    [] n = "isArguments" -> Tag(v) = "Arguments"
    [] n = "isFunction" -> Fn(v) [] n = "isFunctionFilled" -> Fn(v) /\ v.arity > 0 [] n = "isFunctionArray" -> Items(v, Fn)
    [] n = "isAsyncFunction" -> Async(v) [] n = "isAsyncFunctionFilled" -> Async(v) /\ v.arity > 0 [] n = "isSyncFunction" -> Fn(v) /\ ~Async(v) [] n = "isSyncFunctionFilled" -> Fn(v) /\ ~Async(v) /\ v.arity > 0
    [] n = "isClass" -> Fn(v) /\ v.shape = "class" [] n = "isFunctionBound" -> Fn(v) /\ v.shape = "bound" [] n = "isNativeFunction" -> Fn(v) /\ v.shape \in {"native", "nativeClass", "nativeOdd", "nativeGet"}
    [] n = "isSyncGeneratorFunction" -> Fn(v) /\ v.shape = "gen" [] n = "isAsyncGeneratorFunction" -> Fn(v) /\ v.shape = "asyncGen" [] n = "isGeneratorFunction" -> Fn(v) /\ v.shape \in {"gen", "asyncGen"}
    [] n = "isSyncGenerator" -> Tag(v) = "Generator" [] n = "isAsyncGenerator" -> Tag(v) = "AsyncGenerator" [] n = "isGenerator" -> Tag(v) \in {"Generator", "AsyncGenerator"}
    [] n = "isSyncIterable" -> SyncIter(v) [] n = "isAsyncIterable" -> AsyncIter(v) [] n = "isIterable" -> SyncIter(v) \/ AsyncIter(v) [] n = "isIterator" -> Next(v)
    [] n = "isNull" -> Null(v) [] n = "isNullArray" -> Items(v, Null) [] n = "isUndefined" -> Undef(v) [] n = "isUndefinedArray" -> Items(v, Undef)
    [] n = "isNullOrUndefined" -> Null(v) \/ Undef(v) [] n = "isNullOrUndefinedArray" -> Items(v, LAMBDA x : Null(x) \/ Undef(x))
    [] n = "isFinite" -> Fin(v) [] n = "isNumberSafe" -> Fin(v) [] n = "isInfinity" -> v.k = "num" /\ v.c = "inf" [] n = "isInfinityPositive" -> v.k = "num" /\ v.c = "inf" /\ v.s > 0 [] n = "isInfinityNegative" -> v.k = "num" /\ v.c = "inf" /\ v.s < 0
    [] n = "isNaN" -> v.k = "num" /\ v.c = "nan" [] n = "isNumber" -> IsNum(v) [] n = "isNumberPrimitive" -> IsNumP(v) [] n = "isNumberObject" -> v.k = "box" /\ IsNum(v) [] n = "isNumberArray" -> Items(v, IsNum)
    [] n = "isNumberFilled" -> Pos(v) \/ Neg(v) [] n = "isNumberPositive" -> Pos(v) [] n = "isNumberNegative" -> Neg(v) [] n = "isZero" -> IsZero(v) [] n = "isPrimeNumber" -> Prime(v)
    [] n = "isFloat" -> Fin(v) /\ v.fr [] n = "isUFloat" -> Pos(v) /\ v.fr [] n = "isFloat16" -> Fin(v) /\ v.fr /\ MLeq(v.m, <<6, 5503>>) [] n = "isFloat32" -> Fin(v) /\ v.fr [] n = "isFloat64" -> Fin(v) /\ v.fr
    [] n = "isFloat16SafeInt" -> Within(v, <<2047>>) [] n = "isFloat32SafeInt" -> Within(v, <<1677, 7215>>) [] n = "isFloat64SafeInt" -> Safe(v)
    [] n = "isInt" -> IsInt(v) [] n = "isInt8" -> Between(v, <<128>>, <<127>>) [] n = "isInt16" -> Between(v, <<3, 2768>>, <<3, 2767>>) [] n = "isInt32" -> Between(v, <<21, 4748, 3648>>, <<21, 4748, 3647>>)
    [] n = "isUint" -> IsInt(v) /\ ~Neg(v) [] n = "isUint8" -> UintUpTo(v, <<255>>) [] n = "isUint16" -> UintUpTo(v, <<6, 5535>>) [] n = "isUint32" -> UintUpTo(v, <<42, 9496, 7295>>) [] n = "isTimeoutMs" -> UintUpTo(v, <<21, 4748, 3647>>)
    [] n = "isUintFilled" -> IsInt(v) /\ Pos(v) [] n = "isUintSafe" -> Safe(v) /\ ~Neg(v) [] n = "isUintSafeFilled" -> Safe(v) /\ Pos(v) [] n = "isIntSafe" -> Safe(v) [] n = "isIntEven" -> Even(v) [] n = "isIntOdd" -> IsInt(v) /\ ~Even(v)
    [] n = "isObject" -> Tag(v) = "Object" [] n = "isObjectArray" -> Items(v, LAMBDA x : Tag(x) = "Object") [] n = "isObjectFilled" -> Tag(v) = "Object" /\ Props(v, 0) > 0
    [] n = "isPlainObject" -> Plain(v) [] n = "isPlainObjectFilled" -> Plain(v) /\ Props(v, 0) > 0 [] n = "isPureObject" -> v.k = "obj" /\ v.proto = "null" /\ v.tag = "" /\ v.has # "iterator"
    [] n = "isTypeofObject" -> Obj(v) [] n = "isTypeofObjectArray" -> Items(v, Obj)
    [] n = "isFalsy" -> Falsy(v) [] n = "isFalsyArray" -> Items(v, Falsy) [] n = "isTruthy" -> ~Falsy(v) [] n = "isTruthyArray" -> Items(v, LAMBDA x : ~Falsy(x)) [] n = "isPrimitive" -> v.k \in {"prim", "num", "big", "str"}
    [] n = "isPromiseLike" -> Then(v) [] n = "isLengthy" -> Length(v) >= 0 [] n = "isLengthyFilled" -> Length(v) > 0 [] n = "isSizey" -> Size(v) >= 0 [] n = "isSizeyFilled" -> Size(v) > 0
    [] n = "isPropertyKey" -> IsStr(v) \/ Wrapped(v, "num") \/ IsSym(v) [] n = "isPropertyDescriptor" -> Descriptor(v, TRUE) [] n = "isPrototype" -> IsProto(v)
    [] n = "isStream" -> v.k = "stream" [] n = "isReadable" -> Readable(v) [] n = "isWritable" -> Writable(v) [] n = "isDuplex" -> Readable(v) /\ Writable(v) [] n = "isTransform" -> v.k = "stream" /\ v.type = "Transform" /\ v.rd /\ v.wr
    [] n = "isString" -> IsStr(v) [] n = "isStringPrimitive" -> v.k = "str" [] n = "isStringObject" -> v.k = "box" /\ v.of.k = "str" [] n = "isStringArray" -> Items(v, IsStr) [] n = "isStringFilled" -> IsStr(v) /\ Inner(v).t # <<>>
    [] n = "isStringTrim" -> IsStr(v) /\ Trim(Inner(v).t) # <<>> [] n = "isChar" -> IsStr(v) /\ Len(Inner(v).t) = 1
    [] n = "isSymbol" -> IsSym(v) [] n = "isSymbolPrimitive" -> IsSymP(v) [] n = "isSymbolObject" -> v.k = "box" /\ IsSym(v) [] n = "isSymbolArray" -> Items(v, IsSym)
    [] n = "isVarName" -> v.k = "str" /\ Word(v.t) /\ v.t \notin Reserved
NAMES == <<"isArray", "isArrayFilled", "isArrayIndex", "isArrayLike", "isArrayLikeFilled", "isArraySparse", "isArrayTwoDimensional", "isBigInt", "isBigIntArray", "isBigIntFilled", "isBigIntObject", "isBigIntPrimitive", "isBoolean", "isBooleanArray", "isBooleanObject", "isBooleanPrimitive", "isFalse", "isTrue", "isArrayBuffer", "isSharedArrayBuffer", "isDataView", "isArrayBufferView", "isTypedArray", "isBuffer", "isBufferArray", "isBufferFilled", "isInt8Array", "isUint8Array", "isUint8ClampedArray", "isInt16Array", "isUint16Array", "isInt32Array", "isUint32Array", "isFloat32Array", "isFloat64Array", "isBigInt64Array", "isBigUint64Array", "isMap", "isSet", "isWeakMap", "isWeakSet", "isWeakRef", "isMapFilled", "isSetFilled", "isDate", "isLeapYear", "isDocument", "isElement", "isHTMLElement", "isNodeList", "isTextNode", "isWindow", "isFileList", "isFileReader", "isReactElement", "isAnyError", "isError", "isAggregateError", "isEvalError", "isRangeError", "isReferenceError", "isSyntaxError", "isTypeError", "isURIError", "isErrorLike", "isDOMException", "isEvent", "isBlob", "isFile", "isFormData", "isURL", "isURLSearchParams", "isRegExp", "isPromise", "isArguments", "isFunction", "isFunctionFilled", "isFunctionArray", "isAsyncFunction", "isAsyncFunctionFilled", "isSyncFunction", "isSyncFunctionFilled", "isClass", "isFunctionBound", "isNativeFunction", "isSyncGeneratorFunction", "isAsyncGeneratorFunction", "isGeneratorFunction", "isSyncGenerator", "isAsyncGenerator", "isGenerator", "isSyncIterable", "isAsyncIterable", "isIterable", "isIterator", "isNull", "isNullArray", "isUndefined", "isUndefinedArray", "isNullOrUndefined", "isNullOrUndefinedArray", "isFinite", "isNumberSafe", "isInfinity", "isInfinityPositive", "isInfinityNegative", "isNaN", "isNumber", "isNumberPrimitive", "isNumberObject", "isNumberArray", "isNumberFilled", "isNumberPositive", "isNumberNegative", "isZero", "isPrimeNumber", "isFloat", "isUFloat", "isFloat16", "isFloat32", "isFloat64", "isFloat16SafeInt", "isFloat32SafeInt", "isFloat64SafeInt", "isInt", "isInt8", "isInt16", "isInt32", "isUint", "isUint8", "isUint16", "isUint32", "isTimeoutMs", "isUintFilled", "isUintSafe", "isUintSafeFilled", "isIntSafe", "isIntEven", "isIntOdd", "isObject", "isObjectArray", "isObjectFilled", "isPlainObject", "isPlainObjectFilled", "isPureObject", "isTypeofObject", "isTypeofObjectArray", "isFalsy", "isFalsyArray", "isTruthy", "isTruthyArray", "isPrimitive", "isPromiseLike", "isLengthy", "isLengthyFilled", "isSizey", "isSizeyFilled", "isPropertyKey", "isPropertyDescriptor", "isPrototype", "isStream", "isReadable", "isWritable", "isDuplex", "isTransform", "isString", "isStringPrimitive", "isStringObject", "isStringArray", "isStringFilled", "isStringTrim", "isChar", "isSymbol", "isSymbolPrimitive", "isSymbolObject", "isSymbolArray", "isVarName">>
----------------------------------------------------------------------------
(* predicates that take more than the value *)
\* similar: 0 any length will do, 1 as many indexes as the length says, 2 and nothing else
LikeArray(v, similar, sparse) ==
  IF ~(Obj(v) /\ ~Arr(v) /\ Length(v) >= 0) THEN FALSE
  ELSE IF similar = 0 THEN TRUE
  ELSE LET keys == IF v.k = "like" THEN Range(v.keys) ELSE IF v.k = "obj" THEN {} ELSE 0..(Length(v) - 1)
           n == Cardinality(keys)
           \* the shown keys of a text, a typed array or arguments do not contain their length
           others == IF v.k = "like" THEN v.extra + 1 ELSE IF v.k = "obj" THEN Props(v, 0) ELSE 0 IN
       /\ (sparse \/ keys = 0..(n - 1)) /\ n = Length(v) /\ (similar = 1 \/ n + others = Length(v) + 1)
\* what a value becomes as a number; "no" where there is none
RECURSIVE AsNumber(_)
AsNumber(v) == CASE Undef(v) -> <<NaN>> [] Null(v) -> <<IntN(0)>> [] IsSym(v) -> <<>> [] IsBool(v) -> <<IntN(IF Inner(v).p = "true" THEN 1 ELSE 0)>>
                 [] Wrapped(v, "num") -> <<Inner(v)>> [] IsBig(v) -> <<IntN(Inner(v).s)>>
                 [] IsStr(v) -> LET t == Trim(Inner(v).t) IN IF t = <<>> THEN <<IntN(0)>> ELSE IF \A i \in 1..Len(t) : t[i] \in 48..57 THEN <<IntN(FoldL(LAMBDA a, d : a * 10 + d - 48, 0, t))>> ELSE <<NaN>>
                 [] Arr(v) -> IF v.items = <<>> THEN <<IntN(0)>> ELSE IF Len(v.items) > 1 THEN <<NaN>> ELSE IF v.items[1].k = "num" THEN <<v.items[1]>> ELSE IF v.items[1].k = "hole" \/ Null(v.items[1]) \/ Undef(v.items[1]) THEN <<IntN(0)>> ELSE IF v.items[1].k = "str" THEN AsNumber(v.items[1]) ELSE <<>>
                 [] v.k = "obj" /\ v.proto = "null" -> <<>>
                 [] OTHER -> <<NaN>>
\* converting without saying so is refused for big integers
Implied(v) == IF IsBig(v) THEN <<>> ELSE AsNumber(v)
ValidNumber(v, o) == LET n == AsNumber(v) IN
  /\ IF o.implicit THEN ~Undef(v) ELSE (Wrapped(v, "num") /\ (o.nan \/ Inner(v).c # "nan")) \/ (IsStr(v) /\ (o.empty \/ Trim(Inner(v).t) # <<>>))
  /\ n # <<>> /\ (o.nan \/ n[1].c # "nan") /\ (o.inf \/ n[1].c # "inf")
DAYS == <<8640, 0, 0, 0>>
ValidDate(v) == IF v.k = "own" /\ v.type = "Date" THEN v.n = 1 ELSE ~Undef(v) /\ LET n == AsNumber(v) IN n # <<>> /\ n[1].c = "fin" /\ MLeq(n[1].m, DAYS) /\ (n[1].m # DAYS \/ ~n[1].fr)
Same(a, b) == a.v = b.v /\ (a.id = b.id \/ a.v.k \in {"num", "big", "str"} \/ (a.v.k = "prim" /\ a.v.p # "symbol"))
SameZ(a, b) == IF IsZero(a.v) THEN IsZero(b.v) ELSE Same(a, b)
Yes(p, v) == P(p, v)
Ask(c) ==
  CASE c.p = "isArrayLike" -> LikeArray(c.v, c.similar, c.sparse)
    [] c.p \in {"isNumber", "isNumberPrimitive", "isNumberObject"} -> Wrapped(c.v, "num") /\ (c.p = "isNumber" \/ (c.p = "isNumberObject") = (c.v.k = "box")) /\ (c.nan \/ Inner(c.v).c # "nan")
    [] c.p = "isNumberArray" -> Items(c.v, LAMBDA x : Wrapped(x, "num") /\ (c.nan \/ Inner(x).c # "nan"))
    [] c.p = "isNumberValid" -> ValidNumber(c.v, c.o)
    [] c.p = "isFinite" -> IF c.implied THEN Implied(c.v) # <<>> /\ Implied(c.v)[1].c = "fin" ELSE Fin(c.v)
    [] c.p = "isNaN" -> IF c.implied THEN Implied(c.v) # <<>> /\ Implied(c.v)[1].c = "nan" ELSE P("isNaN", c.v)
    [] c.p = "isDateValid" -> IF c.v.k = "str" THEN FALSE ELSE ValidDate(c.v)     \* (only texts without a date are asked about)
    [] c.p = "isObjectFilled" -> Tag(c.v) = "Object" /\ Props(c.v, c.level) > 0
    [] c.p = "isPlainObjectFilled" -> Plain(c.v) /\ Props(c.v, c.level) > 0
    [] c.p = "isPropertyDescriptor" -> Descriptor(c.v, c.extra)
    [] c.p = "isStringTrim" -> IsStr(c.v) /\ Len(Trim(Inner(c.v).t)) > c.n
    [] c.p = "getTagEqual" -> Tag(c.v) = c.t [] c.p = "typeofEqual" -> Typeof(c.v) = c.t
    [] c.p = "isSameError" -> c.v.k = "err" /\ c.v.made # "like" /\ c.v.shown = c.t /\ c.v.msg = c.m
    [] c.p = "isEqual" -> c.others # <<>> /\ \A i \in 1..Len(c.others) : SameZ(c.first, c.others[i])
    [] c.p = "isNotEqual" -> c.others # <<>> /\ \A i \in 1..Len(c.others) : ~SameZ(c.first, c.others[i])
    [] c.p = "isEvery" -> \A i \in 1..Len(c.vs), j \in 1..Len(c.ps) : Yes(c.ps[j], c.vs[i])
    [] c.p = "isSome" -> \E i \in 1..Len(c.vs) : \A j \in 1..Len(c.ps) : Yes(c.ps[j], c.vs[i])
\* objects one above the other, each with some keys of its own: own, present at all, above another
Chain(c) == <<Contains(c.keys[c.i], c.key), \E j \in 1..c.i : Contains(c.keys[j], c.key), c.j < c.i>>
EvalDef(c) == IF c.f = "chain" THEN Chain(c) ELSE IF c.f = "all" THEN SelectSeq(NAMES, LAMBDA n : P(n, c.v)) ELSE Ask(c)
Has(o, n) == Contains(o, n)
LawDef(c, o) ==
  c.f = "all" => /\ Has(o, "isTruthy") # Has(o, "isFalsy")
                 /\ (Has(o, "isPrimitive") # (Has(o, "isTypeofObject") \/ Has(o, "isFunction")))
                 /\ Cardinality({n \in {"isInt8Array", "isUint8Array", "isUint8ClampedArray", "isInt16Array", "isBuffer", "isDataView"} : Has(o, n)}) <= 1
                 /\ (Has(o, "isUint8") => Has(o, "isUint16")) /\ (Has(o, "isInt8") => Has(o, "isInt16")) /\ (Has(o, "isUint16") => Has(o, "isUint32"))
                 /\ (Has(o, "isInt") => Has(o, "isIntEven") # Has(o, "isIntOdd")) /\ (Has(o, "isFinite") => Has(o, "isInt") # Has(o, "isFloat"))
                 /\ (Has(o, "isNumberPrimitive") => Has(o, "isFinite") # Has(o, "isInfinity"))
                 /\ (Has(o, "isPlainObject") => Has(o, "isObject")) /\ ~(Has(o, "isPlainObject") /\ Has(o, "isPureObject"))
                 /\ (Has(o, "isFunction") => Has(o, "isAsyncFunction") # Has(o, "isSyncFunction"))
----------------------------------------------------------------------------
Prims == {[k |-> "prim", p |-> p] : p \in {"undefined", "null", "true", "false", "symbol"}}
Edge == {<<127>>, <<128>>, <<129>>, <<255>>, <<256>>, <<2047>>, <<2048>>, <<3, 2766>>, <<3, 2767>>, <<3, 2768>>, <<3, 2769>>, <<6, 5503>>, <<6, 5504>>, <<6, 5505>>, <<6, 5535>>, <<6, 5536>>, <<1677, 7215>>, <<1677, 7216>>,
         <<21, 4748, 3646>>, <<21, 4748, 3647>>, <<21, 4748, 3648>>, <<21, 4748, 3649>>, <<42, 9496, 7294>>, <<42, 9496, 7295>>, <<42, 9496, 7296>>, <<9007, 1992, 5474, 990>>, SAFE, <<9007, 1992, 5474, 992>>, <<1, 0, 0, 0, 0, 0>>, DAYS, <<8640, 0, 0, 2>>}
Nums == {IntN(n) : n \in (0 - 20)..420} \cup {Num(s, <<>>, fr) : s \in {0 - 1, 1}, fr \in BOOLEAN} \cup {Num(s, m, FALSE) : s \in {0 - 1, 1}, m \in Edge} \cup {Num(s, m, TRUE) : s \in {0 - 1, 1}, m \in {x \in Edge : MLeq(x, <<1, 0, 0, 0>>)}} \cup {IntN(n) : n \in {1900, 2000, 2024, 2023, 2100, 2400, 7919, 7917, 10007, 10001}} \cup {NaN, Inf(1), Inf(0 - 1)}
Bigs == {[k |-> "big", s |-> s] : s \in {0 - 1, 0, 1}}
Texts == {<<>>, <<97>>, <<32>>, <<97, 98>>, <<32, 97, 32>>, <<32, 32>>, <<49, 50>>, <<32, 55, 32>>, <<55357, 56832>>, <<97, 49>>, <<49, 97>>, <<36, 95>>, <<97, 45, 98>>, <<97, 61, 49>>, <<97, 44, 98>>, <<97, 59>>, <<123, 97, 125>>, <<20013>>, <<233, 97>>, <<97, 47, 42, 42, 47>>, <<97, 10, 61, 98>>, <<160, 97>>, <<12288>>} \cup Reserved
Strs == {[k |-> "str", t |-> t] : t \in Texts}
Box(x) == [k |-> "box", of |-> x]
Boxes == {Box(x) : x \in {y \in Prims : y.p \in {"true", "false", "symbol"}} \cup {IntN(0), IntN(7), IntN(0 - 1), NaN, Inf(1), Num(1, <<1>>, TRUE)} \cup Bigs \cup {[k |-> "str", t |-> t] : t \in {<<>>, <<97>>, <<97, 98>>, <<32>>, <<49, 50>>}}}
F(shape, n, odd) == [k |-> "fn", shape |-> shape, arity |-> n, odd |-> odd]
Fns == {F(s, n, "") : s \in {"plain", "arrow", "method", "async", "asyncArrow", "asyncMethod", "gen", "asyncGen", "class"}, n \in 0..2} \cup {F(s, n, "") : s \in {"bound"}, n \in 0..2} \cup {F("native", n, "") : n \in 0..2} \cup {F("nativeClass", 0, ""), F("nativeOdd", 1, ""), F("nativeOdd", 2, ""), F("nativeGet", 0, "")}
   \cup {F(s, n, o) : s \in {"plain", "class"}, n \in {0, 1}, o \in {"name5", "nameBad", "then", "text"}} \cup {F("method", 0, o) : o \in {"class", "paren", "bracket"}}
Cols == {[k |-> "col", type |-> t, n |-> n] : t \in {"Map", "Set", "WeakMap", "WeakSet"}, n \in 0..1} \cup {[k |-> "col", type |-> "WeakRef", n |-> 0]}
Bufs == {[k |-> "buf", type |-> t, n |-> n] : t \in Range(TYPED) \cup {"Buffer", "ArrayBuffer", "SharedArrayBuffer", "DataView"}, n \in 0..2}
ErrTypes == {"Error", "AggregateError", "EvalError", "RangeError", "ReferenceError", "SyntaxError", "TypeError", "URIError"}
Errs == {[k |-> "err", type |-> t, made |-> m, shown |-> t, msg |-> <<>>] : t \in ErrTypes, m \in {"new", "sub"}} \cup {[k |-> "err", type |-> t, made |-> "named", shown |-> "Mine", msg |-> <<97>>] : t \in ErrTypes} \cup {[k |-> "err", type |-> "Error", made |-> "like", shown |-> "Error", msg |-> x] : x \in {<<>>, <<97>>}} \cup {[k |-> "err", type |-> t, made |-> "new", shown |-> t, msg |-> <<97>>] : t \in ErrTypes}
Owns == {[k |-> "own", type |-> t, n |-> n] : t \in {"Date", "RegExp", "Promise", "Arguments", "Generator", "AsyncGenerator", "Map Iterator", "URL", "URLSearchParams", "Blob", "File", "FormData", "Event", "DOMException"}, n \in 0..1}
Streams == {[k |-> "stream", type |-> t, rd |-> r, wr |-> w] : t \in {"Readable", "Writable", "Duplex", "Transform", "Stream"}, r \in BOOLEAN, w \in BOOLEAN}
StreamOK(s) == (s.type \in {"Readable", "Stream"} => ~s.wr) /\ (s.type \in {"Writable", "Stream"} => ~s.rd)
O(proto, has, n, shown, hidden, marks, tag) == [k |-> "obj", proto |-> proto, has |-> has, n |-> n, shown |-> shown, hidden |-> hidden, marks |-> marks, tag |-> tag]
Objs == {O(p, h, 2, s, hi, m, "") : p \in {"Object", "null", "class", "inherit"}, h \in {"", "length", "size", "then", "next", "iterator", "asyncIterator", "react"}, s \in 0..1, hi \in 0..1, m \in 0..1}
   \cup {O("Object", h, n, 0, 0, 0, "") : h \in {"length", "size"}, n \in 0..1} \cup {O(p, "", 0, 0, 0, 1, "Thing") : p \in {"Object", "null", "class"}} \cup {O("prototype", "", n, 0, 0, 0, "") : n \in 0..2} \cup {O(p, "badLength", n, 0, 0, 0, "") : p \in {"Object"}, n \in 0..4}
Likes == {[k |-> "like", len |-> l, keys |-> ks, extra |-> e] : l \in 0..3, ks \in {<<>>, <<0>>, <<1>>, <<0, 1>>, <<0, 2>>, <<0, 1, 2>>, <<5>>}, e \in 0..1}
Fields == {<<n, ok>> : n \in {"value", "get", "set", "configurable", "enumerable", "writable", "x"}, ok \in BOOLEAN}
FieldOK(f) == f[1] \in {"value", "x"} => f[2]
Descs == {[k |-> "desc", fields |-> <<a>>] : a \in {f \in Fields : FieldOK(f)}} \cup {[k |-> "desc", fields |-> <<a, b>>] : a \in {f \in Fields : FieldOK(f)}, b \in {f \in Fields : FieldOK(f)}}
DescOK(d) == \A i \in 1..Len(d.fields), j \in 1..Len(d.fields) : i # j => d.fields[i][1] # d.fields[j][1]
Thens == {[k |-> "then"]}
Some == Prims \cup {IntN(0), IntN(7), NaN, Inf(1)} \cup Bigs \cup {[k |-> "str", t |-> <<>>], [k |-> "str", t |-> <<97>>], [k |-> "str", t |-> <<49, 50>>]} \cup {Box(IntN(7)), Box(NaN), Box([k |-> "str", t |-> <<97>>]), Box([k |-> "prim", p |-> "false"]), Box([k |-> "prim", p |-> "symbol"]), Box([k |-> "big", s |-> 1])}
   \cup {F("arrow", 1, ""), F("async", 0, ""), F("class", 0, ""), [k |-> "buf", type |-> "Buffer", n |-> 1], [k |-> "buf", type |-> "Uint8Array", n |-> 1], [k |-> "arr", items |-> <<>>], O("Object", "", 0, 1, 0, 0, ""), O("null", "", 0, 0, 0, 0, ""), [k |-> "own", type |-> "Date", n |-> 1], [k |-> "hole"]}
Arrs(n) == {[k |-> "arr", items |-> q] : q \in UNION {[1..i -> Some] : i \in 0..n}}
Values == Prims \cup Bigs \cup Strs
\* requests about every kind of value, in pieces because the records differ
Given(v, Q(_)) == Q(v)
AnyValue(v) == TRUE
ASpec == ((pc = "call" /\ out = <<>> /\
   \/ (\E v \in Prims : call = [f |-> "all", v |-> v]) \/ (\E v \in Nums : call = [f |-> "all", v |-> v]) \/ (\E v \in Bigs : call = [f |-> "all", v |-> v]) \/ (\E v \in Strs : call = [f |-> "all", v |-> v])
   \/ (\E v \in Boxes : call = [f |-> "all", v |-> v]) \/ (\E v \in Fns : call = [f |-> "all", v |-> v]) \/ (\E v \in Cols : call = [f |-> "all", v |-> v]) \/ (\E v \in Bufs : call = [f |-> "all", v |-> v])
   \/ (\E v \in Errs : call = [f |-> "all", v |-> v]) \/ (\E v \in Owns : call = [f |-> "all", v |-> v]) \/ (\E v \in {s \in Streams : StreamOK(s)} : call = [f |-> "all", v |-> v])
   \/ (\E v \in Objs : call = [f |-> "all", v |-> v]) \/ (\E v \in Likes : call = [f |-> "all", v |-> v]) \/ (\E v \in {d \in Descs : DescOK(d)} : call = [f |-> "all", v |-> v]) \/ (\E v \in Thens : call = [f |-> "all", v |-> v])
   \/ (\E v \in Arrs(MaxItems) : call = [f |-> "all", v |-> v]))
  /\ [][CNext]_<<pc, call, out>>)
BSpec == ((pc = "call" /\ out = <<>> /\
   \/ \E s \in 0..2, sp \in BOOLEAN : \/ (\E v \in Likes : call = [f |-> "ask", p |-> "isArrayLike", v |-> v, similar |-> s, sparse |-> sp]) \/ (\E v \in Strs \cup Prims : call = [f |-> "ask", p |-> "isArrayLike", v |-> v, similar |-> s, sparse |-> sp])
                                      \/ (\E v \in {x \in Bufs : x.type # "Buffer"} : call = [f |-> "ask", p |-> "isArrayLike", v |-> v, similar |-> s, sparse |-> sp]) \/ (\E v \in Arrs(1) : call = [f |-> "ask", p |-> "isArrayLike", v |-> v, similar |-> s, sparse |-> sp])
   \/ \E p \in {"isNumber", "isNumberPrimitive", "isNumberObject"}, na \in BOOLEAN : \/ (\E v \in Nums : call = [f |-> "ask", p |-> p, v |-> v, nan |-> na]) \/ (\E v \in Boxes : call = [f |-> "ask", p |-> p, v |-> v, nan |-> na]) \/ (\E v \in Prims \cup Strs : call = [f |-> "ask", p |-> p, v |-> v, nan |-> na])
   \/ \E na \in BOOLEAN, v \in Arrs(2) : call = [f |-> "ask", p |-> "isNumberArray", v |-> v, nan |-> na]
   \/ \E o \in [implicit : BOOLEAN, nan : BOOLEAN, inf : BOOLEAN, empty : BOOLEAN] : \/ (\E v \in Prims : call = [f |-> "ask", p |-> "isNumberValid", v |-> v, o |-> o]) \/ (\E v \in {IntN(0), IntN(7), NaN, Inf(1), Inf(0 - 1), Num(1, <<1>>, TRUE)} : call = [f |-> "ask", p |-> "isNumberValid", v |-> v, o |-> o]) \/ (\E v \in Bigs : call = [f |-> "ask", p |-> "isNumberValid", v |-> v, o |-> o])
                   \/ (\E v \in Strs : call = [f |-> "ask", p |-> "isNumberValid", v |-> v, o |-> o]) \/ (\E v \in Boxes : call = [f |-> "ask", p |-> "isNumberValid", v |-> v, o |-> o]) \/ (\E v \in {O("null", "", 0, 0, 0, 0, ""), O("Object", "", 0, 1, 0, 0, "")} : call = [f |-> "ask", p |-> "isNumberValid", v |-> v, o |-> o])
                   \/ \E q \in {<<>>, <<IntN(7)>>, <<IntN(7), IntN(7)>>, <<NaN>>} : call = [f |-> "ask", p |-> "isNumberValid", v |-> [k |-> "arr", items |-> q], o |-> o]
   \/ \E p \in {"isFinite", "isNaN"}, im \in BOOLEAN : \/ (\E v \in Prims : call = [f |-> "ask", p |-> p, v |-> v, implied |-> im]) \/ (\E v \in Nums : call = [f |-> "ask", p |-> p, v |-> v, implied |-> im]) \/ (\E v \in Bigs \cup Strs : call = [f |-> "ask", p |-> p, v |-> v, implied |-> im]) \/ (\E v \in Boxes : call = [f |-> "ask", p |-> p, v |-> v, implied |-> im])
                   \/ (\E v \in {O("null", "", 0, 0, 0, 0, ""), O("Object", "", 0, 1, 0, 0, "")} : call = [f |-> "ask", p |-> p, v |-> v, implied |-> im])
   \/ (\E v \in Prims : call = [f |-> "ask", p |-> "isDateValid", v |-> v]) \/ (\E v \in Nums : call = [f |-> "ask", p |-> "isDateValid", v |-> v]) \/ (\E v \in Owns : v.type = "Date" /\ call = [f |-> "ask", p |-> "isDateValid", v |-> v]) \/ (\E v \in {O("null", "", 0, 0, 0, 0, ""), O("Object", "", 0, 1, 0, 0, "")} : call = [f |-> "ask", p |-> "isDateValid", v |-> v]) \/ (\E v \in {[k |-> "str", t |-> <<>>], [k |-> "str", t |-> <<97, 98>>]} : call = [f |-> "askText", p |-> "isDateValid", v |-> v])
   \/ \E p \in {"isObjectFilled", "isPlainObjectFilled"}, l \in 0..3 : \/ (\E v \in Objs : v.proto # "prototype" /\ v.has \in {"", "length", "size", "then", "next", "react"} /\ call = [f |-> "ask", p |-> p, v |-> v, level |-> l]) \/ (\E v \in Likes : call = [f |-> "ask", p |-> p, v |-> v, level |-> l]) \/ (\E v \in Prims : call = [f |-> "ask", p |-> p, v |-> v, level |-> l]) \/ (\E v \in Arrs(1) : call = [f |-> "ask", p |-> p, v |-> v, level |-> l])
   \/ \E x \in BOOLEAN : \/ (\E v \in {d \in Descs : DescOK(d)} : call = [f |-> "ask", p |-> "isPropertyDescriptor", v |-> v, extra |-> x]) \/ (\E v \in Prims : call = [f |-> "ask", p |-> "isPropertyDescriptor", v |-> v, extra |-> x])
   \/ \E n \in 0..3 : \/ (\E v \in Strs \cup Prims : call = [f |-> "ask", p |-> "isStringTrim", v |-> v, n |-> n]) \/ (\E v \in Boxes : call = [f |-> "ask", p |-> "isStringTrim", v |-> v, n |-> n])
   \/ \E t \in {"Object", "Array", "Null", "Undefined", "Number", "String", "BigInt", "Symbol", "Boolean", "Date", "Thing"} : \/ (\E v \in Prims \cup Bigs : call = [f |-> "ask", p |-> "getTagEqual", v |-> v, t |-> t]) \/ (\E v \in Boxes : call = [f |-> "ask", p |-> "getTagEqual", v |-> v, t |-> t]) \/ (\E v \in Objs : v.shown = 0 /\ call = [f |-> "ask", p |-> "getTagEqual", v |-> v, t |-> t]) \/ (\E v \in Arrs(1) : call = [f |-> "ask", p |-> "getTagEqual", v |-> v, t |-> t])
   \/ \E t \in {"object", "undefined", "boolean", "number", "bigint", "string", "symbol", "function"} : \/ (\E v \in Prims \cup Bigs : call = [f |-> "ask", p |-> "typeofEqual", v |-> v, t |-> t]) \/ (\E v \in Boxes : call = [f |-> "ask", p |-> "typeofEqual", v |-> v, t |-> t]) \/ (\E v \in Fns : call = [f |-> "ask", p |-> "typeofEqual", v |-> v, t |-> t])
   \/ \E t \in {"Error", "TypeError", "Mine"}, m \in {<<>>, <<97>>} : \/ (\E v \in Errs : call = [f |-> "ask", p |-> "isSameError", v |-> v, t |-> t, m |-> m]) \/ (\E v \in Prims : call = [f |-> "ask", p |-> "isSameError", v |-> v, t |-> t, m |-> m]))
  /\ [][CNext]_<<pc, call, out>>)
Few == <<[k |-> "prim", p |-> "undefined"], [k |-> "prim", p |-> "symbol"], IntN(0), Num(0 - 1, <<>>, FALSE), NaN, [k |-> "str", t |-> <<97>>], [k |-> "arr", items |-> <<>>], O("null", "", 0, 0, 0, 0, "")>>
Refs == {[v |-> Few[i], id |-> j] : i \in 1..Len(Few), j \in 1..2}
Asked == {"isString", "isNumber", "isTruthy", "isArray", "isNull"}
ESpec == ((pc = "call" /\ out = <<>> /\
   \/ \E p \in {"isEqual", "isNotEqual"}, a \in Refs, n \in 0..2 : \E bs \in [1..n -> Refs] : call = [f |-> "ask", p |-> p, first |-> a, others |-> bs]
   \/ \E p \in {"isEvery", "isSome"}, n \in 0..2, m \in 1..2, bare \in BOOLEAN : \E vs \in [1..n -> {Few[i] : i \in {1, 3, 6, 7}} \cup {IntN(7)}], ps \in [1..m -> Asked] : (bare => n = 1 /\ m = 1 /\ vs[1].k # "arr") /\ call = [f |-> "ask", p |-> p, vs |-> vs, ps |-> ps, bare |-> bare])
  /\ [][CNext]_<<pc, call, out>>)
DSpec == ((pc = "call" /\ out = <<>> /\ \E n \in 1..3 : \E i \in 1..n, j \in 1..n, key \in {"a", "symbol", "hidden"}, ks \in [1..n -> {<<>>, <<"a">>, <<"symbol">>, <<"hidden">>, <<"a", "hidden">>}] : call = [f |-> "chain", keys |-> ks, i |-> i, j |-> j, key |-> key])
  /\ [][CNext]_<<pc, call, out>>)
CasesDef == {}
=============================================================================
