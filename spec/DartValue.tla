----------------------------- MODULE DartValue -----------------------------
(* The abstract values of libdart and the meaning of every query on them.   *)
(*                                                                           *)
(*   value ::= <<"n">>                       null                            *)
(*           | <<"b", 0|1>>                  boolean                         *)
(*           | <<"i", l0, l1, l2, l3>>       64-bit integer                  *)
(*           | <<"d", l0, l1, l2, l3>>       double (bit pattern)            *)
(*           | <<"s", rle>>                  string                          *)
(*           | <<"a", <<value, ...>>>>       array                           *)
(*           | <<"o", <<<<rle, value>>, ...>>>>  object, in key order        *)
(*                                                                           *)
(* QRes(v, q) is the set of outcomes a query may have on any representation  *)
(* of v: <<"ok", ...>> or <<"err", class>>.                                  *)
EXTENDS DartBytes, FiniteSets

Null == <<"n">>
TrueV == <<"b", 1>>
FalseV == <<"b", 0>>
Tag(v) == v[1]
IsNull(v) == v[1] = "n"
IsObj(v) == v[1] = "o"
IsArr(v) == v[1] = "a"
IsStr(v) == v[1] = "s"
IsInt(v) == v[1] = "i"
IsDec(v) == v[1] = "d"
IsBool(v) == v[1] = "b"
IsAgg(v) == v[1] \in {"o", "a"}
Limbs(v) == <<v[2], v[3], v[4], v[5]>>
IntV(l) == <<"i", l[1], l[2], l[3], l[4]>>
DecV(l) == <<"d", l[1], l[2], l[3], l[4]>>
NatV(n) == <<"i", n % 65536, n \div 65536, 0, 0>>
StrV(r) == <<"s", r>>
ArrV(s) == <<"a", s>>
ObjV(f) == <<"o", f>>
EmptyObj == <<"o", <<>>>>
EmptyArr == <<"a", <<>>>>

TypeName(v) == CASE v[1] = "o" -> "object" [] v[1] = "a" -> "array" [] v[1] = "s" -> "string"
                 [] v[1] = "i" -> "integer" [] v[1] = "d" -> "decimal" [] v[1] = "b" -> "boolean"
                 [] OTHER -> "null"

(* ------------------------------------------------------- finite maps (objects) *)
Keys(f) == TLCEval([i \in 1..Len(f) |-> f[i][1]])
Vals(f) == TLCEval([i \in 1..Len(f) |-> f[i][2]])

FieldIdx(f, k) == LET S == {i \in 1..Len(f) : f[i][1] = k}
                  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
HasField(f, k) == \E i \in 1..Len(f) : f[i][1] = k
FieldVal(f, k) == LET i == FieldIdx(f, k) IN IF i = 0 THEN Null ELSE f[i][2]

(* Bind k to v, keeping the key order; the field list stays duplicate free. *)
PutField(f, k, v) ==
  LET i == FieldIdx(f, k) IN
  IF i # 0 THEN [f EXCEPT ![i] = <<f[i][1], v>>]
  ELSE LET n == Cardinality({j \in 1..Len(f) : KeyLess(f[j][1], k)})
       IN SubSeq(f, 1, n) \o <<<<k, v>>>> \o SubSeq(f, n + 1, Len(f))
DelField(f, k) == LET i == FieldIdx(f, k) IN
                  IF i = 0 THEN f ELSE SubSeq(f, 1, i - 1) \o SubSeq(f, i + 1, Len(f))

RECURSIVE PutAll(_, _)          \* override: later pairs win
PutAll(f, ps) == IF ps = <<>> THEN f ELSE PutAll(PutField(f, ps[1][1], ps[1][2]), Tail(ps))
ObjOf(ps) == ObjV(PutAll(<<>>, ps))
Restrict(f, ks) == SelectSeq(f, LAMBDA e : \E i \in 1..Len(ks) : ks[i] = e[1])

WellOrdered(f) == \A i \in 1..(Len(f) - 1) : KeyLess(f[i][1], f[i + 1][1])
RECURSIVE WellFormedValue(_)
WellFormedValue(v) ==
  CASE IsObj(v) -> WellOrdered(v[2]) /\ \A i \in 1..Len(v[2]) : WellFormedValue(v[2][i][2])
    [] IsArr(v) -> \A i \in 1..Len(v[2]) : WellFormedValue(v[2][i])
    [] OTHER -> TRUE

(* ---------------------------------------------------------------- sequences *)
InsAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))   \* 0-based
DelAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))               \* 0-based
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* ----------------------------------------------------------------- equality *)
(* Value equality; decimals compare numerically, int and decimal differ.     *)
RECURSIVE VEq(_, _)
VEq(a, b) ==
  IF a[1] # b[1] THEN FALSE
  ELSE CASE a[1] = "d" -> DblEq(Limbs(a), Limbs(b))
         [] a[1] = "a" -> Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : VEq(a[2][i], b[2][i])
         [] a[1] = "o" -> Len(a[2]) = Len(b[2])
                          /\ \A i \in 1..Len(a[2]) : a[2][i][1] = b[2][i][1] /\ VEq(a[2][i][2], b[2][i][2])
         [] OTHER -> a = b

RECURSIVE HasOddDec(_)       \* contains a NaN or a zero decimal (equality excepted)
HasOddDec(v) ==
  CASE IsDec(v) -> DblIsNaN(Limbs(v)) \/ DblIsZero(Limbs(v))
    [] IsArr(v) -> \E i \in 1..Len(v[2]) : HasOddDec(v[2][i])
    [] IsObj(v) -> \E i \in 1..Len(v[2]) : HasOddDec(v[2][i][2])
    [] OTHER -> FALSE

(* ------------------------------------------------------------------ queries *)
Ok(x) == <<"ok", x>>
OkU == <<"ok">>
Err(c) == <<"err", c>>

MaxKeyLen == 65535

(* key arguments: <<"k", rle>> string, <<"x", n>> index (n < 0: huge),      *)
(*                <<"v", value>> dynamically typed                           *)
DynIdx(v) == SmallNat64(Limbs(v))
KeyKind(K) == CASE K[1] = "k" -> "str" [] K[1] = "x" -> "idx"
                [] OTHER -> (IF IsStr(K[2]) THEN "str" ELSE IF IsInt(K[2]) THEN "idx" ELSE "bad")
KeyStr(K) == IF K[1] = "k" THEN K[2] ELSE K[2][2]
KeyIdx(K) == IF K[1] = "x" THEN K[2] ELSE DynIdx(K[2])
InRange(i, n) == i >= 0 /\ i < n

GetRes(v, K) ==
  CASE KeyKind(K) = "str" -> IF IsObj(v) THEN {Ok(FieldVal(v[2], KeyStr(K)))} ELSE {Err("type")}
    [] KeyKind(K) = "idx" -> IF IsArr(v) THEN {Ok(IF InRange(KeyIdx(K), Len(v[2])) THEN v[2][KeyIdx(K) + 1] ELSE Null)}
                             ELSE {Err("type")}
    [] OTHER -> {Err("type")}

AtRes(v, K) ==
  CASE KeyKind(K) = "str" -> IF IsObj(v)
                               THEN {IF HasField(v[2], KeyStr(K)) THEN Ok(FieldVal(v[2], KeyStr(K))) ELSE Err("range")}
                               ELSE {Err("type")}
    [] KeyKind(K) = "idx" -> IF IsArr(v)
                               THEN {IF InRange(KeyIdx(K), Len(v[2])) THEN Ok(v[2][KeyIdx(K) + 1]) ELSE Err("range")}
                               ELSE IF IsObj(v) \/ IsStr(v) THEN {Err("type"), Err("range")} ELSE {Err("type")}
    [] OTHER -> {Err("type")}

(* get_or never fails, except that a key which is no integer on an array is  *)
(* documented to raise a type error.                                         *)
OrRes(v, K, d) ==
  LET kk == KeyKind(K) IN
  IF IsObj(v) /\ kk = "str" /\ HasField(v[2], KeyStr(K)) THEN {Ok(FieldVal(v[2], KeyStr(K)))}
  ELSE IF IsArr(v) /\ kk = "idx" /\ InRange(KeyIdx(K), Len(v[2])) THEN {Ok(v[2][KeyIdx(K) + 1])}
  ELSE IF IsArr(v) /\ kk # "idx" THEN {Ok(d), Err("type")}
  ELSE {Ok(d)}

RECURSIVE NestVal(_, _)
NestVal(v, ps) == IF ps = <<>> THEN v
                  ELSE IF ~IsObj(v) THEN Null
                  ELSE NestVal(FieldVal(v[2], ps[1]), Tail(ps))
(* A trailing separator is ignored, as is an empty path. *)
NestRes(v, path, sep) ==
  LET ps0 == RleSplit(path, sep, <<>>)
      ps == IF ps0[Len(ps0)] = <<>> THEN SubSeq(ps0, 1, Len(ps0) - 1) ELSE ps0
  IN {Ok(NestVal(v, ps))}

BoolN(b) == IF b THEN 1 ELSE 0
SizeOf(v) == IF IsStr(v) THEN RleLen(v[2]) ELSE Len(v[2])
StrKeys(f) == TLCEval([i \in 1..Len(f) |-> StrV(f[i][1])])
Elems(v) == IF IsObj(v) THEN Vals(v[2]) ELSE v[2]
NumBits(v) == IF IsInt(v) THEN IntToDbl(Limbs(v)) ELSE Limbs(v)

(* Three iterators walking a sequence: registers 1..3 hold positions 0..n.   *)
RECURSIVE Walk(_, _, _)
Walk(es, p, steps) ==
  IF steps = <<>> THEN <<>>
  ELSE LET s == steps[1]  op == s[1]  a == s[2] + 1  b == s[3] + 1
           rest(q) == Walk(es, q, Tail(steps))
           flag(f, q) == <<<<"e", BoolN(f)>>>> \o rest(q)
           val(i, q) == <<<<"v", es[i + 1]>>>> \o rest(q)
       IN CASE op = "++" -> flag(TRUE, [p EXCEPT ![a] = @ + 1])
            [] op = "--" -> flag(TRUE, [p EXCEPT ![a] = @ - 1])
            [] op = "p+" -> val(p[a], [p EXCEPT ![a] = @ + 1])
            [] op = "p-" -> flag(FALSE, [p EXCEPT ![a] = @ - 1])
            [] op \in {"=", "m", "c"} -> flag(TRUE, [p EXCEPT ![a] = p[b]])
            [] op = "eq" -> flag(p[a] = p[b], p)
            [] op = "ne" -> flag(p[a] # p[b], p)
            [] op = "*"  -> val(p[a], p)
            [] op = "nx" -> val(p[a] + s[4], p)
            [] OTHER     -> flag(p[b] - p[a] = s[4], p)
WalkSeq(v, kind) == LET es == IF kind % 2 = 1 THEN StrKeys(v[2]) ELSE Elems(v)
                    IN TLCEval(IF kind >= 2 THEN Rev(es) ELSE es)
WalkRes(v, kind, steps) ==
  IF ~IsAgg(v) \/ (kind % 2 = 1 /\ ~IsObj(v)) THEN {Err("type")}
  ELSE LET es == WalkSeq(v, kind) IN {Ok(Walk(es, <<0, 0, Len(es)>>, steps))}

QRes(v, q) ==
  LET o == q[1]
      agg(x) == IF IsAgg(v) THEN {Ok(x)} ELSE {Err("type")}
      obj(x) == IF IsObj(v) THEN {Ok(x)} ELSE {Err("type")}
  IN
  CASE o \in {"val", "json", "wire"} -> {Ok(v)}      \* as it is, read back from its text, read back from its bytes
    [] o = "type" -> {Ok(TypeName(v))}
    [] o = "is"   -> {Ok(<<BoolN(IsObj(v)), BoolN(IsArr(v)), BoolN(IsAgg(v)), BoolN(IsStr(v)), BoolN(IsInt(v)),
                           BoolN(IsDec(v)), BoolN(IsInt(v) \/ IsDec(v)), BoolN(IsBool(v)), BoolN(IsNull(v)),
                           BoolN(~IsAgg(v))>>)}
    [] o = "size" -> IF IsAgg(v) \/ IsStr(v) THEN {Ok(SizeOf(v))} ELSE {Err("type")}
    [] o = "empty" -> IF IsAgg(v) \/ IsStr(v) THEN {Ok(BoolN(SizeOf(v) = 0))} ELSE {Err("type")}
    [] o \in {"get", "br"} -> GetRes(v, q[2])
    [] o = "at"   -> AtRes(v, q[2])
    [] o = "or"   -> OrRes(v, q[2], q[3])
    [] o = "hask" -> IF KeyKind(q[2]) # "str" THEN {Ok(0)}
                     ELSE IF IsObj(v) THEN {Ok(BoolN(HasField(v[2], KeyStr(q[2]))))} ELSE {Err("type")}
    [] o = "find" -> IF IsObj(v) THEN {IF HasField(v[2], KeyStr(q[2])) THEN Ok(<<FieldIdx(v[2], KeyStr(q[2])) - 1, FieldVal(v[2], KeyStr(q[2]))>>)
                                       ELSE Ok(<<-1, Null>>)}
                     ELSE {Err("type")}
    [] o = "findkey" -> IF IsObj(v) THEN {IF HasField(v[2], KeyStr(q[2])) THEN Ok(<<FieldIdx(v[2], KeyStr(q[2])) - 1, StrV(KeyStr(q[2]))>>)
                                          ELSE Ok(<<-1, Null>>)}
                        ELSE {Err("type")}
    [] o = "nest" -> NestRes(v, q[2], q[3])
    [] o \in {"keys", "kfwd"} -> obj(StrKeys(v[2]))
    [] o = "krev" -> obj(Rev(StrKeys(v[2])))
    [] o \in {"vals", "fwd"} -> agg(Elems(v))
    [] o = "rev"  -> agg(Rev(Elems(v)))
    [] o = "kv"   -> obj([i \in 1..Len(v[2]) |-> <<StrV(v[2][i][1]), v[2][i][2]>>])
    [] o = "rkv"  -> obj(Rev([i \in 1..Len(v[2]) |-> <<StrV(v[2][i][1]), v[2][i][2]>>]))
    [] o = "walk" -> WalkRes(v, q[2], q[3])
    [] o = "front" -> IF IsArr(v) THEN {Ok(IF v[2] = <<>> THEN Null ELSE v[2][1])} ELSE {Err("type")}
    [] o = "back"  -> IF IsArr(v) THEN {Ok(IF v[2] = <<>> THEN Null ELSE v[2][Len(v[2])])} ELSE {Err("type")}
    [] o = "atfront" -> IF IsArr(v) THEN {IF v[2] = <<>> THEN Err("range") ELSE Ok(v[2][1])}
                        ELSE IF IsObj(v) \/ IsStr(v) THEN {Err("type"), Err("range")} ELSE {Err("type")}
    [] o = "atback"  -> IF IsArr(v) THEN {IF v[2] = <<>> THEN Err("range") ELSE Ok(v[2][Len(v[2])])}
                        ELSE IF IsObj(v) \/ IsStr(v) THEN {Err("type"), Err("range")} ELSE {Err("type")}
    [] o = "frontor" -> {Ok(IF IsArr(v) /\ v[2] # <<>> THEN v[2][1] ELSE q[2])}
    [] o = "backor"  -> {Ok(IF IsArr(v) /\ v[2] # <<>> THEN v[2][Len(v[2])] ELSE q[2])}
    [] o = "str"  -> IF IsStr(v) THEN {Ok(v[2])} ELSE {Err("type")}
    [] o = "stror" -> {Ok(IF IsStr(v) THEN v[2] ELSE q[2])}
    [] o = "int"  -> IF IsInt(v) THEN {Ok(Limbs(v))} ELSE {Err("type")}
    [] o = "intor" -> {Ok(IF IsInt(v) THEN Limbs(v) ELSE q[2])}
    [] o = "dec"  -> IF IsDec(v) THEN {Ok(Limbs(v))} ELSE {Err("type")}
    [] o = "decor" -> {Ok(IF IsDec(v) THEN Limbs(v) ELSE q[2])}
    [] o = "num"  -> IF IsInt(v) \/ IsDec(v) THEN {Ok(NumBits(v))} ELSE {Err("type")}
    [] o = "numor" -> {Ok(IF IsInt(v) \/ IsDec(v) THEN NumBits(v) ELSE q[2])}
    [] o = "flag" -> IF IsBool(v) THEN {Ok(v[2])} ELSE {Err("type")}
    [] o = "flagor" -> {Ok(IF IsBool(v) THEN v[2] ELSE q[2])}
    [] OTHER -> {}
=============================================================================
