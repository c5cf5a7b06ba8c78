------------------------------ MODULE DartPure ------------------------------
(* What a user may rely on, without any storage: every handle has a value of *)
(* its own.  PApply(vals, fin, op) is the set of <<vals', outcome>> an        *)
(* operation may lead to.  DartStoreMC checks exhaustively (small world) that *)
(* the storage design of DartStore - sharing, copy on write, lifting -        *)
(* refines this.                                                              *)
EXTENDS DartValue

CONSTANT PureSwitching

PSrc(vals, src) == IF src[1] = "lit" THEN src[2] ELSE vals[src[2]]
PK(vals, K) == IF K[1] = "v" THEN <<"v", vals[K[2]]>> ELSE K

Keep(vals, E) == {<<vals, Err(e)>> : e \in E}
(* a failed operation may have consumed an argument passed by move *)
KeepSrc(vals, src, E) == Keep(vals, E) \cup (IF src[1] = "mslot" THEN {<<[vals EXCEPT ![src[2]] = Null], Err(e)>> : e \in E} ELSE {})
Put(vals, d, v, out) == {<<[vals EXCEPT ![d] = v], out>>}
PutSrc(vals, d, v, src, out) ==
  IF src[1] # "mslot" THEN Put(vals, d, v, out)
  ELSE {<<[vals EXCEPT ![src[2]] = Null, ![d] = v], out>>}
       \cup (IF PureSwitching THEN {<<[vals EXCEPT ![d] = v], out>>} ELSE {})

PInsSet(vals, fin, d, K0, src, set) ==
  LET v == vals[d]
      x == PSrc(vals, src)
      K == IF K0[1] = "it" THEN (IF IsObj(v) THEN <<"k", v[2][K0[2] + 1][1]>> ELSE <<"x", K0[2]>>) ELSE PK(vals, K0)
      kk == KeyKind(K)
  IN
  IF fin[d] THEN KeepSrc(vals, src, {"state", "type", "arg"})
  ELSE IF kk = "str" /\ IsObj(v)
    THEN LET i == FieldIdx(v[2], KeyStr(K))
             n == PutField(v[2], KeyStr(K), x)
         IN IF RleLen(KeyStr(K)) > MaxKeyLen THEN KeepSrc(vals, src, {"arg"})
            ELSE IF set /\ i = 0 THEN KeepSrc(vals, src, {"range"})
            ELSE PutSrc(vals, d, ObjV(n), src, Ok(FieldIdx(n, KeyStr(K)) - 1))
  ELSE IF kk = "idx" /\ IsArr(v)
    THEN LET i == KeyIdx(K)
             n == Len(v[2])
         IN IF i < 0 \/ i > n \/ (set /\ i = n) THEN KeepSrc(vals, src, {"range"})
            ELSE PutSrc(vals, d, ArrV(IF set THEN [v[2] EXCEPT ![i + 1] = x] ELSE InsAt(v[2], i, x)), src, Ok(i))
  ELSE KeepSrc(vals, src, {"type", "state", "arg"})

PErase(vals, fin, d, K0) ==
  LET v == vals[d]
      K == IF K0[1] = "it" THEN (IF IsObj(v) THEN <<"k", v[2][K0[2] + 1][1]>> ELSE <<"x", K0[2]>>) ELSE PK(vals, K0)
      kk == KeyKind(K)
  IN
  IF fin[d] THEN Keep(vals, {"state", "type", "arg"})
  ELSE IF kk = "str" /\ IsObj(v)
    THEN LET i == FieldIdx(v[2], KeyStr(K)) IN
         IF i = 0 THEN Put(vals, d, v, Ok(Len(v[2]))) ELSE Put(vals, d, ObjV(DelField(v[2], KeyStr(K))), Ok(i - 1))
  ELSE IF kk = "idx" /\ IsArr(v)
    THEN IF InRange(KeyIdx(K), Len(v[2])) THEN Put(vals, d, ArrV(DelAt(v[2], KeyIdx(K))), Ok(KeyIdx(K)))
         ELSE Put(vals, d, v, Ok(Len(v[2])))
  ELSE Keep(vals, {"type", "state", "arg"})

PArr(vals, fin, d, src, F(_)) ==
  IF fin[d] THEN KeepSrc(vals, src, {"state", "type"})
  ELSE IF ~IsArr(vals[d]) THEN KeepSrc(vals, src, {"type", "state"})
  ELSE PutSrc(vals, d, ArrV(F(vals[d][2])), src, OkU)

PFetch(vals, s, how) ==      \* set of outcomes carrying the fetched value
  LET v == vals[s] IN
  CASE how[1] = "self" -> {Ok(v)}
    [] how[1] = "get" -> GetRes(v, PK(vals, how[2]))
    [] how[1] = "at" -> AtRes(v, PK(vals, how[2]))
    [] how[1] = "or" -> OrRes(v, PK(vals, how[2]), PSrc(vals, how[3]))
    [] how[1] = "nth" -> IF ~IsAgg(v) THEN {Err("type")} ELSE IF InRange(how[2], Len(v[2])) THEN {Ok(Elems(v)[how[2] + 1])} ELSE {<<"skip">>}
    [] how[1] = "nthkey" -> IF ~IsObj(v) THEN {Err("type")} ELSE IF InRange(how[2], Len(v[2])) THEN {Ok(StrV(v[2][how[2] + 1][1]))} ELSE {<<"skip">>}
    [] how[1] = "nest" -> NestRes(v, how[2], how[3])
    [] OTHER -> QRes(v, <<how[1]>>)

PApply(vals, fin, op) ==
  CASE op.o = "new" -> Put(vals, op.d, op.v, OkU)
    [] op.o \in {"copy", "deep"} -> Put(vals, op.d, vals[op.s], OkU)
    [] op.o = "move" -> IF op.d = op.s THEN {<<vals, OkU>>} ELSE {<<[vals EXCEPT ![op.s] = Null, ![op.d] = vals[op.s]], OkU>>}
    [] op.o = "swap" -> {<<[vals EXCEPT ![op.d] = vals[op.s], ![op.s] = vals[op.d]], OkU>>}
    [] op.o = "drop" -> Put(vals, op.d, Null, OkU)
    [] op.o = "fetch" -> {IF r[1] = "ok" THEN <<[vals EXCEPT ![op.d] = r[2]], OkU>> ELSE <<vals, r>> : r \in PFetch(vals, op.s, op.k)}
    [] op.o = "rfetch" -> {IF r[1] = "ok" THEN <<[(IF PureSwitching THEN [vals EXCEPT ![op.s] = Null] ELSE vals) EXCEPT ![op.d] = r[2]], OkU>>
                           ELSE <<vals, r>> : r \in PFetch(vals, op.s, op.k)}
    [] op.o = "ins" -> PInsSet(vals, fin, op.d, op.k, op.v, FALSE)
    [] op.o = "set" -> PInsSet(vals, fin, op.d, op.k, op.v, TRUE)
    [] op.o = "del" -> PErase(vals, fin, op.d, op.k)
    [] op.o = "pushb" -> PArr(vals, fin, op.d, op.v, LAMBDA b : Append(b, PSrc(vals, op.v)))
    [] op.o = "pushf" -> PArr(vals, fin, op.d, op.v, LAMBDA b : <<PSrc(vals, op.v)>> \o b)
    [] op.o = "popb" -> PArr(vals, fin, op.d, <<"lit", Null>>, LAMBDA b : IF b = <<>> THEN b ELSE SubSeq(b, 1, Len(b) - 1))
    [] op.o = "popf" -> PArr(vals, fin, op.d, <<"lit", Null>>, LAMBDA b : IF b = <<>> THEN b ELSE Tail(b))
    [] op.o = "clear" -> IF fin[op.d] THEN Keep(vals, {"state", "type"})
                         ELSE IF ~IsAgg(vals[op.d]) THEN Keep(vals, {"type", "state"}) ELSE Put(vals, op.d, <<vals[op.d][1], <<>>>>, OkU)
    [] op.o = "resize" -> PArr(vals, fin, op.d, op.v, LAMBDA b : [i \in 1..op.n |-> IF i <= Len(b) THEN b[i] ELSE PSrc(vals, op.v)])
    [] op.o = "reserve" -> PArr(vals, fin, op.d, <<"lit", Null>>, LAMBDA b : b)
    [] op.o = "fin" -> IF IsObj(vals[op.d]) \/ fin[op.d] THEN {<<vals, OkU>>} ELSE {<<vals, Err("type")>>, <<vals, OkU>>}
    [] op.o = "lift" -> {<<vals, OkU>>}
    [] op.o = "inj" -> LET v == vals[op.s]
                           ps == [i \in 1..Len(op.p) |-> <<KeyStr(PK(vals, op.p[i][1])), PSrc(vals, op.p[i][2])>>]
                       IN IF ~IsObj(v) THEN Keep(vals, {"type", "arg"})
                          ELSE Put(vals, op.d, ObjV(PutAll(v[2], ps)), OkU)
                               \cup (IF fin[op.s] /\ \E i, j \in 1..Len(ps) : i # j /\ ps[i][1] = ps[j][1] THEN Keep(vals, {"arg"}) ELSE {})
    [] op.o = "proj" -> IF ~IsObj(vals[op.s]) THEN Keep(vals, {"type"}) ELSE Put(vals, op.d, ObjV(Restrict(vals[op.s][2], op.p)), OkU)
    [] op.o = "itget" -> {<<vals, <<"skip">>>>} \cup UNION {Put(vals, op.d, x, OkU) : x \in {vals[op.d]}}
    [] OTHER -> {<<vals, OkU>>, <<vals, <<"skip">>>>}
=============================================================================
