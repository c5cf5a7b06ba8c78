------------------------------ MODULE DartWrap ------------------------------
(* Typed wrappers.  Thirteen registers: 1-2 hold packets, 3-4 objects, 5-6   *)
(* arrays, 7-8 strings, 9-10 numbers, 11-12 flags, 13 a null.  A wrapper     *)
(* register holds a value of its type, or nothing after it was moved from.   *)
(* WApply is the set of <<vals', outcome>> an operation may lead to; the     *)
(* operations wrappers share with packets are those of DartPure.             *)
EXTENDS DartPure

KindOf(d) == CASE d <= 2 -> "any" [] d <= 4 -> "object" [] d <= 6 -> "array" [] d <= 8 -> "string"
               [] d <= 10 -> "number" [] d <= 12 -> "flag" [] OTHER -> "null"
FitsKind(k, v) ==
  CASE k = "any" -> TRUE [] k = "object" -> IsObj(v) [] k = "array" -> IsArr(v) [] k = "string" -> IsStr(v)
    [] k = "number" -> IsInt(v) \/ IsDec(v) [] k = "flag" -> IsBool(v) [] OTHER -> IsNull(v)
Hollow(vals, d) == KindOf(d) \notin {"any", "null"} /\ IsNull(vals[d])
Typed(vals) == \A d \in 1..Len(vals) : FitsKind(KindOf(d), vals[d]) \/ Hollow(vals, d)
Fresh == <<Null, Null, ObjV(<<>>), ObjV(<<>>), ArrV(<<>>), ArrV(<<>>), StrV(<<>>), StrV(<<>>),
           IntV(<<0, 0, 0, 0>>), IntV(<<0, 0, 0, 0>>), FalseV, FalseV, Null>>

(* Decimals that are small multiples of 1/64, as integers scaled by 64.      *)
WPow2(n) == 2 ^ n
SmallInt(l) == CASE l[4] = 0 /\ l[3] = 0 /\ l[2] = 0 /\ l[1] < 512 -> <<TRUE, l[1] * 64>>
                 [] l[4] = 65535 /\ l[3] = 65535 /\ l[2] = 65535 /\ l[1] > 65024 -> <<TRUE, (l[1] - 65536) * 64>>
                 [] OTHER -> <<FALSE, 0>>
SmallDbl(l) ==
  LET sg == IF l[4] >= 32768 THEN 0 - 1 ELSE 1
      ex == (l[4] % 32768) \div 16
      mt == WPow2(20) + (l[4] % 16) * 65536 + l[3]       \* value = mt * 2^(ex - 1043)
      sh == ex - 1043 + 6
  IN IF l[1] # 0 \/ l[2] # 0 THEN <<FALSE, 0>>
     ELSE IF ex = 0 /\ l[3] = 0 /\ l[4] % 16 = 0 THEN <<TRUE, 0>>
     ELSE IF sh > 0 - 21 /\ sh <= 0 - 6 /\ mt % WPow2(0 - sh) = 0 THEN <<TRUE, sg * (mt \div WPow2(0 - sh))>>
     ELSE <<FALSE, 0>>
WSmall(v) == IF IsInt(v) THEN SmallInt(Limbs(v)) ELSE IF IsDec(v) THEN SmallDbl(Limbs(v)) ELSE <<FALSE, 0>>
WAbs(n) == IF n < 0 THEN 0 - n ELSE n
(* a op b in units of 1/64, when it is exact.                                *)
Calc(f, a, b) ==
  CASE f = "+" -> <<TRUE, a + b>>
    [] f = "-" -> <<TRUE, a - b>>
    [] f = "*" -> IF WAbs(a) < 32768 /\ WAbs(b) < 32768 /\ (WAbs(a) * WAbs(b)) % 64 = 0 THEN <<TRUE, LET p == (WAbs(a) * WAbs(b)) \div 64 IN IF (a < 0) = (b < 0) THEN p ELSE 0 - p>> ELSE <<FALSE, 0>>
    [] OTHER -> IF b # 0 /\ WAbs(a) < 4194304 /\ (WAbs(a) * 64) % WAbs(b) = 0 THEN <<TRUE, LET q == (WAbs(a) * 64) \div WAbs(b) IN IF (a < 0) = (b < 0) THEN q ELSE 0 - q>> ELSE <<FALSE, 0>>
One64 == 64
(* Does the number v stand for f applied to the operands?                    *)
Result(v, f, a, b) ==
  /\ IsInt(v) \/ IsDec(v)
  /\ a[1] /\ b[1] => LET c == Calc(f, a[2], b[2]) IN
       c[1] => LET s == WSmall(v) IN IF WAbs(c[2]) >= 32768 THEN TRUE ELSE s[1] /\ s[2] = c[2]

(* Is v the number the machine's arithmetic gave?                            *)
Native(v, bits) == (IsInt(v) \/ IsDec(v)) /\ (DblIsNaN(bits) \/ DblEq(NumBits(v), bits))

WJoined(a, b) == RleOf(RleExpand(a) \o RleExpand(b))
(* After a move the source is empty or, for values, may be as it was.        *)
WMoved(vals, s, d, v) == {[vals EXCEPT ![s] = Null, ![d] = v], [vals EXCEPT ![d] = v]}

WApply(vals, fin, e) ==
  LET op == e.op IN
  CASE op.o = "reset" -> {<<Fresh, OkU>>}
    [] op.o = "load" -> Put(vals, op.d, op.v, OkU)
    [] op.o = "wrap" -> IF ~FitsKind(KindOf(op.d), vals[op.s]) THEN Keep(vals, {"type"})
                        ELSE IF op.mv = 0 THEN Put(vals, op.d, vals[op.s], OkU)
                        ELSE {<<n, OkU>> : n \in WMoved(vals, op.s, op.d, vals[op.s])}
    [] op.o = "unwrap" -> IF op.mv = 0 THEN Put(vals, op.d, vals[op.s], OkU) ELSE {<<n, OkU>> : n \in WMoved(vals, op.s, op.d, vals[op.s])}
    [] op.o = "cross" -> IF Hollow(vals, op.s) THEN {<<vals, <<"skip">>>>} ELSE Put(vals, op.d, vals[op.s], OkU)
    [] op.o = "copy" -> Put(vals, op.d, vals[op.s], OkU)
    [] op.o = "move" -> IF op.d = op.s THEN {<<vals, OkU>>} ELSE {<<n, OkU>> : n \in WMoved(vals, op.s, op.d, vals[op.s])}
    [] op.o = "swap" -> PApply(vals, fin, op)
    [] op.o = "nat" -> Put(vals, op.d, op.v, OkU)
    [] op.o = "arith" ->
         IF Hollow(vals, op.d) THEN {<<vals, <<"skip">>>>}
         ELSE LET a == WSmall(vals[op.d])
                  b == IF op.f \in {"++_", "--_", "_++", "_--"} THEN <<TRUE, One64>> ELSE WSmall(op.v)
                  r == e.out[2]
                  seen == e.st[op.d]
                  n == IF op.f \in {"n+", "n-", "n*", "n/", "+n", "-n", "*n", "/n"} THEN r ELSE seen
              IN IF e.out[1] # "ok" \/ ~Native(n, e.nat) THEN {}
                 ELSE CASE op.f \in {"+=", "-=", "*=", "/="} ->
                             IF Result(seen, op.g, a, b) /\ r = seen THEN {<<[vals EXCEPT ![op.d] = seen], e.out>>} ELSE {}
                        [] op.f \in {"++_", "--_"} -> IF Result(seen, op.g, a, b) /\ r = seen THEN {<<[vals EXCEPT ![op.d] = seen], e.out>>} ELSE {}
                        [] op.f \in {"_++", "_--"} -> IF Result(seen, op.g, a, b) /\ r = vals[op.d] THEN {<<[vals EXCEPT ![op.d] = seen], e.out>>} ELSE {}
                        [] op.f \in {"n+", "n-", "n*", "n/"} -> IF Result(r, op.g, a, b) THEN {<<vals, e.out>>} ELSE {}
                        [] OTHER -> IF Result(r, op.g, b, a) THEN {<<vals, e.out>>} ELSE {}
    [] op.o = "cat" -> IF Hollow(vals, op.s) THEN {<<vals, <<"skip">>>>}
                       ELSE {<<vals, Ok(StrV(IF op.rev = 1 THEN WJoined(op.v, vals[op.s][2]) ELSE WJoined(vals[op.s][2], op.v)))>>}
    [] op.o = "app" -> IF Hollow(vals, op.d) \/ (op.v[1] = "slot" /\ Hollow(vals, op.v[2])) THEN {<<vals, <<"skip">>>>}
                       ELSE Put(vals, op.d, StrV(WJoined(vals[op.d][2], IF op.v[1] = "slot" THEN vals[op.v[2]][2] ELSE op.v[2])), OkU)
    [] op.o = "neg" -> IF Hollow(vals, op.s) THEN {<<vals, <<"skip">>>>} ELSE {<<vals, Ok(IF vals[op.s] = TrueV THEN 0 ELSE 1)>>}
    [] op.o = "truth" -> {<<vals, Ok(IF KindOf(op.s) = "flag" THEN BoolN(vals[op.s] = TrueV) ELSE BoolN(~IsNull(vals[op.s])))>>}
    [] op.o = "numto" -> IF Hollow(vals, op.s) THEN {<<vals, <<"skip">>>>}
                         ELSE LET a == WSmall(vals[op.s]) IN
                              IF e.out[1] # "ok" THEN {}
                              ELSE LET b == WSmall(e.out[2]) IN
                                   IF ~a[1] THEN {<<vals, e.out>>}
                                   ELSE IF IsInt(e.out[2]) THEN (IF b[1] /\ b[2] = (WAbs(a[2]) \div 64) * 64 * (IF a[2] < 0 THEN 0 - 1 ELSE 1) THEN {<<vals, e.out>>} ELSE {})
                                   ELSE IF b = a THEN {<<vals, e.out>>} ELSE {}
    [] op.o = "q" -> IF Hollow(vals, op.s) THEN {<<vals, <<"skip">>>>}
                     ELSE {<<vals, o>> : o \in QRes(vals[op.s], op.q) \union {<<"skip">>}}
    [] OTHER ->
         LET t == IF op.o \in {"inj", "proj"} THEN op.s ELSE op.d IN
         IF Hollow(vals, t) THEN {<<vals, <<"skip">>>>}
         ELSE LET rs == PApply(vals, fin, op) IN
              rs \union (IF op.o = "del" THEN {<<r[1], OkU>> : r \in {x \in rs : x[2][1] = "ok"}} ELSE {})
=============================================================================
