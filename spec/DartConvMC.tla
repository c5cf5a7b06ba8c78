----------------------------- MODULE DartConvMC -----------------------------
(* The laws conversions have to obey, on every small native value and dart   *)
(* value of a set of types: a value survives the way into a packet and back; *)
(* a packet equals the native value it was made from; what is read from a    *)
(* packet compares equal with the packet; a packet that equals two native    *)
(* values cannot tell them apart; field and element counts matter.           *)
EXTENDS DartConv
CONSTANTS Depth, Weak     \* Weak: a comparison that ignores extra fields

VARIABLES T, x, v, pick

Bo == <<"bool">>  In == <<"int", 32, 1>>  Db == <<"dbl">>  St == <<"str">>
Flat == {Bo, In, Db, St, <<"null">>}
Lift(S) == UNION {
  {<<"opt", t>> : t \in S \ {u \in S : u[1] \in {"opt", "null", "bool"}}},
  {<<"seq", t>> : t \in S}, {<<"arr", 2, t>> : t \in S},
  {<<"tup", <<t, u>>>> : t \in S, u \in {In, St}},
  {<<"map", 1, 0, St, t>> : t \in S}, {<<"map", 0, 1, St, t>> : t \in S \cap Flat},
  {<<"set", 1, 0, In>>, <<"set", 0, 1, In>>, <<"set", 1, 1, St>>}}
Types == IF Depth = 0 THEN Flat ELSE IF Depth = 1 THEN Flat \union Lift(Flat) ELSE Lift({In, <<"opt", In>>, <<"seq", In>>, <<"map", 1, 0, St, In>>})

One == IntV(<<1, 0, 0, 0>>)  Two == IntV(<<2, 0, 0, 0>>)
OneD == DecV(<<0, 0, 0, 16368>>)  HalfD == DecV(<<0, 0, 0, 16352>>)
Ka == <<353>>  Kb == <<354>>

RECURSIVE Nats(_)
Pairs(S) == S \X S
Nats(t) ==
  CASE t[1] = "null" -> {Null}
    [] t[1] = "bool" -> {FalseV, TrueV}
    [] t[1] = "int" -> {One, Two}
    [] t[1] = "dbl" -> {OneD, HalfD}
    [] t[1] = "str" -> {StrV(Ka), StrV(<<>>)}
    [] t[1] = "opt" -> {<<"none">>} \union {<<"some", y>> : y \in Nats(t[2])}
    [] t[1] = "seq" -> {<<"l", s>> : s \in UNION {[1..n -> Nats(t[2])] : n \in 0..2}}
    [] t[1] = "arr" -> {<<"l", s>> : s \in [1..2 -> Nats(t[3])]}
    [] t[1] = "tup" -> {<<"l", <<p[1], p[2]>>>> : p \in Nats(t[2][1]) \X Nats(t[2][2])}
    [] t[1] = "set" -> {<<"l", s>> : s \in {s \in UNION {[1..n -> Nats(t[4])] : n \in 0..2} :
                          /\ t[3] = 0 => \A i, j \in DOMAIN s : i # j => s[i] # s[j]
                          /\ t[2] = 1 => (Len(s) = 2 => (s[1] = s[2] \/ s[1] = (CHOOSE e \in Nats(t[4]) : TRUE)))}}
    [] t[1] = "map" -> {<<"m", <<>>>>} \union {<<"m", <<<<StrV(k), y>>>>>> : k \in {Ka, Kb}, y \in Nats(t[5])}
                       \union {<<"m", <<<<StrV(Ka), p[1]>>, <<StrV(Kb), p[2]>>>>>> : p \in Pairs(Nats(t[5]))}
                       \union (IF t[3] = 1 THEN {<<"m", <<<<StrV(Ka), p[1]>>, <<StrV(Ka), p[2]>>>>>> : p \in Pairs(Nats(t[5]))} ELSE {})
    [] OTHER -> {}

(* The packets a native value may become.                                    *)
RECURSIVE Tos(_, _)
Tos(t, y) ==
  CASE t[1] = "opt" -> IF y[1] = "none" THEN {Null} ELSE Tos(t[2], y[2])
    [] t[1] = "seq" -> {ArrV(s) : s \in {s \in [1..Len(y[2]) -> UNION {Tos(t[2], y[2][i]) : i \in 1..Len(y[2])}] : \A i \in 1..Len(s) : s[i] \in Tos(t[2], y[2][i])}}
    [] t[1] = "arr" -> Tos(<<"seq", t[3]>>, y)
    [] t[1] = "tup" -> {ArrV(<<p[1], p[2]>>) : p \in Tos(t[2][1], y[2][1]) \X Tos(t[2][2], y[2][2])}
    [] t[1] = "set" -> Tos(<<"seq", t[4]>>, y)
    [] t[1] = "map" -> LET val(k) == IF t[3] = 1 THEN Tos(<<"seq", t[5]>>, <<"l", AtKey(y[2], k)>>) ELSE Tos(t[5], AtKey(y[2], k)[1])
                           ks == {y[2][i][1] : i \in 1..Len(y[2])}
                       IN IF ks = {} THEN {ObjV(<<>>)}
                          ELSE IF Cardinality(ks) = 1 THEN {ObjV(<<<<(CHOOSE k \in ks : TRUE)[2], f>>>>) : f \in val(CHOOSE k \in ks : TRUE)}
                          ELSE {ObjV(<<<<Ka, p[1]>>, <<Kb, p[2]>>>>) : p \in val(StrV(Ka)) \X val(StrV(Kb))}
    [] OTHER -> {y}

(* Other packets: near the shapes in question.                               *)
RECURSIVE Near(_)
Near(t) ==
  CASE t[1] \in {"seq", "set", "arr", "tup"} ->
         {Null, ArrV(<<>>), ArrV(<<One, One>>), ArrV(<<One, OneD>>), ArrV(<<Two, OneD>>), ArrV(<<One, Two, One>>), ObjV(<<>>)}
    [] t[1] = "map" -> {Null, ObjV(<<<<Ka, One>>>>), ObjV(<<<<Ka, OneD>>, <<Kb, Null>>>>), ObjV(<<<<Kb, Null>>>>), ObjV(<<<<Ka, Null>>>>), ObjV(<<<<Ka, ArrV(<<>>)>>>>), ArrV(<<>>),
                        ObjV(<<<<Ka, ArrV(<<One, OneD>>)>>>>), ObjV(<<<<Ka, ArrV(<<Two>>)>>, <<Kb, ArrV(<<>>)>>>>)}
    [] OTHER -> {Null, One, OneD, TrueV, StrV(Ka), ArrV(<<One>>), ObjV(<<>>)}

(* A comparison that walks the native map only.                              *)
Lax(t, p, y) == IF t[1] = "map" /\ t[3] = 1 /\ IsObj(p) THEN \E n \in 0..Len(p[2]) : Rep(t, ObjV(SubSeq(p[2], 1, n)), y, TRUE) ELSE Rep(t, p, y, TRUE)
Equal(t, p, y) == IF Weak THEN Lax(t, p, y) ELSE Rep(t, p, y, TRUE)

Init == /\ T \in Types /\ x \in Nats(T)
        /\ v \in Tos(T, x) \union Near(T) \union {Null}
        /\ pick \in Nats(T)
Next == UNCHANGED <<T, x, v, pick>>
Spec == Init /\ [][Next]_<<T, x, v, pick>>

Truthy == T[1] = "bool" \/ (T[1] \in {"opt", "seq"} /\ T[2][1] = "bool") \/ (T[1] = "arr" /\ T[3][1] = "bool") \/ (T[1] = "tup" /\ T[2][1][1] = "bool") \/ (T[1] = "map" /\ T[5][1] = "bool")
Multi == T[1] = "map" /\ T[3] = 1
Deduped == T[1] = "set" /\ T[3] = 0
NoSets(t) == t[1] # "set"
HasBool(t) == Truthy

Survives == v \in Tos(T, x) =>
  LET r == From(T, v) IN r[1] = "ok" /\ NEq(T, r[2], x)
MadeIsRep == v \in Tos(T, x) => Rep(T, v, x, FALSE)
RepIsEqual == Rep(T, v, x, FALSE) => Equal(T, v, x)
ReadIsEqual == LET r == From(T, v) IN r[1] = "ok" /\ ~Truthy /\ ~Multi /\ ~Deduped => Equal(T, v, r[2])
Separates == Equal(T, v, x) /\ Equal(T, v, pick) => NEq(T, x, pick)
Reflexive == NEq(T, x, x) /\ (NEq(T, x, pick) <=> NEq(T, pick, x))
=============================================================================
