----------------------------- MODULE DartConv ------------------------------
(* Conversions between native C++ values and dart values.                    *)
(*                                                                           *)
(* A native type is described by a term, a native value by a term of it:     *)
(*   <<"null">>            <<"n">>                                           *)
(*   <<"bool">>            <<"b", 0|1>>                                      *)
(*   <<"int", bits, 0|1>>  <<"i", limbs>>   (signed: 1; kept sign extended)  *)
(*   <<"flt">>, <<"dbl">>  <<"d", limbs>>                                    *)
(*   <<"str">>             <<"s", rle>>                                      *)
(*   <<"opt", T>>          <<"none">> | <<"some", x>>                        *)
(*   <<"var", Ts>>         <<"alt", k, x>>      (k counts from 1)            *)
(*   <<"tup", Ts>>         <<"l", xs>>          (tuples and pairs)           *)
(*   <<"seq", T>>          <<"l", xs>>  (vector, deque, list, forward_list)  *)
(*   <<"arr", n, T>>       <<"l", xs>>                                       *)
(*   <<"set", o, m, T>>    <<"l", xs>>  (o: ordered, m: multi)               *)
(*   <<"map", o, m, K, T>> <<"m", <<<<key, x>>, ...>>>>                      *)
(*   <<"time", unit>>      <<"t", day, second of day>>  (days since 1970)    *)
(*   <<"const", n>>        <<"i", limbs>>       (integral_constant)          *)
(*   <<"user">>            <<"u", rle, limbs>>  (a user type with traits     *)
(*                                               {"name": rle, "num": int})  *)
(*   <<"dart">>            any dart value                                    *)
EXTENDS DartValue

(* ------------------------------ calendar ------------------------------- *)
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m = 2 -> (IF IsLeap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
(* Days from 1970-01-01 to y-m-d in the proleptic Gregorian calendar.        *)
DaysOf(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      mp == (m + 9) % 12
      doy == ((153 * mp + 2) \div 5) + d - 1
      doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
  IN era * 146097 + doe - 719468
DateOf(z0) ==
  LET z == z0 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      d == doy - ((153 * mp + 2) \div 5) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN <<y, m, d>>

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Pad(n, w) == LET d == Digits(n) IN [i \in 1..(IF Len(d) < w THEN w - Len(d) ELSE 0) |-> 48] \o d
Stamp(day, sod) ==
  LET c == DateOf(day) IN
  RleOf(Pad(c[1], 4) \o <<45>> \o Pad(c[2], 2) \o <<45>> \o Pad(c[3], 2) \o <<84>>
        \o Pad(sod \div 3600, 2) \o <<58>> \o Pad((sod \div 60) % 60, 2) \o <<58>> \o Pad(sod % 60, 2) \o <<46, 48, 48, 48, 90>>)

(* Reading a time stamp back: <<"ok", ..>>, <<"bad">> or <<"open">> for text *)
(* that is readable but not a normal time stamp.                             *)
IsDig(b) == b >= 48 /\ b <= 57
RECURSIVE NumAt(_, _, _, _)
NumAt(s, i, n, k) == IF i <= Len(s) /\ IsDig(s[i]) /\ k < 9 THEN NumAt(s, i + 1, n * 10 + s[i] - 48, k + 1) ELSE <<n, i, k>>
RECURSIVE Fields(_, _, _, _)
Fields(s, i, seps, acc) ==
  IF i <= Len(s) /\ (s[i] <= 32 \/ s[i] \in {43, 45}) THEN <<"open">>
  ELSE IF seps = <<>> /\ i <= Len(s) /\ s[i] \in {46, 73, 78, 105, 110} THEN <<"open">>
  ELSE LET r == NumAt(s, i, 0, 0) IN
       IF r[3] = 0 THEN <<"bad">>
       ELSE IF r[3] >= 9 THEN <<"open">>
       ELSE IF seps = <<>> THEN <<"ok", Append(acc, r[1]), r[2]>>
       ELSE IF r[2] > Len(s) \/ s[r[2]] # seps[1] THEN <<"bad">>
       ELSE Fields(s, r[2] + 1, Tail(seps), Append(acc, r[1]))
ReadStamp(rle) ==
  IF RleLen(rle) > 60 THEN <<"open">> ELSE
  LET s == RleExpand(rle)
      f == Fields(s, 1, <<45, 45, 84, 58, 58>>, <<>>)
  IN IF f[1] # "ok" THEN f
     ELSE LET v == f[2]
              rest == SubSeq(s, f[3], Len(s))
              clean == rest = <<90>> \/ rest = <<>> \/ (Len(rest) >= 2 /\ Len(rest) <= 5 /\ rest[1] = 46 /\ \A i \in 2..Len(rest) : IsDig(rest[i]) \/ (i = Len(rest) /\ rest[i] = 90))
          IN IF clean /\ v[1] \in 1680..2260 /\ v[2] \in 1..12 /\ v[3] >= 1 /\ v[3] <= MonthLen(v[1], v[2]) /\ v[4] < 24 /\ v[5] < 60 /\ v[6] < 60
             THEN <<"ok", <<"t", DaysOf(v[1], v[2], v[3]), v[4] * 3600 + v[5] * 60 + v[6]>>>>
             ELSE <<"open">>

(* ------------------------------- numbers -------------------------------- *)
IsNum(v) == IsInt(v) \/ IsDec(v)
NumEq(v, n) == IF IsInt(v) /\ n[1] = "i" THEN v = n ELSE DblEq(NumBits(v), NumBits(n))
Fill(b) == <<b, b, b>>
(* The value a 64-bit integer has after a cast to a narrower native type.    *)
Narrow(l, bits, sg) ==
  CASE bits = 64 -> l
    [] bits = 32 -> LET b == IF sg = 1 /\ l[2] >= 32768 THEN 65535 ELSE 0 IN <<l[1], l[2], b, b>>
    [] bits = 16 -> LET b == IF sg = 1 /\ l[1] >= 32768 THEN 65535 ELSE 0 IN <<l[1], b, b, b>>
    [] OTHER -> LET lo == l[1] % 256
                    b == IF sg = 1 /\ lo >= 128 THEN 65535 ELSE 0
                IN <<IF b = 0 THEN lo ELSE lo + 65280, b, b, b>>

UserName == <<366, 353, 365, 357>>   \* "name"
UserNum == <<366, 373, 365>>         \* "num"

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(* --------------------------- native equality ---------------------------- *)
RECURSIVE NEq(_, _, _), NPerm(_, _, _)
NPerm(T, a, b) == Len(a) = Len(b) /\ (a = <<>> \/ \E j \in 1..Len(b) : NEq(T, a[1], b[j]) /\ NPerm(T, Tail(a), RemoveAt(b, j)))
NAll(T, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NEq(T, a[i], b[i])
SameKeys(a, b) == \A i \in 1..Len(a) : \E j \in 1..Len(b) : b[j][1] = a[i][1]
AtKey(m, k) == LET s == SelectSeq(m, LAMBDA e : e[1] = k) IN TLCEval([i \in 1..Len(s) |-> s[i][2]])
NEq(T, a, b) ==
  CASE T[1] \in {"flt", "dbl"} -> DblEq(Limbs(a), Limbs(b))
    [] T[1] = "opt" -> a[1] = b[1] /\ (a[1] = "some" => NEq(T[2], a[2], b[2]))
    [] T[1] = "var" -> a[2] = b[2] /\ NEq(T[2][a[2]], a[3], b[3])
    [] T[1] = "tup" -> Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : NEq(T[2][i], a[2][i], b[2][i])
    [] T[1] = "seq" -> NAll(T[2], a[2], b[2])
    [] T[1] = "arr" -> NAll(T[3], a[2], b[2])
    [] T[1] = "set" -> NPerm(T[4], a[2], b[2])
    [] T[1] = "map" -> /\ Len(a[2]) = Len(b[2]) /\ SameKeys(a[2], b[2]) /\ SameKeys(b[2], a[2])
                       /\ \A i \in 1..Len(a[2]) : LET k == a[2][i][1] IN
                            IF T[2] = 1 THEN NAll(T[5], AtKey(a[2], k), AtKey(b[2], k)) ELSE NPerm(T[5], AtKey(a[2], k), AtKey(b[2], k))
    [] T[1] = "dart" -> VEq(a, b)
    [] OTHER -> a = b

(* ----------------------- native value to dart value ---------------------- *)
(* Rep(T, v, x, loose): v is what x converts to.  Containers without an      *)
(* order may list their elements in any order.  With loose set, numbers are  *)
(* compared numerically: this is what comparing a packet with x means.       *)
RECURSIVE Rep(_, _, _, _), RepPerm(_, _, _, _)
RepPerm(T, vs, xs, loose) == Len(vs) = Len(xs) /\ (xs = <<>> \/ \E j \in 1..Len(vs) : Rep(T, vs[j], xs[1], loose) /\ RepPerm(T, RemoveAt(vs, j), Tail(xs), loose))
RepAll(T, vs, xs, loose) == Len(vs) = Len(xs) /\ \A i \in 1..Len(xs) : Rep(T, vs[i], xs[i], loose)
(* What a native map key converts to (only strings name fields).             *)
KeyOf(K, k) == IF K[1] = "str" THEN k ELSE IF K[1] = "opt" THEN (IF k[1] = "some" THEN k[2] ELSE Null) ELSE IF K[1] = "ukey" THEN StrV(k[2]) ELSE k
Rep(T, v, x, loose) ==
  CASE T[1] = "null" -> IsNull(v)
    [] T[1] = "bool" -> v = x
    [] T[1] \in {"int", "flt", "dbl"} -> IF loose THEN IsNum(v) /\ NumEq(v, x) ELSE v = x
    [] T[1] = "str" -> v = x
    [] T[1] = "opt" -> IF x[1] = "none" THEN IsNull(v) ELSE Rep(T[2], v, x[2], loose)
    [] T[1] = "var" -> Rep(T[2][x[2]], v, x[3], loose)
    [] T[1] = "tup" -> IsArr(v) /\ Len(v[2]) = Len(x[2]) /\ \A i \in 1..Len(x[2]) : Rep(T[2][i], v[2][i], x[2][i], loose)
    [] T[1] = "seq" -> IsArr(v) /\ RepAll(T[2], v[2], x[2], loose)
    [] T[1] = "arr" -> IsArr(v) /\ RepAll(T[3], v[2], x[2], loose)
    [] T[1] = "set" -> IsArr(v) /\ (IF T[2] = 1 /\ ~loose THEN RepAll(T[4], v[2], x[2], loose) ELSE RepPerm(T[4], v[2], x[2], loose))
    [] T[1] = "map" ->
         /\ IsObj(v)
         /\ \A i \in 1..Len(v[2]) : \E j \in 1..Len(x[2]) : KeyOf(T[4], x[2][j][1]) = StrV(v[2][i][1])
         /\ \A j \in 1..Len(x[2]) :
              LET k == KeyOf(T[4], x[2][j][1]) IN
              /\ IsStr(k) /\ HasField(v[2], k[2])
              /\ LET f == FieldVal(v[2], k[2])
                     xs == AtKey(x[2], x[2][j][1])
                 IN IF T[3] = 0 THEN Rep(T[5], f, xs[1], loose)
                    ELSE IsArr(f) /\ (IF T[2] = 1 /\ ~loose THEN RepAll(T[5], f[2], xs, loose) ELSE RepPerm(T[5], f[2], xs, loose))
    [] T[1] = "time" -> v = StrV(Stamp(x[2], x[3]))
    [] T[1] = "const" -> IF loose THEN IsNum(v) /\ NumEq(v, x) ELSE v = x
    [] T[1] = "user" -> LET o == ObjOf(<<<<UserName, StrV(x[2])>>, <<UserNum, IntV(x[3])>>>>) IN
                        IF loose THEN IsObj(v) /\ FieldVal(v[2], UserName) = StrV(x[2]) /\ IsNum(FieldVal(v[2], UserNum)) /\ NumEq(FieldVal(v[2], UserNum), IntV(x[3])) ELSE v = o
    [] T[1] = "ukey" -> v = StrV(x[2])
    [] T[1] = "dart" -> VEq(v, x)
    [] OTHER -> FALSE

(* A native value no dart value represents: a map with a key that is no      *)
(* string, or with a key that is too long.                                   *)
RECURSIVE Unfit(_, _)
Unfit(T, x) ==
  CASE T[1] = "opt" -> x[1] = "some" /\ Unfit(T[2], x[2])
    [] T[1] = "var" -> Unfit(T[2][x[2]], x[3])
    [] T[1] = "tup" -> \E i \in 1..Len(x[2]) : Unfit(T[2][i], x[2][i])
    [] T[1] = "seq" -> \E i \in 1..Len(x[2]) : Unfit(T[2], x[2][i])
    [] T[1] = "arr" -> \E i \in 1..Len(x[2]) : Unfit(T[3], x[2][i])
    [] T[1] = "set" -> \E i \in 1..Len(x[2]) : Unfit(T[4], x[2][i])
    [] T[1] = "map" -> \E i \in 1..Len(x[2]) : ~IsStr(KeyOf(T[4], x[2][i][1])) \/ Unfit(T[5], x[2][i][2])
    [] OTHER -> FALSE

(* Comparisons the documentation leaves open: an integral constant is        *)
(* compared as a dart value, so that 7.0 may differ from it; sets, where     *)
(* equal elements of different types make several readings possible.         *)
RECURSIVE Open(_, _, _)
Open(T, v, x) ==
  CASE T[1] = "const" -> IsDec(v) /\ NumEq(v, x)
    [] OTHER -> FALSE

(* ----------------------- dart value to native value ---------------------- *)
(* <<"ok", x>>, <<"err">> or <<"open">>.                                     *)
TypeErr == <<"err">>
RECURSIVE From(_, _), FromList(_, _, _), FromEach(_, _), FromAlt(_, _, _), FromPairs(_, _, _), FromFields(_, _, _)
Dedupe(T, xs) == LET R[i \in 0..Len(xs)] == IF i = 0 THEN <<>> ELSE IF \E j \in 1..Len(R[i-1]) : NEq(T, R[i-1][j], xs[i]) THEN R[i-1] ELSE Append(R[i-1], xs[i]) IN R[Len(xs)]
FromList(T, vs, acc) ==
  IF vs = <<>> THEN <<"ok", <<"l", acc>>>>
  ELSE LET r == From(T, vs[1]) IN IF r[1] # "ok" THEN r ELSE FromList(T, Tail(vs), Append(acc, r[2]))
FromEach(Ts, vs) ==
  LET rs == TLCEval([i \in 1..Len(vs) |-> From(Ts[i], vs[i])]) IN
  IF \E i \in 1..Len(rs) : rs[i][1] = "err" THEN TypeErr
  ELSE IF \E i \in 1..Len(rs) : rs[i][1] = "open" THEN <<"open">>
  ELSE <<"ok", <<"l", [i \in 1..Len(rs) |-> rs[i][2]]>>>>
FromAlt(Ts, v, k) ==
  IF k > Len(Ts) THEN TypeErr
  ELSE LET r == From(Ts[k], v) IN
       IF r[1] = "ok" THEN <<"ok", <<"alt", k, r[2]>>>> ELSE IF r[1] = "open" THEN r ELSE FromAlt(Ts, v, k + 1)
FromFields(T, fs, acc) ==
  IF fs = <<>> THEN <<"ok", <<"m", acc>>>>
  ELSE LET k == From(T[4], StrV(fs[1][1])) IN
       IF k[1] # "ok" THEN k
       ELSE LET vs == IF T[3] = 1 /\ IsArr(fs[1][2]) THEN fs[1][2][2] ELSE <<fs[1][2]>>
                r == FromList(T[5], vs, <<>>)
            IN IF r[1] # "ok" THEN r
               ELSE FromFields(T, Tail(fs), acc \o TLCEval([i \in 1..Len(vs) |-> <<k[2], r[2][2][i]>>]))
FromPairs(T, fs, acc) == FromFields(T, fs, acc)
From(T, v) ==
  CASE T[1] = "null" -> IF IsNull(v) THEN <<"ok", Null>> ELSE TypeErr
    [] T[1] = "bool" -> <<"ok", IF IsBool(v) THEN v ELSE IF IsNull(v) THEN FalseV ELSE TrueV>>
    [] T[1] = "int" -> IF IsInt(v) THEN <<"ok", IntV(Narrow(Limbs(v), T[2], T[3]))>> ELSE TypeErr
    [] T[1] = "dbl" -> IF IsDec(v) THEN <<"ok", v>> ELSE TypeErr
    [] T[1] = "flt" -> IF IsDec(v) THEN (IF DblIsFloat(Limbs(v)) THEN <<"ok", v>> ELSE <<"open">>) ELSE TypeErr
    [] T[1] = "str" -> IF IsStr(v) THEN <<"ok", v>> ELSE TypeErr
    [] T[1] = "opt" -> IF IsNull(v) THEN <<"ok", <<"none">>>> ELSE LET r == From(T[2], v) IN IF r[1] = "ok" THEN <<"ok", <<"some", r[2]>>>> ELSE r
    [] T[1] = "var" -> FromAlt(T[2], v, 1)
    [] T[1] = "tup" -> IF ~IsArr(v) \/ Len(v[2]) # Len(T[2]) THEN TypeErr ELSE FromEach(T[2], v[2])
    [] T[1] = "seq" -> IF ~IsArr(v) THEN TypeErr ELSE FromList(T[2], v[2], <<>>)
    [] T[1] = "arr" -> IF ~IsArr(v) \/ Len(v[2]) # T[2] THEN TypeErr ELSE FromList(T[3], v[2], <<>>)
    [] T[1] = "set" -> IF ~IsArr(v) THEN TypeErr
                       ELSE LET r == FromList(T[4], v[2], <<>>) IN
                            IF r[1] # "ok" \/ T[3] = 1 THEN r ELSE <<"ok", <<"l", Dedupe(T[4], r[2][2])>>>>
    [] T[1] = "map" -> IF ~IsObj(v) THEN TypeErr ELSE FromFields(T, v[2], <<>>)
    [] T[1] = "time" -> IF ~IsStr(v) THEN TypeErr ELSE LET r == ReadStamp(v[2]) IN IF r[1] = "bad" THEN TypeErr ELSE r
    [] T[1] = "const" -> IF IsNum(v) /\ NumEq(v, IntV(T[2])) THEN <<"ok", IntV(T[2])>> ELSE TypeErr
    [] T[1] = "user" -> IF IsObj(v) /\ IsStr(FieldVal(v[2], UserName)) /\ IsInt(FieldVal(v[2], UserNum))
                        THEN <<"ok", <<"u", FieldVal(v[2], UserName)[2], Limbs(FieldVal(v[2], UserNum))>>>> ELSE TypeErr
    [] T[1] = "ukey" -> IF IsStr(v) THEN <<"ok", <<"k", v[2]>>>> ELSE TypeErr
    [] T[1] = "dart" -> <<"ok", v>>
    [] OTHER -> TypeErr
=============================================================================
