----------------------------- MODULE DartText -----------------------------
(* JSON text.  ParseDoc reads a text (a sequence of bytes) under leniency    *)
(* flags and gives the document it denotes, as a symbolic value: decimals    *)
(* stay what was written, <<"D", negative?, digits, exponent>>, and Rounds   *)
(* says which double that is (the nearest, ties to even).                    *)
EXTENDS DartValue

(* ------------------------------------------------------- natural numbers *)
(* little endian sequences of limbs below 10000, no leading zero limb       *)
BASE == 10000
RECURSIVE BMulC(_, _, _), BTrim(_), BCmpAt(_, _, _), BMul2(_, _), BDigits(_, _)
BMulC(a, m, c) ==
  IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE IF c < BASE THEN <<c>> ELSE <<c % BASE>> \o BMulC(<<>>, m, c \div BASE))
  ELSE LET x == a[1] * m + c IN <<x % BASE>> \o BMulC(Tail(a), m, x \div BASE)
BTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
BMul(a, m, c) == TLCEval(BTrim(BMulC(a, m, c)))
BMul2(a, k) == IF a = <<>> THEN a ELSE IF k >= 16 THEN BMul2(BMul(a, 65536, 0), k - 16) ELSE BMul(a, 2 ^ k, 0)
BMul10(a, k) == IF a = <<>> THEN a ELSE [i \in 1..(k \div 4) |-> 0] \o BMul(a, 10 ^ (k % 4), 0)
BCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE BCmpAt(a, b, i - 1)
BCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE BCmpAt(a, b, Len(a))
BDigits(d, acc) == IF d = <<>> THEN acc ELSE BDigits(Tail(d), BMul(acc, 10, d[1]))
BOfLimbs(l) == BMul(BMul(BMul(BMul(<<>>, 1, l[4]), 65536, l[3]), 65536, l[2]), 65536, l[1])

RECURSIVE BDecC(_)
BDecC(a) == IF a[1] > 0 THEN <<a[1] - 1>> \o Tail(a) ELSE <<BASE - 1>> \o BDecC(Tail(a))
BDec(a) == BTrim(BDecC(a))
BSmall(a, k) == a = <<>> \/ (Len(a) = 1 /\ a[1] <= k)
RECURSIVE BSub(_, _)
BSub(a, k) == IF k = 0 THEN a ELSE BSub(BDec(a), k - 1)

(* D * 10^e10  compared with  N * 2^e2 *)
CmpScaled(D, e10, N, e2) ==
  LET l == BMul2(BMul10(D, IF e10 > 0 THEN e10 ELSE 0), IF e2 < 0 THEN -e2 ELSE 0)
      r == BMul2(BMul10(N, IF e10 < 0 THEN -e10 ELSE 0), IF e2 > 0 THEN e2 ELSE 0)
  IN BCmp(l, r)

RECURSIVE StripZ(_)
StripZ(d) == IF d # <<>> /\ d[1] = 0 THEN StripZ(Tail(d)) ELSE d
RECURSIVE StripT(_)
StripT(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN StripT(SubSeq(d, 1, Len(d) - 1)) ELSE d

(* Is the (finite) double l the one nearest to  digits * 10^e10 ?            *)
Rounds(neg, digits, e10, l) ==
  LET dz == StripZ(digits)  ds == StripT(dz)  e == e10 + (Len(dz) - Len(ds))
      D == BDigits(ds, <<>>)
      ex == DblExp(l)
      frac == <<l[1], l[2], l[3], (l[4] % 16)>>
      m == BOfLimbs(IF ex = 0 THEN frac ELSE <<l[1], l[2], l[3], (l[4] % 16) + 16>>)
      q == (IF ex = 0 THEN 1 ELSE ex) - 1075                \* value = m * 2^q
      even == l[1] % 2 = 0
      low == ex > 1 /\ frac = Zero64                         \* gap below is half as wide
      cLo == LET N == IF m = <<>> THEN <<>> ELSE LET x == IF low THEN BMul(m, 4, 0) ELSE BMul(m, 2, 0) IN BDec(x)
             IN CmpScaled(D, e, N, IF low THEN q - 2 ELSE q - 1)
      cHi == CmpScaled(D, e, BMul(m, 2, 1), q - 1)
  IN /\ DblFinite(l)
     /\ DblSign(l) = neg
     /\ IF ds = <<>> THEN DblIsZero(l)
        ELSE IF Len(ds) + e > 330 \/ Len(ds) + e < -345 THEN DblIsZero(l) /\ Len(ds) + e < -345
        ELSE /\ m = <<>> \/ cLo > 0 \/ (cLo = 0 /\ even)
             /\ cHi < 0 \/ (cHi = 0 /\ even)
(* Is l within k units in the last place of  digits * 10^e10 ?               *)
Near(k, neg, digits, e10, l) ==
  LET dz == StripZ(digits)  ds == StripT(dz)  e == e10 + (Len(dz) - Len(ds))
      D == BDigits(ds, <<>>)
      ex == DblExp(l)
      frac == <<l[1], l[2], l[3], l[4] % 16>>
      m == BOfLimbs(IF ex = 0 THEN frac ELSE <<l[1], l[2], l[3], (l[4] % 16) + 16>>)
      q == (IF ex = 0 THEN 1 ELSE ex) - 1075
  IN /\ DblFinite(l)
     /\ DblSign(l) = neg
     /\ IF ds = <<>> THEN DblIsZero(l)
        ELSE IF Len(ds) + e > 330 \/ Len(ds) + e < -345 THEN DblIsZero(l) /\ Len(ds) + e < -345
        ELSE /\ BSmall(m, k) \/ CmpScaled(D, e, BSub(m, k), q) >= 0
             /\ CmpScaled(D, e, BMul(m, 1, k), q) <= 0
Ulps(digits) == LET n == Len(digits) IN IF n <= 18 THEN 4 ELSE n - 14
(* Too large for a double: what happens is not specified. *)
TooBig(s) == LET dz == StripZ(s[3]) IN (dz # <<>> /\ Len(dz) + s[4] > 308) \/ (dz = <<>> /\ s[4] > 290)

(* ------------------------------------------------------------ the grammar *)
(* f = <<comments, nan, trailing commas>>.  Results: <<"v", value, next>>,   *)
(* <<"e">>.  Positions are 1-based; the text ends at its end or first NUL.   *)
(* Long runs of a letter stay one cell: they can only be part of a string.    *)
RECURSIVE Cells(_)
Cells(r) == IF r = <<>> THEN <<>> ELSE (IF r[1] \div 256 > 300 THEN <<r[1]>> ELSE RleExpand(<<r[1]>>)) \o Cells(Tail(r))
At(b, i) == IF i > Len(b) THEN 0 ELSE b[i]
Bad == <<"e">>
IsWs(c) == c \in {32, 9, 10, 13}
IsDigit(c) == c \in 48..57
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1

RECURSIVE Ws(_, _), EndBlock(_, _), EndLine(_, _), Skip(_, _, _)
Ws(b, i) == IF IsWs(At(b, i)) THEN Ws(b, i + 1) ELSE i
EndBlock(b, i) == IF At(b, i) = 0 THEN 0 ELSE IF At(b, i) = 42 THEN (IF At(b, i + 1) = 47 THEN i + 2 ELSE EndBlock(b, i + 1)) ELSE EndBlock(b, i + 1)
EndLine(b, i) == IF At(b, i) = 0 THEN i ELSE IF b[i] = 10 THEN i + 1 ELSE EndLine(b, i + 1)
(* Next position, 0 if a comment is malformed. *)
Skip(b, i, f) ==
  LET j == Ws(b, i) IN
  IF ~f[1] \/ At(b, j) # 47 THEN j
  ELSE IF At(b, j + 1) = 42 THEN LET k == EndBlock(b, j + 2) IN IF k = 0 THEN 0 ELSE Skip(b, k, f)
  ELSE IF At(b, j + 1) = 47 THEN Skip(b, EndLine(b, j + 2), f)
  ELSE 0

Lit(b, i, s) == \A k \in 1..Len(s) : At(b, i + k - 1) = s[k]

(* strings: acc is run-length encoded *)
Hex4(b, i) == LET h == [k \in 0..3 |-> HexVal(At(b, i + k))] IN
              IF \E k \in 0..3 : h[k] < 0 THEN -1 ELSE ((h[0] * 16 + h[1]) * 16 + h[2]) * 16 + h[3]
Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
EscOf(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
RECURSIVE Chars(_, _, _)
Chars(b, i, acc) ==
  LET c == At(b, i) IN
  CASE c = 34 -> <<"v", StrV(acc), i + 1>>
    [] c > 255 -> Chars(b, i + 1, RleCat(acc, <<c>>))
    [] c < 32 -> Bad
    [] c = 92 ->
         LET x == At(b, i + 1) IN
         IF EscOf(x) >= 0 THEN Chars(b, i + 2, RleCat(acc, <<Run(EscOf(x), 1)>>))
         ELSE IF x # 117 THEN Bad
         ELSE LET u == Hex4(b, i + 2) IN
              IF u < 0 THEN Bad
              ELSE IF u \in 55296..56319 THEN
                   IF At(b, i + 6) = 92 /\ At(b, i + 7) = 117 /\ Hex4(b, i + 8) \in 56320..57343
                   THEN Chars(b, i + 12, RleCat(acc, RleOf(Utf8((u - 55296) * 1024 + (Hex4(b, i + 8) - 56320) + 65536))))
                   ELSE Bad
              ELSE Chars(b, i + 6, RleCat(acc, RleOf(Utf8(u))))
    [] OTHER -> Chars(b, i + 1, RleCat(acc, <<Run(c, 1)>>))

RECURSIVE Digits(_, _)
Digits(b, i) == IF IsDigit(At(b, i)) THEN Digits(b, i + 1) ELSE i
DigitSeq(b, i, j) == [k \in 1..(j - i) |-> b[i + k - 1] - 48]
RECURSIVE SmallInt(_, _)
SmallInt(d, acc) == IF d = <<>> THEN acc ELSE IF acc > 100000 THEN acc ELSE SmallInt(Tail(d), acc * 10 + d[1])
RECURSIVE Nat64(_, _)          \* digits -> <<limbs, fits in 64 bits>>
Nat64(d, l) == IF d = <<>> THEN <<l, TRUE>>
               ELSE IF MulCarry64(l, 10, d[1]) # 0 THEN <<l, FALSE>> ELSE Nat64(Tail(d), MulAdd64(l, 10, d[1]))
Number(b, i0) ==
  LET neg == IF At(b, i0) = 45 THEN 1 ELSE 0
      i == i0 + neg
      j == IF At(b, i) = 48 THEN i + 1 ELSE Digits(b, i)
      hasFrac == At(b, j) = 46
      fe == IF hasFrac THEN Digits(b, j + 1) ELSE j
      hasExp == At(b, fe) \in {101, 69}
      sg == IF hasExp /\ At(b, fe + 1) \in {43, 45} THEN 1 ELSE 0
      es == fe + 1 + sg
      ee == IF hasExp THEN Digits(b, es) ELSE fe
      ip == DigitSeq(b, i, j)
      fp == IF hasFrac THEN DigitSeq(b, j + 1, fe) ELSE <<>>
      ex == IF hasExp THEN LET x == SmallInt(DigitSeq(b, es, ee), 0) IN IF At(b, fe + 1) = 45 THEN -x ELSE x ELSE 0
      n == Nat64(ip, Zero64)
      fits == n[2] /\ (n[1][4] < 32768 \/ (neg = 1 /\ n[1] = <<0, 0, 0, 32768>>))
  IN IF ~IsDigit(At(b, i)) THEN Bad
     ELSE IF hasFrac /\ fe = j + 1 THEN Bad
     ELSE IF hasExp /\ ee = es THEN Bad
     ELSE IF ~hasFrac /\ ~hasExp /\ fits THEN <<"v", IntV(IF neg = 1 THEN Neg64(n[1]) ELSE n[1]), ee>>
     ELSE <<"v", <<"D", neg, ip \o fp, ex - Len(fp)>>, ee>>
NanInf(b, i0) ==
  LET neg == IF At(b, i0) = 45 THEN 1 ELSE 0  i == i0 + neg
  IN IF Lit(b, i, <<78, 97, 78>>) THEN <<"v", <<"NaN">>, i + 3>>
     ELSE IF Lit(b, i, <<73, 110, 102>>) THEN
          IF At(b, i + 3) # 105 THEN <<"v", <<"Inf", neg>>, i + 3>>
          ELSE IF Lit(b, i + 3, <<105, 110, 105, 116, 121>>) THEN <<"v", <<"Inf", neg>>, i + 8>> ELSE Bad
     ELSE Bad

RECURSIVE Value(_, _, _), Members(_, _, _, _), Items(_, _, _, _)
Value(b, i, f) ==
  LET c == At(b, i) IN
  CASE c = 110 -> IF Lit(b, i, <<110, 117, 108, 108>>) THEN <<"v", Null, i + 4>> ELSE Bad
    [] c = 116 -> IF Lit(b, i, <<116, 114, 117, 101>>) THEN <<"v", TrueV, i + 4>> ELSE Bad
    [] c = 102 -> IF Lit(b, i, <<102, 97, 108, 115, 101>>) THEN <<"v", FalseV, i + 5>> ELSE Bad
    [] c = 34 -> Chars(b, i + 1, <<>>)
    [] c = 123 -> LET j == Skip(b, i + 1, f) IN
                  IF j = 0 THEN Bad ELSE IF At(b, j) = 125 THEN <<"v", EmptyObj, j + 1>> ELSE Members(b, j, f, <<>>)
    [] c = 91 -> LET j == Skip(b, i + 1, f) IN
                 IF j = 0 THEN Bad ELSE IF At(b, j) = 93 THEN <<"v", EmptyArr, j + 1>> ELSE Items(b, j, f, <<>>)
    [] OTHER -> LET d == IF c = 45 THEN At(b, i + 1) ELSE c IN
                IF f[2] /\ d \in {73, 78} THEN NanInf(b, i) ELSE Number(b, i)
(* i is at the first character of a member / item; acc what came before. *)
Members(b, i, f, acc) ==
  IF At(b, i) # 34 THEN Bad
  ELSE LET k == TLCEval(Chars(b, i + 1, <<>>)) IN
  IF k = Bad THEN Bad
  ELSE LET c == Skip(b, k[3], f) IN
  IF c = 0 \/ At(b, c) # 58 THEN Bad
  ELSE LET s == Skip(b, c + 1, f) IN
  IF s = 0 THEN Bad
  ELSE LET v == TLCEval(Value(b, s, f)) IN
  IF v = Bad THEN Bad
  ELSE LET n == Skip(b, v[3], f)  fs == Append(acc, <<k[2][2], v[2]>>) IN
  IF n = 0 THEN Bad
  ELSE IF At(b, n) = 125 THEN <<"v", ObjV(fs), n + 1>>
  ELSE IF At(b, n) # 44 THEN Bad
  ELSE LET m == Skip(b, n + 1, f) IN
  IF m = 0 THEN Bad
  ELSE IF f[3] /\ At(b, m) = 125 THEN <<"v", ObjV(fs), m + 1>>
  ELSE Members(b, m, f, fs)
Items(b, i, f, acc) ==
  LET v == TLCEval(Value(b, i, f)) IN
  IF v = Bad THEN Bad
  ELSE LET n == Skip(b, v[3], f)  es == Append(acc, v[2]) IN
  IF n = 0 THEN Bad
  ELSE IF At(b, n) = 93 THEN <<"v", ArrV(es), n + 1>>
  ELSE IF At(b, n) # 44 THEN Bad
  ELSE LET m == Skip(b, n + 1, f) IN
  IF m = 0 THEN Bad
  ELSE IF f[3] /\ At(b, m) = 93 THEN <<"v", ArrV(es), m + 1>>
  ELSE Items(b, m, f, es)

(* The document: <<"v", symbolic value in the order written>> or Bad. *)
ParseDoc(b, f) ==
  LET i == Skip(b, 1, f) IN
  IF i = 0 \/ At(b, i) = 0 THEN Bad
  ELSE LET v == TLCEval(Value(b, i, f)) IN
  IF v = Bad THEN Bad
  ELSE LET n == Skip(b, v[3], f) IN IF n = 0 \/ At(b, n) # 0 THEN Bad ELSE <<"v", v[2]>>
(* Is the root a scalar as far as its first character tells? *)
ScalarRoot(b, f) == LET i == Skip(b, 1, f) IN i # 0 /\ At(b, i) \notin {0, 123, 91}

(* ---------------------------------------------- what a document denotes *)
(* Last duplicate wins, keys in order. *)
RECURSIVE Denote(_), HasBig(_), Same(_, _, _)
Denote(s) ==
  CASE s[1] = "o" -> ObjOf([i \in 1..Len(s[2]) |-> <<s[2][i][1], Denote(s[2][i][2])>>])
    [] s[1] = "a" -> ArrV([i \in 1..Len(s[2]) |-> Denote(s[2][i])])
    [] OTHER -> s
HasBig(s) ==
  CASE s[1] = "o" -> \E i \in 1..Len(s[2]) : HasBig(s[2][i][2])
    [] s[1] = "a" -> \E i \in 1..Len(s[2]) : HasBig(s[2][i])
    [] s[1] = "D" -> TooBig(s)
    [] OTHER -> FALSE
(* Does the concrete value v equal the symbolic value s? *)
(* (exactly, or with decimals to within a few units in the last place)        *)
Same(s, v, exact) ==
  CASE s[1] = "o" -> v[1] = "o" /\ Len(v[2]) = Len(s[2]) /\ \A i \in 1..Len(s[2]) : v[2][i][1] = s[2][i][1] /\ Same(s[2][i][2], v[2][i][2], exact)
    [] s[1] = "a" -> v[1] = "a" /\ Len(v[2]) = Len(s[2]) /\ \A i \in 1..Len(s[2]) : Same(s[2][i], v[2][i], exact)
    [] s[1] = "D" -> v[1] = "d" /\ (TooBig(s) \/ (exact /\ Rounds(s[2], s[3], s[4], Limbs(v))) \/ (~exact /\ Near(Ulps(s[3]), s[2], s[3], s[4], Limbs(v))))
    [] s[1] = "NaN" -> v[1] = "d" /\ DblIsNaN(Limbs(v))
    [] s[1] = "Inf" -> v[1] = "d" /\ DblIsInf(Limbs(v)) /\ DblSign(Limbs(v)) = s[2]
    [] OTHER -> v = s
RECURSIVE LongKeys(_)
LongKeys(s) ==
  CASE s[1] = "o" -> \E i \in 1..Len(s[2]) : RleLen(s[2][i][1]) > MaxKeyLen \/ LongKeys(s[2][i][2])
    [] s[1] = "a" -> \E i \in 1..Len(s[2]) : LongKeys(s[2][i])
    [] OTHER -> FALSE
=============================================================================
