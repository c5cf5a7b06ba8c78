----------------------------- MODULE DartBytes -----------------------------
(* Byte strings, 64-bit words and IEEE doubles for the libdart specification. *)
(* TLC's integers are 32 bits wide, so                                        *)
(*   - a byte string is a run-length list of integers byte + 256 * count      *)
(*     (runs maximal, so equal strings are equal tuples);                     *)
(*   - a 64-bit word is four 16-bit limbs, least significant first.           *)
EXTENDS Integers, Sequences, TLC

RunByte(r)  == r % 256
RunCount(r) == r \div 256
Run(b, n)   == b + 256 * n

(* ---------------------------------------------------------- byte strings *)
RECURSIVE RleLen(_)
RleLen(s) == IF s = <<>> THEN 0 ELSE RunCount(s[1]) + RleLen(Tail(s))

(* Append runs, keeping them maximal. *)
RleCat(a, b) ==
  IF a = <<>> THEN b
  ELSE IF b = <<>> THEN a
  ELSE LET x == a[Len(a)]
           y == b[1]
       IN IF RunByte(x) = RunByte(y)
            THEN SubSeq(a, 1, Len(a) - 1) \o <<Run(RunByte(x), RunCount(x) + RunCount(y))>> \o Tail(b)
            ELSE a \o b

RECURSIVE RleOf(_)          \* plain byte sequence -> runs
RleOf(bytes) == IF bytes = <<>> THEN <<>>
                ELSE RleCat(<<Run(bytes[1], 1)>>, RleOf(Tail(bytes)))

RECURSIVE RleExpand(_)      \* runs -> plain byte sequence
RleExpand(s) == IF s = <<>> THEN <<>>
                ELSE [i \in 1..RunCount(s[1]) |-> RunByte(s[1])] \o RleExpand(Tail(s))

RECURSIVE RleTake(_, _)
RleTake(s, n) ==
  IF n <= 0 \/ s = <<>> THEN <<>>
  ELSE LET c == RunCount(s[1]) IN
       IF c >= n THEN <<Run(RunByte(s[1]), n)>>
       ELSE <<s[1]>> \o RleTake(Tail(s), n - c)

RECURSIVE RleDrop(_, _)
RleDrop(s, n) ==
  IF n <= 0 \/ s = <<>> THEN s
  ELSE LET c == RunCount(s[1]) IN
       IF c > n THEN <<Run(RunByte(s[1]), c - n)>> \o Tail(s)
       ELSE RleDrop(Tail(s), n - c)

(* Lexicographic order on unsigned bytes, for strings of equal length. *)
RECURSIVE RleLex(_, _)
RleLex(a, b) ==
  IF a = <<>> \/ b = <<>> THEN FALSE
  ELSE LET x == a[1]
           y == b[1]
           m == IF RunCount(x) < RunCount(y) THEN RunCount(x) ELSE RunCount(y)
       IN IF RunByte(x) # RunByte(y) THEN RunByte(x) < RunByte(y)
          ELSE RleLex(RleDrop(a, m), RleDrop(b, m))

(* The enumeration order of object keys: length first, then bytewise. *)
KeyLess(a, b) == LET la == RleLen(a)
                     lb == RleLen(b)
                 IN la < lb \/ (la = lb /\ RleLex(a, b))

(* Split at a separator byte: the list of pieces, always at least one. *)
RECURSIVE RleSplit(_, _, _)
RleSplit(s, sep, cur) ==
  IF s = <<>> THEN <<cur>>
  ELSE IF RunByte(s[1]) = sep
       THEN <<cur>> \o (IF RunCount(s[1]) = 1
                          THEN RleSplit(Tail(s), sep, <<>>)
                          ELSE RleSplit(<<Run(sep, RunCount(s[1]) - 1)>> \o Tail(s), sep, <<>>))
       ELSE RleSplit(Tail(s), sep, cur \o <<s[1]>>)

(* ------------------------------------------------------------ 64-bit words *)
Pow2[n \in 0..30] == IF n = 0 THEN 1 ELSE 2 * Pow2[n - 1]
Bit(l, i) == (l[(i \div 16) + 1] \div Pow2[i % 16]) % 2       \* i in 0..63
Zero64 == <<0, 0, 0, 0>>
Not64(l) == <<65535 - l[1], 65535 - l[2], 65535 - l[3], 65535 - l[4]>>
Add64(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div 65536)
      s3 == a[3] + b[3] + (s2 \div 65536)
      s4 == a[4] + b[4] + (s3 \div 65536)
  IN <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
Neg64(l) == Add64(Not64(l), <<1, 0, 0, 0>>)
Sub64(a, b) == Add64(a, Neg64(b))
IsNeg64(l) == l[4] >= 32768
Abs64(l) == IF IsNeg64(l) THEN Neg64(l) ELSE l
ULess64(a, b) == \/ a[4] < b[4]
                 \/ a[4] = b[4] /\ a[3] < b[3]
                 \/ a[4] = b[4] /\ a[3] = b[3] /\ a[2] < b[2]
                 \/ a[4] = b[4] /\ a[3] = b[3] /\ a[2] = b[2] /\ a[1] < b[1]
(* Multiply by a small natural and add a small natural, modulo 2^64. *)
MulAdd64(l, m, c) ==
  LET s1 == l[1] * m + c
      s2 == l[2] * m + (s1 \div 65536)
      s3 == l[3] * m + (s2 \div 65536)
      s4 == l[4] * m + (s3 \div 65536)
  IN <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
MulCarry64(l, m, c) ==
  LET s1 == l[1] * m + c
      s2 == l[2] * m + (s1 \div 65536)
      s3 == l[3] * m + (s2 \div 65536)
  IN (l[4] * m + (s3 \div 65536)) \div 65536

FitsI16(l) == \/ l[2] = 0 /\ l[3] = 0 /\ l[4] = 0 /\ l[1] < 32768
              \/ l[2] = 65535 /\ l[3] = 65535 /\ l[4] = 65535 /\ l[1] >= 32768
FitsI32(l) == \/ l[3] = 0 /\ l[4] = 0 /\ l[2] < 32768
              \/ l[3] = 65535 /\ l[4] = 65535 /\ l[2] >= 32768

(* Word -> TLC integer, for words that fit one (else -1). *)
SmallNat64(l) == IF l[3] = 0 /\ l[4] = 0 /\ l[2] < 32768 THEN l[1] + 65536 * l[2] ELSE -1

(* --------------------------------------------------------- IEEE-754 double *)
(* sign: bit 63, exponent: bits 52..62, fraction: bits 0..51.               *)
DblSign(l) == l[4] \div 32768
DblExp(l)  == (l[4] \div 16) % 2048
DblFracZero(l) == l[1] = 0 /\ l[2] = 0 /\ l[3] = 0 /\ l[4] % 16 = 0
DblIsNaN(l) == DblExp(l) = 2047 /\ ~DblFracZero(l)
DblIsInf(l) == DblExp(l) = 2047 /\ DblFracZero(l)
DblIsZero(l) == DblExp(l) = 0 /\ DblFracZero(l)
DblFinite(l) == DblExp(l) < 2047

(* Position of the highest set bit (-1 if none). *)
RECURSIVE TopBitFrom(_, _)
TopBitFrom(l, i) == IF i < 0 THEN -1 ELSE IF Bit(l, i) = 1 THEN i ELSE TopBitFrom(l, i - 1)
TopBit(l) == TopBitFrom(l, 63)

(* Pack bits: f(i) for i in lo..hi-th of 16 -> limb *)
LimbOf(f) == LET S[i \in 0..16] == IF i = 0 THEN 0 ELSE S[i-1] + f[i-1] * Pow2[i-1] IN S[16]

(* Unsigned magnitude -> double magnitude (round to nearest even). *)
UToDbl(m) ==
  LET t == TopBit(m) IN
  IF t < 0 THEN Zero64
  ELSE
    LET \* fraction bit k (0..51) comes from bit t-52+k of m
        src(k) == LET j == t - 52 + k IN IF j < 0 THEN 0 ELSE Bit(m, j)
        raw == << LimbOf([i \in 0..15 |-> src(i)]), LimbOf([i \in 0..15 |-> src(16 + i)]),
                  LimbOf([i \in 0..15 |-> src(32 + i)]),
                  LimbOf([i \in 0..15 |-> IF i < 4 THEN src(48 + i) ELSE 0]) + 16 * (t + 1023) >>
        guardpos == t - 53
        guard == IF guardpos < 0 THEN 0 ELSE Bit(m, guardpos)
        sticky == \E j \in 0..63 : j < guardpos /\ Bit(m, j) = 1
        odd == src(0) = 1
    IN IF guard = 1 /\ (sticky \/ odd) THEN Add64(raw, <<1, 0, 0, 0>>) ELSE raw

(* Signed 64-bit integer -> double bits. *)
IntToDbl(l) == LET d == UToDbl(Abs64(l)) IN
               IF IsNeg64(l) THEN <<d[1], d[2], d[3], d[4] + 32768>> ELSE d

(* Numeric equality of two doubles given as bits. *)
DblEq(a, b) == /\ ~DblIsNaN(a) /\ ~DblIsNaN(b)
               /\ (a = b \/ (DblIsZero(a) /\ DblIsZero(b)))

(* Is the double exactly a single-precision float? (finite, not NaN)       *)
(* normal floats: exponent in -126..127 and the low 29 fraction bits zero;   *)
(* subnormal floats: 2^-149 granularity.                                     *)
DblIsFloat(l) ==
  IF DblIsZero(l) THEN TRUE
  ELSE IF DblIsNaN(l) THEN FALSE
  ELSE IF DblIsInf(l) THEN TRUE
  ELSE LET e == DblExp(l) - 1023
           lowbits(n) == \A i \in 0..63 : i < n => Bit(l, i) = 0
       IN IF e >= -126 THEN e <= 127 /\ lowbits(29)
          ELSE IF DblExp(l) = 0 \/ e < -149 THEN FALSE
          ELSE lowbits(29 + (-126 - e))

(* Double known to be a float -> its 32-bit pattern as <<lo16, hi16>>. *)
DblToFloat(l) ==
  IF DblIsZero(l) THEN <<0, 32768 * DblSign(l)>>
  ELSE IF DblIsInf(l) THEN <<0, 32768 * DblSign(l) + 32640>>
  ELSE LET e == DblExp(l) - 1023
           sh == IF e >= -126 THEN 29 ELSE 29 + (-126 - e)
           \* float fraction bit k (0..22); subnormals include the hidden one
           src(k) == LET j == k + sh IN IF j < 52 THEN Bit(l, j) ELSE IF j = 52 /\ e < -126 THEN 1 ELSE 0
           lo == LimbOf([i \in 0..15 |-> src(i)])
           hi == LimbOf([i \in 0..15 |-> IF i < 7 THEN src(16 + i) ELSE 0])
           ex == IF e >= -126 THEN e + 127 ELSE 0
       IN <<lo, hi + 128 * ex + 32768 * DblSign(l)>>

CanonNaN == <<0, 0, 0, 32760>>
(* 32-bit pattern <<lo16, hi16>> -> double bits (every NaN becomes CanonNaN). *)
FloatToDbl(x) ==
  LET sg == x[2] \div 32768  ex == (x[2] \div 128) % 256
      frac == <<x[1], x[2] % 128, 0, 0>>
      bit(k) == IF k < 0 THEN 0 ELSE Bit(frac, k)
      top == LimbOf([i \in 0..15 |-> IF i < 4 THEN bit(19 + i) ELSE 0])
      shifted(e) == << 0, LimbOf([i \in 0..15 |-> bit(i - 13)]), LimbOf([i \in 0..15 |-> bit(i + 3)]), top + 16 * e + 32768 * sg >>
  IN CASE ex = 255 -> IF frac = Zero64 THEN <<0, 0, 0, 32752 + 32768 * sg>> ELSE CanonNaN
       [] ex = 0 -> IF frac = Zero64 THEN <<0, 0, 0, 32768 * sg>>
                    ELSE LET d == UToDbl(frac) IN <<d[1], d[2], d[3], d[4] - 16 * 149 + 32768 * sg>>
       [] OTHER -> shifted(ex - 127 + 1023)
=============================================================================
