----------------------------- MODULE DartWire -----------------------------
(* The flat network image of a value: little endian, self contained, every   *)
(* padding byte zero.  Image(v) is the exact byte string the library has to  *)
(* produce for an object, whichever way it was produced.                     *)
(*                                                                            *)
(*   object  u32 bytes, u32 elems, elems x {u32 key offset, u8 type, u8 key   *)
(*           length capped at 255, first two key bytes}, then per field in    *)
(*           key order the key (as a string, 2-aligned) and the value         *)
(*           (aligned for its type); the whole padded to a multiple of 8      *)
(*   array   u32 bytes, u32 elems, elems x {u32 value offset, u8 type, 0 0 0},*)
(*           then the values, each aligned for its type                       *)
(*   string  u16 length, characters, NUL       (u32 length when it exceeds    *)
(*           65535, as big_string)                                            *)
(*   integer in the narrowest of 2, 4, 8 bytes; decimal as float when that is *)
(*           exact, else as double; boolean in one byte; null in no byte      *)
EXTENDS DartValue

Zeros(n) == IF n <= 0 THEN <<>> ELSE <<Run(0, n)>>
Byte(b) == <<Run(b, 1)>>
U16(n) == RleCat(Byte(n % 256), Byte((n \div 256) % 256))
U32(n) == RleCat(U16(n % 65536), U16(n \div 65536))
Up(n, a) == ((n + a - 1) \div a) * a

(* The type stored in the tables (small strings travel as plain strings). *)
RawType(v) ==
  CASE IsObj(v) -> 0
    [] IsArr(v) -> 1
    [] IsStr(v) -> IF RleLen(v[2]) > 65535 THEN 4 ELSE 2
    [] IsInt(v) -> IF FitsI16(Limbs(v)) THEN 5 ELSE IF FitsI32(Limbs(v)) THEN 6 ELSE 7
    [] IsDec(v) -> IF DblIsFloat(Limbs(v)) THEN 8 ELSE 9
    [] IsBool(v) -> 10
    [] OTHER -> 11
AlignOf(t) == CASE t \in {0, 1} -> 8 [] t = 2 -> 2 [] t = 4 -> 4 [] t = 5 -> 2 [] t = 6 -> 4 [] t = 7 -> 8
                [] t = 8 -> 4 [] t = 9 -> 8 [] OTHER -> 1

StrImg(r) == LET n == RleLen(r) IN RleCat(RleCat(IF n > 65535 THEN U32(n) ELSE U16(n), r), Byte(0))
KeyPrefix(k) == RleCat(RleTake(k, 2), Zeros(2 - RleLen(k)))
Cap255(n) == IF n > 255 THEN 255 ELSE n

RECURSIVE Image(_), ObjBody(_, _, _, _), ArrBody(_, _, _, _)
(* acc: tables so far and bytes so far; off: offset of the next free byte. *)
ObjBody(f, off, tab, body) ==
  IF f = <<>> THEN <<off, tab, body>>
  ELSE LET k == f[1][1]  v == f[1][2]  t == RawType(v)
           koff == Up(off, 2)
           kimg == StrImg(k)
           kend == koff + RleLen(kimg)
           voff == Up(kend, AlignOf(t))
           vimg == TLCEval(Image(v))
       IN ObjBody(Tail(f), voff + RleLen(vimg),
                  TLCEval(RleCat(tab, RleCat(U32(koff), RleCat(Byte(t), RleCat(Byte(Cap255(RleLen(k))), KeyPrefix(k)))))),
                  TLCEval(RleCat(body, RleCat(Zeros(koff - off), RleCat(kimg, RleCat(Zeros(voff - kend), vimg))))))
ArrBody(s, off, tab, body) ==
  IF s = <<>> THEN <<off, tab, body>>
  ELSE LET v == s[1]  t == RawType(v)
           voff == Up(off, AlignOf(t))
           vimg == TLCEval(Image(v))
       IN ArrBody(Tail(s), voff + RleLen(vimg),
                  TLCEval(RleCat(tab, RleCat(U32(voff), RleCat(Byte(t), Zeros(3))))),
                  TLCEval(RleCat(body, RleCat(Zeros(voff - off), vimg))))
Image(v) ==
  CASE IsObj(v) ->
        LET b == ObjBody(v[2], 8 + 8 * Len(v[2]), <<>>, <<>>)
            n == Up(b[1], 8)
        IN RleCat(U32(n), RleCat(U32(Len(v[2])), RleCat(b[2], RleCat(b[3], Zeros(n - b[1])))))
    [] IsArr(v) ->
        LET b == ArrBody(v[2], 8 + 8 * Len(v[2]), <<>>, <<>>)
        IN RleCat(U32(b[1]), RleCat(U32(Len(v[2])), RleCat(b[2], b[3])))
    [] IsStr(v) -> StrImg(v[2])
    [] IsInt(v) -> LET l == Limbs(v) IN
                   IF FitsI16(l) THEN U16(l[1])
                   ELSE IF FitsI32(l) THEN RleCat(U16(l[1]), U16(l[2]))
                   ELSE RleCat(RleCat(U16(l[1]), U16(l[2])), RleCat(U16(l[3]), U16(l[4])))
    [] IsDec(v) -> LET l == Limbs(v) IN
                   IF DblIsFloat(l) THEN LET x == DblToFloat(l) IN RleCat(U16(x[1]), U16(x[2]))
                   ELSE RleCat(RleCat(U16(l[1]), U16(l[2])), RleCat(U16(l[3]), U16(l[4])))
    [] IsBool(v) -> Byte(v[2])
    [] OTHER -> <<>>

(* ---------------------------------------------------- reading an image back *)
(* A byte string is given here as a sequence b of bytes; o is the offset of  *)
(* the value in it and t its type.                                           *)
At16(b, o) == b[o + 1] + 256 * b[o + 2]
Huge == 1073741824
(* Capped: everything from Huge on is the same to us, nothing is that long.  *)
At32(b, o) == LET h == At16(b, o + 2) IN IF h >= 16384 THEN Huge ELSE At16(b, o) + 65536 * h

(* What a reader needs to be able to rely on: every read it can be led to    *)
(* stays within the n bytes the value may occupy, strings are terminated,    *)
(* offsets are aligned, and nothing overlaps (so that reading takes time     *)
(* proportional to the size, and copying the parts fits where the whole did).*)
(* Base addresses are multiples of 8.                                        *)
HeaderLen(t) == CASE t \in {0, 1} -> 8 [] t \in {2, 3, 5} -> 2 [] t \in {4, 6, 8} -> 4 [] t \in {7, 9} -> 8 [] t = 10 -> 1 [] OTHER -> 0
AlignT(t) == IF t = 3 THEN 2 ELSE AlignOf(t)
SizeAt(b, o, t) ==
  CASE t \in {0, 1} -> At32(b, o)
    [] t \in {2, 3} -> 3 + At16(b, o)
    [] t = 4 -> 5 + At32(b, o)
    [] OTHER -> HeaderLen(t)

RECURSIVE SafeAt(_, _, _, _), SafeElems(_, _, _, _, _, _)
SafeAt(b, o, t, n) ==
  /\ t \in 0..11
  /\ n >= HeaderLen(t)
  /\ SizeAt(b, o, t) <= n
  /\ t \in {2, 3, 4} => b[o + SizeAt(b, o, t)] = 0
  /\ t \in {0, 1} =>
       LET size == At32(b, o)  cnt == At32(b, o + 4)
       IN /\ size >= 8
          /\ cnt <= (size - 8) \div 8
          /\ SafeElems(b, o, t, size, 0, 8 + 8 * cnt)
SafeElems(b, o, t, size, i, prev) ==
  i >= At32(b, o + 4) \/
  LET e == o + 8 + 8 * i
      off == At32(b, e)  vt == b[e + 5]
      ko == off                                    \* objects: the key, the value follows it
      klen == IF t = 0 THEN 3 + At16(b, o + ko) ELSE 0
      vo == IF t = 0 THEN Up((o + ko + klen), AlignT(vt)) - o ELSE off
      keyok == t = 0 => /\ ko >= prev /\ ko + 2 <= size /\ (o + ko) % 2 = 0
                        /\ SafeAt(b, o + ko, 2, size - ko)
  IN /\ vt \in 0..11
     /\ keyok
     /\ vo >= prev /\ vo <= size /\ (o + vo) % AlignT(vt) = 0
     /\ SafeAt(b, o + vo, vt, size - vo)
     /\ SafeElems(b, o, t, size, i + 1, vo + SizeAt(b, o + vo, vt))

RECURSIVE Decode(_, _, _)
Decode(b, o, t) ==
  CASE t = 0 -> ObjV([i \in 1..At32(b, o + 4) |->
                   LET e == o + 8 + 8 * (i - 1)  ko == o + At32(b, e)  n == At16(b, ko)
                       vt == b[e + 5]
                   IN <<RleOf(SubSeq(b, ko + 3, ko + 2 + n)), Decode(b, Up(ko + n + 3, AlignT(vt)), vt)>>])
    [] t = 1 -> ArrV([i \in 1..At32(b, o + 4) |-> LET e == o + 8 + 8 * (i - 1) IN Decode(b, o + At32(b, e), b[e + 5])])
    [] t \in {2, 3} -> StrV(RleOf(SubSeq(b, o + 3, o + 2 + At16(b, o))))
    [] t = 4 -> StrV(RleOf(SubSeq(b, o + 5, o + 4 + At32(b, o))))
    [] t = 5 -> LET x == At16(b, o) IN IntV(IF x < 32768 THEN <<x, 0, 0, 0>> ELSE <<x, 65535, 65535, 65535>>)
    [] t = 6 -> LET x == At16(b, o)  y == At16(b, o + 2) IN IntV(IF y < 32768 THEN <<x, y, 0, 0>> ELSE <<x, y, 65535, 65535>>)
    [] t = 7 -> IntV(<<At16(b, o), At16(b, o + 2), At16(b, o + 4), At16(b, o + 6)>>)
    [] t = 8 -> DecV(FloatToDbl(<<At16(b, o), At16(b, o + 2)>>))
    [] t = 9 -> LET l == <<At16(b, o), At16(b, o + 2), At16(b, o + 4), At16(b, o + 6)>> IN DecV(IF DblIsNaN(l) THEN CanonNaN ELSE l)
    [] t = 10 -> <<"b", IF b[o + 1] = 0 THEN 0 ELSE 1>>
    [] OTHER -> Null

(* A recorded value with every NaN replaced by the canonical one. *)
RECURSIVE CanonV(_)
CanonV(v) ==
  CASE IsObj(v) -> ObjV([i \in 1..Len(v[2]) |-> <<v[2][i][1], CanonV(v[2][i][2])>>])
    [] IsArr(v) -> ArrV([i \in 1..Len(v[2]) |-> CanonV(v[2][i])])
    [] IsDec(v) -> IF DblIsNaN(Limbs(v)) THEN DecV(CanonNaN) ELSE v
    [] OTHER -> v
(* No object in it names a key twice. *)
RECURSIVE NoDups(_), Sorted(_)
NoDups(v) ==
  CASE IsObj(v) -> /\ \A i, j \in 1..Len(v[2]) : i < j => v[2][i][1] # v[2][j][1]
                   /\ \A i \in 1..Len(v[2]) : NoDups(v[2][i][2])
    [] IsArr(v) -> \A i \in 1..Len(v[2]) : NoDups(v[2][i])
    [] OTHER -> TRUE
Sorted(v) ==
  CASE IsObj(v) -> LET s == [i \in 1..Len(v[2]) |-> <<v[2][i][1], Sorted(v[2][i][2])>>] IN ObjOf(s)
    [] IsArr(v) -> ArrV([i \in 1..Len(v[2]) |-> Sorted(v[2][i])])
    [] OTHER -> v
=============================================================================
