----------------------------- MODULE DartYaml -----------------------------
(* YAML documents, as the events of their first document, to values.         *)
EXTENDS DartText

Fail == <<"e">>

(* ----------------------------------------------- what a plain scalar says *)
IsOct(c) == c \in 48..55
RECURSIVE OctDigits(_, _), HexDigits(_, _)
OctDigits(b, i) == IF IsOct(At(b, i)) THEN OctDigits(b, i + 1) ELSE i
HexDigits(b, i) == IF HexVal(At(b, i)) >= 0 THEN HexDigits(b, i + 1) ELSE i
RECURSIVE NatBase(_, _, _)          \* digits -> <<limbs, fits in 64 bits>>
NatBase(d, base, l) == IF d = <<>> THEN <<l, TRUE>>
                       ELSE IF MulCarry64(l, base, d[1]) # 0 THEN <<l, FALSE>> ELSE NatBase(Tail(d), base, MulAdd64(l, base, d[1]))

(* A number in C's notation: <<"v", symbolic value>> if all of b is one,      *)
(* <<"s">> if it is a string, <<"?">> where nothing is promised.             *)
NumScalar(b) ==
  LET signed == At(b, 1) \in {43, 45}
      neg == IF At(b, 1) = 45 THEN 1 ELSE 0
      i == IF signed THEN 2 ELSE 1
      hex == At(b, i) = 48 /\ At(b, i + 1) \in {120, 88} /\ HexVal(At(b, i + 2)) >= 0
      oct == ~hex /\ At(b, i) = 48
      from == IF hex THEN i + 2 ELSE i
      to == IF hex THEN HexDigits(b, from) ELSE IF oct THEN OctDigits(b, from) ELSE Digits(b, from)
      n == NatBase([k \in 1..(to - from) |-> HexVal(At(b, from + k - 1))], IF hex THEN 16 ELSE IF oct THEN 8 ELSE 10, Zero64)
      fits == n[2] /\ (n[1][4] < 32768 \/ (neg = 1 /\ n[1] = <<0, 0, 0, 32768>>))
      j == Digits(b, i)
      fe == IF At(b, j) = 46 THEN Digits(b, j + 1) ELSE j
      sg == IF At(b, fe + 1) \in {43, 45} THEN 1 ELSE 0
      hasExp == At(b, fe) \in {101, 69} /\ IsDigit(At(b, fe + 1 + sg))
      es == fe + 1 + sg
      ee == IF hasExp THEN Digits(b, es) ELSE fe
      ip == DigitSeq(b, i, j)
      fp == IF At(b, j) = 46 THEN DigitSeq(b, j + 1, fe) ELSE <<>>
      ex == IF hasExp THEN LET x == SmallInt(DigitSeq(b, es, ee), 0) IN IF At(b, fe + 1) = 45 THEN -x ELSE x ELSE 0
  IN IF ~IsDigit(At(b, i)) THEN <<"s">>
     ELSE IF At(b, i) = 48 /\ At(b, i + 1) \in {98, 66} THEN <<"?">>                     \* 0b: up to the C library
     ELSE IF to = Len(b) + 1 THEN IF fits THEN <<"v", IntV(IF neg = 1 THEN Neg64(n[1]) ELSE n[1])>> ELSE <<"s">>
     ELSE IF At(b, to) \notin {46, 101, 69} THEN <<"s">>
     ELSE IF hex THEN <<"?">>                                                            \* hexadecimal floats
     ELSE IF ee # Len(b) + 1 THEN <<"s">>
     ELSE <<"v", <<"D", neg, ip \o fp, ex - Len(fp)>>>>
(* Decimals at the edge of what a double can hold may stay strings. *)
EdgeD(s) == LET dz == StripZ(s[3]) IN dz # <<>> /\ (Len(dz) + s[4] > 308 \/ Len(dz) + s[4] < -306)

PlainScalar(r) ==
  LET b == Cells(r) IN
  IF b = <<110, 117, 108, 108>> THEN <<"v", Null>>
  ELSE IF b = <<116, 114, 117, 101>> THEN <<"v", TrueV>>
  ELSE IF b = <<102, 97, 108, 115, 101>> THEN <<"v", FalseV>>
  ELSE LET n == NumScalar(b) IN IF n[1] = "s" THEN <<"v", StrV(r)>> ELSE n

(* A symbolic scalar: a value, or <<"D", ..>>, or <<"E", r, D>> (string r or  *)
(* decimal D), or <<"?">>.                                                   *)
Scalar(e) ==
  IF e[2] = 0 THEN StrV(e[3])
  ELSE LET s == PlainScalar(e[3]) IN
       IF s[1] = "?" THEN <<"?">>
       ELSE IF s[2][1] = "D" /\ EdgeD(s[2]) THEN <<"?">> ELSE s[2]

(* ------------------------------------------------------------ the machine *)
(* Node(ev, i): <<"v", symbolic value, next>> or Fail.                        *)
Ev(ev, i) == IF i > Len(ev) THEN "X" ELSE ev[i][1]
RECURSIVE Node(_, _), Pairs(_, _, _), SeqItems(_, _, _)
Node(ev, i) ==
  CASE Ev(ev, i) = "v" -> <<"v", Scalar(ev[i]), i + 1>>
    [] Ev(ev, i) = "M" -> Pairs(ev, i + 1, <<>>)
    [] Ev(ev, i) = "S" -> SeqItems(ev, i + 1, <<>>)
    [] OTHER -> Fail
Pairs(ev, i, acc) ==
  IF Ev(ev, i) = "m" THEN <<"v", ObjV(acc), i + 1>>
  ELSE IF Ev(ev, i) # "v" THEN Fail                       \* only scalars are keys
  ELSE LET v == TLCEval(Node(ev, i + 1)) IN
       IF v = Fail THEN Fail ELSE Pairs(ev, v[3], Append(acc, <<ev[i][3], v[2]>>))
SeqItems(ev, i, acc) ==
  IF Ev(ev, i) = "s" THEN <<"v", ArrV(acc), i + 1>>
  ELSE LET v == TLCEval(Node(ev, i)) IN
       IF v = Fail THEN Fail ELSE SeqItems(ev, v[3], Append(acc, v[2]))

(* The document: <<"v", symbolic value>>, or Fail. *)
YamlDoc(ev) ==
  IF ev = <<>> THEN <<"v", EmptyObj>>                     \* no document at all
  ELSE IF Ev(ev, 1) \notin {"M", "S"} THEN Fail
  ELSE LET v == TLCEval(Node(ev, 1)) IN IF v = Fail \/ v[3] # Len(ev) + 1 THEN Fail ELSE <<"v", v[2]>>

RECURSIVE YSame(_, _)
YSame(s, v) ==
  CASE s[1] = "o" -> v[1] = "o" /\ Len(v[2]) = Len(s[2]) /\ \A i \in 1..Len(s[2]) : v[2][i][1] = s[2][i][1] /\ YSame(s[2][i][2], v[2][i][2])
    [] s[1] = "a" -> v[1] = "a" /\ Len(v[2]) = Len(s[2]) /\ \A i \in 1..Len(s[2]) : YSame(s[2][i], v[2][i])
    [] s[1] = "?" -> v[1] \in {"i", "d", "s"}
    [] OTHER -> Same(s, v, TRUE)
=============================================================================
