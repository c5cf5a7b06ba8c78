---------------------------- MODULE DartWireMC ----------------------------
(* Small world of the wire format: objects grown field by field.  The image  *)
(* decodes to the value it was made from (so distinct values have distinct   *)
(* images), is padded to 8, and merging or restricting commutes with it.     *)
EXTENDS DartWire

CONSTANTS MaxFields, MaxLevel, Deep, Mutations
VARIABLES v, w, ph       \* ph = 1: a state to look at closely (spreads the work over the workers)

KeySet == {<<>>, <<353>>, <<354>>, <<353, 256>>, <<353 + 256>>, <<511>>, <<256 * 3 + 97>>}
Scalars == {Null, TrueV, IntV(<<7, 0, 0, 0>>), IntV(<<0, 1, 0, 0>>), IntV(<<32767, 65535, 65535, 65535>>), IntV(<<0, 0, 1, 0>>),
            IntV(<<0, 32768, 65535, 65535>>), IntV(<<65535, 65535, 65535, 32767>>),
            DecV(<<0, 0, 0, 16376>>), DecV(<<39322, 39321, 39321, 16313>>), DecV(<<0, 57344, 65535, 18415>>), DecV(<<1, 0, 0, 0>>), StrV(<<>>), StrV(<<353>>), StrV(<<256, 354>>), StrV(<<256 * 5 + 97>>)}
Some == {Null, IntV(<<0, 0, 1, 0>>), StrV(<<353>>), TrueV, DecV(<<0, 0, 0, 16376>>)}
Pay == Some \cup {ArrV(<<a, b>>) : a \in Some, b \in Some} \cup {EmptyObj, EmptyArr}

Init == v = EmptyObj /\ w = EmptyObj /\ ph = 0
Grow == /\ Len(v[2]) < MaxFields /\ TLCGet("level") < MaxLevel
        /\ \/ \E k \in KeySet, x \in IF Deep THEN Pay ELSE Scalars : v' = ObjV(PutField(v[2], k, x))
           \/ \E k \in KeySet : v' = ObjV(PutField(v[2], k, w))
           \/ v' = ObjV(<<<<<<353>>, ArrV(<<v, w>>)>>>>) /\ v # w
        /\ w' = v /\ ph' = 0
Next == ph = 0 /\ (Grow \/ (ph' = 1 /\ UNCHANGED <<v, w>>))
Spec == Init /\ [][Next]_<<v, w, ph>>

Bytes == TLCEval(RleExpand(Image(v)))
RoundTrip == ph = 0 \/ Decode(Bytes, 0, 0) = v
Padded == ph = 0 \/ (Len(Bytes) % 8 = 0 /\ At32(Bytes, 0) = Len(Bytes))
Safe == ph = 0 \/ SafeAt(Bytes, 0, 0, Len(Bytes))
(* Merging in the image's terms: the image of a union is no longer than both  *)
(* images and the padding between their fields, which is what is allocated.  *)
Fits == ph = 0 \/ LET u == ObjV(PutAll(v[2], w[2])) IN
        RleLen(Image(u)) <= Len(Bytes) + RleLen(Image(w)) + 10 * (Len(v[2]) + Len(w[2]))
(* Whatever SafeAt lets through can be decoded: reading outside the bytes     *)
(* would be an evaluation error of TLC.                                       *)
Mut == {0, 1, 2, 3, 8, 24, 255}
DecodesTo(b) == Decode(b, 0, 0)[1] \in {"o"}
AnyMutationSafe == (ph = 1 /\ Mutations /\ Len(Bytes) <= 120) =>
  /\ \A n \in 0..(Len(Bytes) - 1) : LET b == SubSeq(Bytes, 1, n) IN SafeAt(b, 0, 0, n) => DecodesTo(b)
  /\ \A i \in 1..Len(Bytes), x \in Mut : LET b == [Bytes EXCEPT ![i] = x] IN SafeAt(b, 0, 0, Len(b)) => DecodesTo(b)
=============================================================================
