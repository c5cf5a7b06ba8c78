-------------------------------- MODULE TrEq --------------------------------
(* Trace validation of eq.cc: two values compared in every pair of           *)
(* representations ("eq"), or representations with native values ("nat").    *)
(* Every comparison has to be value equality, and != its negation.           *)
EXTENDS DartValue, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

(* A native number compares numerically with either kind of dart number.     *)
NatEq(p, n) ==
  IF (IsInt(p) \/ IsDec(p)) /\ (IsInt(n) \/ IsDec(n))
  THEN IF IsInt(p) /\ IsInt(n) THEN p = n ELSE DblEq(NumBits(p), NumBits(n))
  ELSE VEq(p, n)

(* Whether NaNs and zeros of different sign are equal is representation dependent. *)
Decided(e) == e.op.o = "nat" \/ ~(HasOddDec(e.op.a) /\ HasOddDec(e.op.b))
Want(e) == IF e.op.o = "nat" THEN NatEq(e.op.a, e.op.b) ELSE VEq(e.op.a, e.op.b)

LineOk(e) ==
  /\ e.bad = <<>>
  /\ (e.op.o = "eq" => e.eq # <<>>)
  /\ \A i \in 1..Len(e.eq) :
       /\ e.eq[i][2] = 1 - e.eq[i][1]
       /\ Decided(e) => e.eq[i][1] = BoolN(Want(e))

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF LineOk(Trace[l]) THEN TRUE ELSE PrintT(<<"STUCK", l, Trace[l], "want", Want(Trace[l])>>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter, "OF", Len(Trace) + 1>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
