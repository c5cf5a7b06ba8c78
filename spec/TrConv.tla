------------------------------- MODULE TrConv -------------------------------
(* Trace validation of conv.cc: one native value and one dart value of a     *)
(* type under test.  "to": what the native value became in every way of      *)
(* converting it; "from": what dart values became when read as the native    *)
(* type; "cmp": what comparing a dart value with the native value said.      *)
EXTENDS DartConv, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

(* The native value as the program holds it (sets and maps in their order).  *)
NatOf(e) == e.to[1][2][2]

(* A native map with a key that is no string is refused, or, for keys that   *)
(* are no strings, never equal to anything.                                  *)
ToOk(e, r) ==
  IF Unfit(e.op.t, NatOf(e)) THEN r[2] = <<"err", "type">>
  ELSE r[2][1] = "ok" /\ Rep(e.op.t, r[2][2], NatOf(e), FALSE)
FromOk(e, r) ==
  LET w == From(e.op.t, r[2]) IN
  CASE w[1] = "open" -> TRUE
    [] w[1] = "err" -> r[3] = <<"err", "type">>
    [] OTHER -> r[3][1] = "ok" /\ NEq(e.op.t, r[3][2], w[2])
CmpOk(e, r) ==
  LET n == NatOf(e) IN
  \/ r[3] = <<"ok", BoolN(Rep(e.op.t, r[2], n, TRUE))>>
  \/ Open(e.op.t, r[2], n) /\ r[3] \in {<<"ok", 0>>, <<"ok", 1>>}
  \/ Unfit(e.op.t, n) /\ r[3] = <<"err", "type">>

LineOk(e) ==
  /\ e.bad = <<>>
  /\ Len(e.to) >= 2 /\ e.to[1][2][1] = "ok"
  /\ NEq(e.op.t, NatOf(e), e.op.x)
  /\ \A i \in 2..Len(e.to) : ToOk(e, e.to[i])
  /\ e.from # <<>>
  /\ \A i \in 1..Len(e.from) : FromOk(e, e.from[i])
  /\ \A i \in 1..Len(e.cmp) : CmpOk(e, e.cmp[i])

Bad(e) == <<[i \in {j \in 2..Len(e.to) : ~ToOk(e, e.to[j])} |-> e.to[i]],
            [i \in {j \in 1..Len(e.from) : ~FromOk(e, e.from[j])} |-> <<e.from[i], "want", From(e.op.t, e.from[i][2])>>],
            [i \in {j \in 1..Len(e.cmp) : ~CmpOk(e, e.cmp[j])} |-> <<e.cmp[i], "want", Rep(e.op.t, e.cmp[i][2], NatOf(e), TRUE)>>]>>

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF LineOk(Trace[l]) THEN TRUE ELSE PrintT(<<"STUCK", l, Trace[l].op, "wrong", Bad(Trace[l])>>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter, "OF", Len(Trace) + 1>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
