------------------------------ MODULE TrOffer -------------------------------
(* Trace validation of wrap.cc's offer mode: one value offered to the        *)
(* wrapper of every kind, copied and moved, in every representation.  The    *)
(* wrapper takes it if and only if it is of its kind; a refused value is     *)
(* left as it was, and so is one that was copied.                            *)
EXTENDS DartWrap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

GotOk(e, g) ==     \* g = <<name, kind, moved, outcome, source afterwards>>
  IF FitsKind(g[2], e.op.v) THEN g[4] = Ok(e.op.v) /\ (g[5] = e.op.v \/ (g[3] = 1 /\ IsNull(g[5])))
  ELSE g[4] = Err("type") /\ g[5] = e.op.v

LineOk(e) == e.bad = <<>> /\ e.got # <<>> /\ \A i \in 1..Len(e.got) : GotOk(e, e.got[i])

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF LineOk(Trace[l]) THEN TRUE ELSE PrintT(<<"STUCK", l, Trace[l].op, Trace[l].bad, {Trace[l].got[i] : i \in {j \in 1..Len(Trace[l].got) : ~GotOk(Trace[l], Trace[l].got[j])}}>>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter, "OF", Len(Trace) + 1>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
