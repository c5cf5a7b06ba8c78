------------------------------- MODULE TrAbi -------------------------------
(* Trace validation: is a recorded sequence of C calls (abi.cc) a behaviour   *)
(* of DartAbi?  After every call the trace has, for every slot, the value read *)
(* through the C interface, the reference count, finalized?, kind and counter. *)
EXTENDS DartAbi, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l

SlotMatches(a, s, p) == p[1] = SlotVal(a.st, s) /\ p[2] = RcSlot(a.st, s) /\ <<p[4], p[5]>> = a.ty[s]
                        /\ (p[3] = 1) = (IsFin(a.st, s) \/ p[4] = Buffer \/ (p[4] = Packet /\ IsNull(p[1]) /\ p[3] = 1))
Matches(a, e) ==
  /\ \A s \in 1..Len(e.p) : SlotMatches(a, s, e.p[s])
  /\ "qr" \in DOMAIN e => \A i \in 1..Len(e.qr) : AnswerOk(a, e.op.q[i][1], e.op.q[i][2], e.qr[i])
Step(a, e) ==
  CASE e.op.o = "reset" -> IF e.leak = 0 THEN {AInit(e.op.slots, e.op.its)} ELSE {}
    [] e.op.o = "end"   -> IF e.leak = 0 THEN {a} ELSE {}
    [] OTHER -> {r[1] : r \in {x \in AApply(a, e.op, LAMBDA d : e.p[d][1]) : e.out = x[2] /\ Matches(x[1], e)}}
Init == st = AInit(1, 0) /\ l = 1
Explain(a, e) ==
  PrintT(<<"STUCK", l, e.op, "saw", IF "p" \in DOMAIN e THEN <<e.out, e.p>> ELSE e, IF "qr" \in DOMAIN e THEN e.qr ELSE <<>>,
           "allowed", IF "p" \notin DOMAIN e THEN {} ELSE
             {<<r[2], [s \in 1..(Len(a.st.sl) - 1) |-> <<SlotVal(r[1].st, s), RcSlot(r[1].st, s), IsFin(r[1].st, s), r[1].ty[s]>>]>> : r \in AApply(a, e.op, LAMBDA d : e.p[d][1])}>>)
Next == /\ l <= Len(Trace)
        /\ LET S == Step(st, Trace[l])
           IN IF S = {} THEN Explain(st, Trace[l]) /\ FALSE ELSE \E t \in S : st' = t /\ l' = l + 1
Spec == Init /\ [][Next]_<<st, l>>
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter, "OF", Len(Trace) + 1>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
