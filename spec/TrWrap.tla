------------------------------- MODULE TrWrap -------------------------------
(* Trace validation of wrap.cc's machine mode against DartWrap: after every  *)
(* operation all thirteen registers and the outcome have to be what the      *)
(* specification allows.                                                     *)
EXTENDS DartWrap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vals, fin, l

Step(e) == {r[1] : r \in {x \in WApply(vals, fin, e) : x[2] = e.out /\ x[1] = e.st}}

Init == vals = Fresh /\ fin = [i \in 1..13 |-> FALSE] /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ IF Step(e) = {} THEN PrintT(<<"STUCK", l, e.op, "before", vals, "after", e.st, "out", e.out, "allowed", WApply(vals, fin, e)>>) /\ FALSE ELSE TRUE
           /\ vals' \in Step(e)
           /\ fin' = [i \in 1..13 |-> e.fin[i] = 1]
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<vals, fin, l>>
KeepsType == Typed(vals)
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter, "OF", Len(Trace) + 1>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
