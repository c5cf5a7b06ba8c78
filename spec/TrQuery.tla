------------------------------ MODULE TrQuery ------------------------------
(* Trace validation of qd.cc: one value, many representations of it, many    *)
(* queries.  Every representation has to give an answer the specification    *)
(* allows for the value; "skip" marks an operation the type does not have.   *)
EXTENDS DartValue, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l

AsSlot(K) == IF K[1] = "V" THEN <<"v", K[2]>> ELSE K
Keyed == {"get", "br", "at", "or", "hask"}
ResolveQ(q) == IF q[1] \in Keyed THEN [q EXCEPT ![2] = AsSlot(q[2])] ELSE q

AnswerOk(v, q, o) == o[1] = "skip" \/ o \in QRes(v, ResolveQ(q))
Wrong(e) == {<<e.outs[i][1], e.op.q[j], e.outs[i][2][j], "allowed", QRes(e.op.v, ResolveQ(e.op.q[j]))>> :
               <<i, j>> \in {p \in (1..Len(e.outs)) \X (1..Len(e.op.q)) : ~AnswerOk(e.op.v, e.op.q[p[2]], e.outs[p[1]][2][p[2]])}}

LineOk(e) ==
  /\ e.bad = <<>>                                    \* every representation could be built
  /\ e.n > 0
  /\ \A i \in 1..Len(e.outs) :
       /\ Len(e.outs[i][2]) = Len(e.op.q)
       /\ \A j \in 1..Len(e.op.q) : AnswerOk(e.op.v, e.op.q[j], e.outs[i][2][j])

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF LineOk(Trace[l]) THEN TRUE ELSE PrintT(<<"STUCK", l, Trace[l].bad, Wrong(Trace[l])>>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter, "OF", Len(Trace) + 1>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
