------------------------------ MODULE TrWire ------------------------------
(* Trace validation of bytes.cc: images produced in many ways, and finalized *)
(* merges.                                                                    *)
EXTENDS DartWire, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Pairs(op) == op.p
DupKey(ps) == \E i, j \in 1..Len(ps) : i < j /\ ps[i][1] = ps[j][1]
LongKey(ps) == \E i \in 1..Len(ps) : RleLen(ps[i][1]) > MaxKeyLen

(* What each kind of result has to be. *)
Union(op) == ObjV(PutAll(op.v[2], op.p))
Build(op) == ObjOf(op.p)
Part(op)  == ObjV(Restrict(op.v[2], op.k))
Result(op, what) == CASE what = "union" -> Union(op) [] what = "part" -> Part(op) [] what = "build" -> Build(op)
                      [] what = "self" -> op.v [] OTHER -> op.v
(* Finalized packets refuse to be built from pairs that name a key twice. *)
Refused(op, what, fin) == what \in {"union", "build"} /\ (LongKey(op.p) \/ (fin = 1 /\ DupKey(op.p)))

Allowed(op, what, fin) ==
  IF Refused(op, what, fin) THEN {Err("arg")}
  ELSE {<<"ok", IF fin = 1 THEN Image(Result(op, what)) ELSE Result(op, what)>>}

(* e.outs[i] = <<names, what, finalized?, outcome>> *)
OutcomeOk(e, i) == LET o == e.outs[i] IN o[4] \in Allowed(e.op, o[2], o[3])
Wrong(e) == {<<e.outs[i][1], e.outs[i][2], "allowed", Allowed(e.op, e.outs[i][2], e.outs[i][3])>> : i \in {j \in 1..Len(e.outs) : ~OutcomeOk(e, j)}}
LineOk(e) == e.bad = <<>> /\ e.outs # <<>> /\ \A i \in 1..Len(e.outs) : OutcomeOk(e, i)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF LineOk(Trace[l]) THEN TRUE ELSE PrintT(<<"STUCK", l, Trace[l].bad, Wrong(Trace[l])>>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter, "OF", Len(Trace) + 1>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
