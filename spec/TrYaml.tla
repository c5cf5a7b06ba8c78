------------------------------ MODULE TrYaml ------------------------------
(* Trace validation of yaml.cc.                                              *)
EXTENDS DartYaml, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

(* outs[i] = <<names, finalized (1), outcome>> *)
OutOk(ev, d, o) ==
  IF d = Fail THEN o[3] = Err("runtime") \/ (o[3] = Err("arg") /\ \E i \in 1..Len(ev) : ev[i][1] = "v" /\ RleLen(ev[i][3]) > MaxKeyLen)
  ELSE IF LongKeys(d[2]) THEN o[3] = Err("arg")
  ELSE IF o[2] = 1 /\ d[2][1] # "o" THEN o[3] = Err("type")
  ELSE o[3][1] = "ok" /\ YSame(Denote(d[2]), o[3][2])

LineOk(e) == LET d == TLCEval(YamlDoc(e.events)) IN e.same /\ Len(e.outs) > 0 /\ \A i \in 1..Len(e.outs) : OutOk(e.events, d, e.outs[i])

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF LineOk(Trace[l]) THEN TRUE
           ELSE LET e == Trace[l]  d == YamlDoc(e.events)
                IN PrintT(<<"STUCK", l, e.same, e.events, d, {e.outs[i] : i \in {j \in 1..Len(e.outs) : ~OutOk(e.events, d, e.outs[j])}}>>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter, "OF", Len(Trace) + 1>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
