------------------------------ MODULE TrText ------------------------------
(* Trace validation of text.cc.                                              *)
EXTENDS DartText, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Flags(n) == <<(n % 2) = 1, (n \div 2) % 2 = 1, (n \div 4) % 2 = 1>>

(* Known finding: the parser's decimals are within a few units in the last    *)
(* place of what was written, but not always the nearest double.              *)
Denotes(s, v) == Same(s, v, TRUE) \/ (Same(s, v, FALSE) /\ PrintT(<<"KNOWN", "inexact-decimals">>))

(* parse: outs[i] = <<names, flags, root must be an object (1), outcome>>     *)
ParseOk(b, o) ==
  LET f == Flags(o[2])  d == ParseDoc(b, f)  out == o[4]
  IN IF d = Bad THEN out = Err("parse") \/ (out = Err("type") /\ o[3] = 0 /\ ScalarRoot(b, f))
     ELSE IF HasBig(d[2]) THEN TRUE
     ELSE IF d[2][1] # "o" /\ (o[3] = 1 \/ d[2][1] # "a") THEN out = Err("type")
     ELSE IF LongKeys(d[2]) THEN out = Err("arg")
     ELSE out[1] = "ok" /\ Denotes(Denote(d[2]), out[2])

(* write: outs[i] = <<names, flags of the reader, text>>, backs[i] = <<names, kind, outcome>> *)
WriteOk(v, o) == LET d == ParseDoc(Cells(o[3]), Flags(o[2])) IN d # Bad /\ Same(d[2], v, TRUE)
RECURSIVE HasNaN(_)
HasNaN(v) == CASE IsObj(v) -> \E i \in 1..Len(v[2]) : HasNaN(v[2][i][2])
               [] IsArr(v) -> \E i \in 1..Len(v[2]) : HasNaN(v[2][i])
               [] IsDec(v) -> DblIsNaN(Limbs(v))
               [] OTHER -> FALSE
(* d: what the text written says *)
BackOk(v, d, o) ==
  IF ~IsAgg(v) \/ (o[2] = 1 /\ ~IsObj(v)) THEN o[3] = Err("type")
  ELSE o[3][1] = "ok" /\ (HasNaN(v) \/ o[3][2] = v \/ (Same(d[2], o[3][2], FALSE) /\ PrintT(<<"KNOWN", "inexact-decimals">>)))

Said(e) == TLCEval(ParseDoc(Cells(e.outs[1][3]), <<FALSE, TRUE, FALSE>>))
LineOk(e) ==
  /\ e.bad = <<>>
  /\ IF e.op.o = "parse" THEN LET b == TLCEval(Cells(e.op.t)) IN \A i \in 1..Len(e.outs) : ParseOk(b, e.outs[i])
     ELSE /\ \A i \in 1..Len(e.outs) : WriteOk(e.op.v, e.outs[i])
          /\ LET d == Said(e) IN \A i \in 1..Len(e.backs) : BackOk(e.op.v, d, e.backs[i])
Wrong(e) == IF e.op.o = "parse" THEN LET b == Cells(e.op.t) IN {<<e.outs[i], "denotes", ParseDoc(b, Flags(e.outs[i][2]))>> : i \in {j \in 1..Len(e.outs) : ~ParseOk(b, e.outs[j])}}
            ELSE {e.outs[i] : i \in {j \in 1..Len(e.outs) : ~WriteOk(e.op.v, e.outs[j])}} \cup {e.backs[i] : i \in {j \in 1..Len(e.backs) : ~BackOk(e.op.v, Said(e), e.backs[j])}}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF LineOk(Trace[l]) THEN TRUE ELSE PrintT(<<"STUCK", l, Trace[l].bad, Wrong(Trace[l])>>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter, "OF", Len(Trace) + 1>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
