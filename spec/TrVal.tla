------------------------------- MODULE TrVal -------------------------------
(* Trace validation of val.cc: what validation accepts is safe to read and   *)
(* reads as the specification says; what the library wrote is accepted.      *)
EXTENDS DartWire, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Edited(img, m) ==
  LET n == m[1]  es == m[3]
      base == IF n <= Len(img) THEN SubSeq(img, 1, n) ELSE img \o [i \in 1..(n - Len(img)) |-> 0]
      E[k \in 0..Len(es)] == IF k = 0 THEN base ELSE IF es[k][1] < n THEN [E[k - 1] EXCEPT ![es[k][1] + 1] = es[k][2]] ELSE E[k - 1]
  IN E[Len(es)]

(* r = <<accepted, <<"ok", value read, value lifted>>>> *)
MutOk(img, m, r) ==
  LET b == TLCEval(Edited(img, m))  own == m[2] = 0 /\ m[1] >= Len(img) /\ b = img \o [i \in 1..(m[1] - Len(img)) |-> 0]
  IN CASE r[1] = 2 -> FALSE
       [] r[1] = 0 -> ~own
       [] OTHER ->
            \/ m[2] # 0       \* accepted although misaligned: nothing more was tried
            \/ /\ SafeAt(b, 0, 0, m[1])
               /\ r[2][1] = "ok"
               /\ LET d == TLCEval(Decode(b, 0, 0))
                  IN /\ CanonV(r[2][2]) = d
                     /\ (r[2][3] # <<>> /\ NoDups(d)) => CanonV(r[2][3]) = Sorted(d)
               /\ own => r[2][3] # <<>>

Img(e) == TLCEval(RleExpand(e.img))
(* Long images are only offered as they are. *)
Plain(e) == RleLen(e.img) > 5000
PlainOk(e) == \A i \in 1..Len(e.outs) : e.outs[i] = <<1, <<"ok", e.op.v, e.op.v>>>>
LineOk(e) == /\ e.img = Image(e.op.v)
             /\ IF Plain(e) THEN PlainOk(e) ELSE LET img == Img(e) IN \A i \in 1..Len(e.outs) : MutOk(img, e.op.m[i], e.outs[i])
Wrong(e) == IF Plain(e) THEN e.outs ELSE LET img == Img(e) IN {<<e.op.m[i], e.outs[i]>> : i \in {j \in 1..Len(e.outs) : ~MutOk(img, e.op.m[j], e.outs[j])}}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF LineOk(Trace[l]) THEN TRUE ELSE PrintT(<<"STUCK", l, Trace[l].img, Wrong(Trace[l])>>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter, "OF", Len(Trace) + 1>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
