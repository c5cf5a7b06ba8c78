------------------------------ MODULE TrStore ------------------------------
(* Trace validation: is a recorded execution of the handle machine (vm.cc) a *)
(* behaviour of DartStore?  Each line of the trace is one operation with its *)
(* outcome, the answers to some queries and the projection of every slot     *)
(* (value, reported reference count, finalized?) afterwards.                 *)
EXTENDS DartStore, Json, IOUtils

CONSTANTS ChkVal, ChkRc, ChkFin, ChkLive, ChkOut, ChkQr   \* what this run compares

Trace == ndJsonDeserialize(IOEnv.TRACE)
TrSso == Trace[1].sso
TrSw  == Trace[1].sw = 1

VARIABLES st, l

OutOk(seen, spec) == seen = spec \/ (seen = <<"ok", -2>> /\ spec[1] = "ok")

ResolveK(t, K) == IF K[1] = "v" THEN <<"v", SlotVal(t, K[2])>>
                  ELSE IF K[1] = "V" THEN <<"v", K[2]>> ELSE K
ResolveQ(t, q) == IF q[1] \in {"get", "br", "at", "or", "hask"} THEN [q EXCEPT ![2] = ResolveK(t, q[2])] ELSE q

SlotMatches(t, s, p) ==
  /\ ChkVal => p[1] = SlotVal(t, s)
  /\ ChkRc  => p[2] = RcSlot(t, s)
  /\ ChkFin => (p[3] = 1) = IsFin(t, s)

Matches(t, e) ==
  /\ "p" \in DOMAIN e => \A s \in 1..Len(e.p) : SlotMatches(t, s, e.p[s])
  /\ (ChkLive /\ "live" \in DOMAIN e /\ e.live >= 0) => e.live = LiveAllocs(t)
  /\ (ChkQr /\ "qr" \in DOMAIN e) =>
        \A i \in 1..Len(e.qr) : LET q == e.op.q[i] IN e.qr[i] \in QRes(SlotVal(t, q[1]), ResolveQ(t, q[2]))

Idle(e) == ChkLive => e.live <= 0 /\ e.leak = 0

Step(t, e) ==
  CASE e.op.o = "reset" -> IF Idle(e) THEN {InitStore(e.op.slots, e.op.its)} ELSE {}
    [] e.op.o = "end"   -> IF Idle(e) THEN {t} ELSE {}
    [] OTHER -> {r[1] : r \in {x \in Apply(t, e.op) : (ChkOut => OutOk(e.out, x[2])) /\ Matches(x[1], e)}}

Init == st = InitStore(1, 0) /\ l = 1
(* A state that cannot explain the next line says what it would have allowed. *)
Explain(t, e) == PrintT(<<"STUCK", l, e.op, "saw", e.out, IF "p" \in DOMAIN e THEN e.p ELSE <<>>, IF "live" \in DOMAIN e THEN e.live ELSE -1,
                          "allowed", IF e.op.o \in {"reset", "end"} THEN {} ELSE
                            {<<r[2], [s \in 1..(Len(t.sl) - 1) |-> <<SlotVal(r[1], s), RcSlot(r[1], s), IsFin(r[1], s)>>], LiveAllocs(r[1])>> : r \in Apply(t, e.op)}>>)
Next == /\ l <= Len(Trace)
        /\ LET S == Step(st, Trace[l])
           IN IF S = {} THEN Explain(st, Trace[l]) /\ FALSE ELSE \E t \in S : st' = t /\ l' = l + 1
Spec == Init /\ [][Next]_<<st, l>>
Accepted == PrintT(<<"DIAMETER", TLCGet("stats").diameter, "OF", Len(Trace) + 1>>)
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
