------------------------------ MODULE DartWrapMC ----------------------------
(* Every reachable state of the thirteen registers of DartWrap under loads,  *)
(* wrapping, unwrapping, copies, moves, swaps, native assignments, field     *)
(* and element edits, over a value of each kind.                             *)
(* Weak: a wrapper that takes values without looking at them, the            *)
(* negative control of Typed.                                                *)
EXTENDS DartWrap

CONSTANTS Weak, Pairs
VARIABLES vals, last

One == IntV(<<1, 0, 0, 0>>)
Values == {Null, TrueV, One, StrV(<<353>>), ArrV(<<Null>>), ObjV(<<>>)}
Fin == [i \in 1..13 |-> FALSE]
B01 == {0, 1}
Key == <<"k", <<353>>>>
Pair(d) == IF d % 2 = 1 THEN d + 1 ELSE d - 1
Ops == {[o |-> "load", d |-> 1, v |-> v] : v \in Values}
  \union {[o |-> "wrap", d |-> d, s |-> 1, mv |-> m] : d \in {3, 5, 7, 9, 11, 13}, m \in B01}
  \union {[o |-> "unwrap", d |-> 1, s |-> s, mv |-> m] : s \in {3, 5, 7, 9, 11, 13}, m \in B01}
  \union {[o |-> o, d |-> d, s |-> Pair(d)] : d \in Pairs, o \in {"move", "swap"}}
  \union {[o |-> "nat", d |-> 9, v |-> One], [o |-> "nat", d |-> 11, v |-> TrueV], [o |-> "nat", d |-> 7, v |-> StrV(<<353>>)]}
  \union {[o |-> "ins", d |-> 3, k |-> Key, v |-> <<"lit", Null>>], [o |-> "del", d |-> 3, k |-> Key],
          [o |-> "popb", d |-> 5], [o |-> "clear", d |-> 5]}
Edit(op) == op.o \in {"ins", "del", "popb", "clear"}

Outcomes(op) ==
  IF Weak /\ op.o = "wrap" THEN Put(vals, op.d, vals[op.s], OkU)
  ELSE WApply(vals, Fin, [op |-> op, out |-> OkU, st |-> vals])

Init == vals = Fresh /\ last = <<"init">>
Next == \E op \in Ops : \E r \in Outcomes(op) : vals' = r[1] /\ last' = <<op, r[2]>>
Spec == Init /\ [][Next]_<<vals, last>>
View == vals

KeepsType == Typed(vals)
\* Failing leaves everything as it was; wrapping delivers the value; nobody
\* else is touched.
Unchanged == [][last'[2][1] \in {"err", "skip"} => vals' = vals]_<<vals, last>>
Delivered == [][(last'[1].o = "wrap" /\ last'[2] = OkU) => vals'[last'[1].d] = vals[last'[1].s]]_<<vals, last>>
Others == [][\A i \in 1..13 : (i # last'[1].d /\ ~("s" \in DOMAIN last'[1] /\ i = last'[1].s)) => vals'[i] = vals[i]]_<<vals, last>>
=============================================================================
