---------------------------- MODULE DartStoreMC ----------------------------
(* Exhaustive small world for DartStore.                                     *)
(*  - Refines: every step of the storage design is a step of DartPure.       *)
(*  - Acyclic: no payload can reach itself.                                  *)
(*  - UniqueWriter: a payload that changed in a step had a single owner.     *)
(* hist records how a state was first reached; VIEW forgets it (and renames  *)
(* payloads canonically), and each transition is printed once as a program   *)
(* for the driver.                                                           *)
EXTENDS DartStore, Json

CONSTANTS NSlots, MaxNodes, MaxHist, MaxLen, Emit, Rich, NoCow

P == INSTANCE DartPure WITH PureSwitching <- Switching

VARIABLES st, hist, last

KA == <<353>>           \* "a"
KB == <<354>>           \* "b"
One == IntV(<<1, 0, 0, 0>>)
Two == IntV(<<2, 0, 0, 0>>)
LongS == StrV(<<40 * 256 + 122>>)

Slots == 1..NSlots
Lits == {One} \cup (IF Rich THEN {Null, LongS} ELSE {})
News == {EmptyObj, EmptyArr, ArrV(<<One>>), ObjV(<<<<KA, One>>>>)} \cup
        (IF Rich THEN {One, ArrV(<<EmptyArr>>), ObjV(<<<<KA, EmptyObj>>>>), LongS} ELSE {})
Srcs(d) == {<<"lit", x>> : x \in Lits} \cup {<<"slot", s>> : s \in Slots} \cup {<<"mslot", s>> : s \in Slots \ {d}}
OKeys == {<<"k", KA>>, <<"k", KB>>}
AKeys == {<<"x", 0>>, <<"x", 1>>}

R(o, d) == [o |-> o, d |-> d]
Ops ==
  {[o |-> "new", d |-> d, v |-> v] : d \in Slots, v \in News}
  \cup {[o |-> o, d |-> d, s |-> s] : o \in {"copy", "move"} \cup (IF Rich THEN {"swap", "deep"} ELSE {}), d \in Slots, s \in Slots}
  \cup {[o |-> "drop", d |-> d] : d \in Slots}
  \cup {[o |-> "fetch", d |-> d, s |-> s, k |-> h] : d \in Slots, s \in Slots,
          h \in {<<"get", <<"k", KA>>>>, <<"get", <<"x", 0>>>>, <<"nth", 0>>} \cup
                (IF Rich THEN {<<"at", <<"k", KA>>>>, <<"at", <<"x", 0>>>>, <<"or", <<"k", KB>>, <<"slot", 1>>>>, <<"back">>, <<"nthkey", 0>>, <<"nest", <<353, 302, 353>>, 46>>} ELSE {})}
  \cup (IF Rich THEN {[o |-> "rfetch", d |-> d, s |-> s, k |-> h] : d \in Slots, s \in Slots, h \in {<<"get", <<"k", KA>>>>, <<"at", <<"x", 0>>>>}} ELSE {})
  \cup {[o |-> o, d |-> d, k |-> K, v |-> src] : o \in {"ins", "set"}, d \in Slots, K \in OKeys \cup AKeys, src \in UNION {Srcs(e) : e \in Slots}}
  \cup {[o |-> "del", d |-> d, k |-> K] : d \in Slots, K \in OKeys \cup AKeys \cup {<<"it", 0>>}}
  \cup {[o |-> o, d |-> d, v |-> src] : o \in {"pushb"} \cup (IF Rich THEN {"pushf"} ELSE {}), d \in Slots, src \in UNION {Srcs(e) : e \in Slots}}
  \cup {[o |-> o, d |-> d] : o \in {"clear", "popb"} \cup (IF Rich THEN {"popf"} ELSE {}), d \in Slots}
  \cup {[o |-> "resize", d |-> d, n |-> 2, v |-> <<"slot", s>>] : d \in Slots, s \in Slots}
  \cup {[o |-> "reserve", d |-> d, n |-> 9] : d \in Slots}
  \cup {[o |-> "inj", d |-> d, s |-> s, p |-> <<<<<<"k", KB>>, <<"slot", v>>>>>>] : d \in Slots, s \in Slots, v \in Slots}
  \cup {[o |-> "proj", d |-> d, s |-> s, p |-> <<KA>>] : d \in Slots, s \in Slots}
  \cup (IF Switching THEN {[o |-> o, d |-> d] : o \in {"fin", "lift"}, d \in Slots} ELSE {})

(* Operations worth a step in this state: moved arguments only where they are  *)
(* certain to be consumed, iterators only where they can be dereferenced.      *)
Applicable(op) ==
  /\ op.o \in {"ins", "set", "pushb", "pushf"} /\ op.v[1] = "mslot" =>
        /\ op.v[2] # op.d
        /\ ~IsFin(st, op.v[2])
        /\ \A r \in Apply(st, op) : r[2][1] = "ok"
  /\ op.o = "del" /\ op.k[1] = "it" => IsAgg(SlotVal(st, op.d)) /\ SlotVal(st, op.d)[2] # <<>>
  /\ op.o = "rfetch" => op.d # op.s
  /\ op.o = "swap" => op.d < op.s

(* Without copy on write: what the design would do if it forgot to unshare.    *)
NoUnshare(op) ==
  IF NoCow /\ op.o = "clear" /\ IsAggRef(st, st.sl[op.d]) THEN {<<Gc(SetBody(st, op.d, <<>>)), OkU>>} ELSE Apply(st, op)

RECURSIVE SumLen(_, _)
SumLen(nd, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Len(nd[x][2]) + SumLen(nd, S \ {x})

Small(t) == /\ Cardinality(DOMAIN t.nd) <= MaxNodes
            /\ \A i \in DOMAIN t.nd : Len(t.nd[i][2]) <= MaxLen
            /\ \A s \in Slots : t.sl[s][1] = "f" => Len(ToString(t.sl[s][3])) < 160

Init == st = InitStore(NSlots, 0) /\ hist = <<>> /\ last = <<>>
Next == /\ Len(hist) < MaxHist
        /\ \E op \in {o \in Ops : Applicable(o)} : \E r \in NoUnshare(op) :
             /\ Small(r[1])
             /\ st' = TLCEval(r[1])
             /\ hist' = TLCEval(Append(hist, op))
             /\ last' = TLCEval(<<op, r[2]>>)
vars == <<st, hist, last>>
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- canonical view *)
RECURSIVE Order(_, _, _)
Order(nd, todo, seen) ==
  IF todo = <<>> THEN seen
  ELSE LET r == todo[1] IN
       IF r[1] # "r" \/ (\E i \in 1..Len(seen) : seen[i] = r[2]) THEN Order(nd, Tail(todo), seen)
       ELSE Order(nd, NodeRefs(nd[r[2]]) \o Tail(todo), Append(seen, r[2]))
Pos(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x
Canon(t) ==
  LET sl == SubSeq(t.sl, 1, NSlots)
      ord == Order(t.nd, sl, <<>>)
      bufs == {t.sl[s][2] : s \in {x \in Slots : t.sl[x][1] = "f"}}
      ref(r) == IF r[1] = "r" THEN <<"r", Pos(ord, r[2])>>
                ELSE IF r[1] = "f" THEN <<"f", Cardinality({b \in bufs : \E s \in Slots : t.sl[s][1] = "f" /\ t.sl[s][2] = b
                                             /\ s <= (CHOOSE u \in Slots : t.sl[u][1] = "f" /\ t.sl[u][2] = r[2]
                                                       /\ \A w \in 1..(u - 1) : ~(t.sl[w][1] = "f" /\ t.sl[w][2] = r[2]))}), r[3]>>
                ELSE r
      node(n) == CASE n[1] = "S" -> n
                   [] n[1] = "a" -> <<"a", [i \in 1..Len(n[2]) |-> ref(n[2][i])]>>
                   [] OTHER -> <<"o", [i \in 1..Len(n[2]) |-> <<ref(n[2][i][1]), ref(n[2][i][2])>>]>>
  IN <<[s \in Slots |-> ref(t.sl[s])], [i \in 1..Len(ord) |-> node(t.nd[ord[i]])]>>
View == <<Canon(st), Len(hist)>>
ViewSmall == Canon(st)

(* ----------------------------------------------------------------- properties *)
Refines == [][hist' # hist =>
  <<[s \in Slots |-> SlotVal(st', s)], last'[2]>> \in P!PApply([s \in Slots |-> SlotVal(st, s)], [s \in Slots |-> IsFin(st, s)], last'[1])]_vars
WellFormed == \A s \in Slots : WellFormedValue(SlotVal(st, s))
ScratchFree == st.sl[NSlots + 1] = Null
NoGarbage == \A i \in DOMAIN st.nd : RcNode(st, i) > 0
UniqueWriter == [][\A i \in (DOMAIN st.nd) \cap (DOMAIN st'.nd) :
                     st.nd[i] # st'.nd[i] => RcNode(st, i) = 1]_vars
EmitIt == IF Emit THEN PrintT("PROG " \o ToJson(hist')) ELSE TRUE
=============================================================================
