----------------------------- MODULE DartStore -----------------------------
(* The storage design of libdart: handles, shared payloads, copy on write.   *)
(*                                                                           *)
(* A handle (slot) holds a reference:                                        *)
(*   scalar value            null, boolean, integer, decimal, short string   *)
(*   <<"r", id>>             a heap payload shared by reference counting     *)
(*   <<"f", aid, value>>     (part of) a finalized allocation                *)
(* A payload (node) is one of                                                *)
(*   <<"o", <<<<kref, vref>>, ...>>>>   object fields in key order           *)
(*   <<"a", <<ref, ...>>>>              array elements                       *)
(*   <<"S", rle>>                       long string                          *)
(* A store is [sl |-> slots, nd |-> nodes, nx |-> next id, it |-> iterators].*)
(* Slot numbers are 1..N; slot N+1 is scratch for temporaries and is Null    *)
(* between operations.                                                       *)
(*                                                                           *)
(* Apply(st, op) is the set of <<store, outcome>> an operation may lead to.  *)
EXTENDS DartValue

CONSTANTS SsoMax,     \* longest string stored inline
          Switching,  \* TRUE: dart::packet (mutable or finalized), FALSE: dart::heap
          TrackRc     \* FALSE: leave out the choices only reference counts can tell apart

NoIt == <<>>
(* a finalized iterator is <<aid, sequence of elements, position>> *)

RECURSIVE ValOf(_, _)
ValOf(nd, r) ==
  CASE r[1] = "r" -> LET n == nd[r[2]] IN
         CASE n[1] = "S" -> StrV(n[2])
           [] n[1] = "a" -> ArrV(TLCEval([i \in 1..Len(n[2]) |-> ValOf(nd, n[2][i])]))
           [] OTHER -> ObjV(TLCEval([i \in 1..Len(n[2]) |-> <<ValOf(nd, n[2][i][1])[2], ValOf(nd, n[2][i][2])>>]))
    [] r[1] = "f" -> r[3]
    [] OTHER -> r
SlotVal(st, s) == ValOf(st.nd, st.sl[s])
KeyOfRef(nd, r) == ValOf(nd, r)[2]

NodeRefs(n) == CASE n[1] = "S" -> <<>>
                 [] n[1] = "a" -> n[2]
                 [] OTHER -> [i \in 1..(2 * Len(n[2])) |-> n[2][(i + 1) \div 2][2 - (i % 2)]]
CountIn(seq, r) == Cardinality({i \in 1..Len(seq) : seq[i] = r})

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)

(* Number of owners of a heap payload / of a finalized allocation. *)
RcNode(st, id) ==
  LET r == <<"r", id>>
      D == DOMAIN st.nd
  IN Cardinality({s \in DOMAIN st.sl : st.sl[s] = r})
     + SumOver(D, [k \in D |-> CountIn(NodeRefs(st.nd[k]), r)])
RcBuf(st, aid) == Cardinality({s \in DOMAIN st.sl : st.sl[s][1] = "f" /\ st.sl[s][2] = aid})
                  + Cardinality({i \in DOMAIN st.it : st.it[i] # NoIt /\ st.it[i][1] = aid})

(* What refcount() reports for a handle. *)
RcSlot(st, s) ==
  LET r == st.sl[s] IN
  CASE r[1] = "r" -> RcNode(st, r[2])
    [] r[1] = "f" -> RcBuf(st, r[2])
    [] r[1] = "n" -> 0
    [] OTHER -> 1

RECURSIVE ReachFrom(_, _)
ReachFrom(nd, S) ==
  LET T == S \cup UNION {{NodeRefs(nd[i])[j][2] : j \in {k \in 1..Len(NodeRefs(nd[i])) : NodeRefs(nd[i])[k][1] = "r"}} : i \in S}
  IN IF T = S THEN S ELSE ReachFrom(nd, T)
Roots(st) == {st.sl[s][2] : s \in {t \in DOMAIN st.sl : st.sl[t][1] = "r"}}
(* Release every payload without an owner. *)
Gc(st) == LET L == ReachFrom(st.nd, Roots(st)) IN [st EXCEPT !.nd = TLCEval([i \in L |-> st.nd[i]])]
Done(st, out) == {<<Gc(st), out>>}
Assign(st, d, r) == Done([st EXCEPT !.sl[d] = r], OkU)

LiveAllocs(st) ==
  Cardinality({i \in DOMAIN st.nd : st.nd[i][1] # "S"})
  + Cardinality({st.sl[s][2] : s \in {t \in DOMAIN st.sl : st.sl[t][1] = "f"}}
                \cup {st.it[i][1] : i \in {j \in DOMAIN st.it : st.it[j] # NoIt}})

(* ---------------------------------------------------- building from values *)
NewNode(st, n) == [st EXCEPT !.nd = (st.nx :> n) @@ st.nd, !.nx = st.nx + 1]

(* Alloc returns <<store, ref>>: fresh payloads for every aggregate and long string. *)
RECURSIVE Alloc(_, _), AllocSeq(_, _, _)
AllocSeq(st, vs, acc) == IF vs = <<>> THEN <<st, acc>>
                         ELSE LET a == Alloc(st, vs[1]) IN AllocSeq(a[1], Tail(vs), Append(acc, a[2]))
Alloc(st, v) ==
  CASE IsStr(v) -> IF RleLen(v[2]) <= SsoMax THEN <<st, v>>
                   ELSE <<NewNode(st, <<"S", v[2]>>), <<"r", st.nx>>>>
    [] IsArr(v) -> LET a == AllocSeq(st, v[2], <<>>)
                   IN <<NewNode(a[1], <<"a", a[2]>>), <<"r", a[1].nx>>>>
    [] IsObj(v) -> LET k == AllocSeq(st, StrKeys(v[2]), <<>>)
                       a == AllocSeq(k[1], Vals(v[2]), <<>>)
                   IN <<NewNode(a[1], <<"o", TLCEval([i \in 1..Len(v[2]) |-> <<k[2][i], a[2][i]>>])>>), <<"r", a[1].nx>>>>
    [] OTHER -> <<st, v>>

(* The reference a finalized element yields (null elements drop the allocation). *)
FinRef(aid, v) == IF IsNull(v) THEN Null ELSE <<"f", aid, v>>
(* The reference a handle yields when it is stored inside a heap aggregate:   *)
(* heap payloads are shared, finalized ones are lifted (copied).              *)
HeapRef(st, r) == IF r[1] = "f" THEN Alloc(st, r[3]) ELSE <<st, r>>

(* ------------------------------------------------------------- copy on write *)
IsAggRef(st, r) == r[1] = "r" /\ st.nd[r[2]][1] \in {"o", "a"}
Unshare(st, s, extra) ==
  LET r == st.sl[s] IN
  IF IsAggRef(st, r) /\ RcNode(st, r[2]) + extra > 1
    THEN [NewNode(st, st.nd[r[2]]) EXCEPT !.sl[s] = <<"r", st.nx>>]
    ELSE st
Body(st, s) == st.nd[st.sl[s][2]][2]
SetBody(st, s, b) == [st EXCEPT !.nd[st.sl[s][2]] = <<st.nd[st.sl[s][2]][1], b>>]

FIdx(st, f, k) == LET S == {i \in 1..Len(f) : KeyOfRef(st.nd, f[i][1]) = k}
                  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
FPos(st, f, k) == Cardinality({j \in 1..Len(f) : KeyLess(KeyOfRef(st.nd, f[j][1]), k)})

(* ---------------------------------------------------------------- arguments *)
(* value source: <<"lit", v>>, <<"slot", n>> (copied) or <<"mslot", n>> (moved) *)
(* key: <<"k", rle>>, <<"x", n>>, <<"v", slot>>, <<"it", n>> (iterator at n)     *)
SrcSlot(src) == IF src[1] = "lit" THEN 0 ELSE src[2]
SrcRef(st, src) == IF src[1] = "lit" THEN Alloc(st, src[2]) ELSE HeapRef(st, st.sl[src[2]])
SrcVal(st, src) == IF src[1] = "lit" THEN src[2] ELSE SlotVal(st, src[2])
Consume(st, src) == IF src[1] = "mslot" THEN [st EXCEPT !.sl[src[2]] = Null] ELSE st
(* A finalized argument is copied into its new home: whether the moved-from   *)
(* handle keeps its hold on the allocation is not specified.                  *)
Consumed(st, src) == {Consume(st, src)} \cup (IF src[1] = "mslot" /\ st.sl[src[2]][1] = "f" THEN {st} ELSE {})

(* The key argument as QRes expects it. *)
KArg(st, K) == IF K[1] = "v" THEN <<"v", SlotVal(st, K[2])>> ELSE K

IsFin(st, s) == st.sl[s][1] = "f"
(* Failure of a mutator on slot s: nothing changes, except that the storage may *)
(* have been unshared and a moved argument may have been consumed.              *)
Fail(st, s, src, errs) ==
  { <<Gc(t), Err(e)>> : t \in {st, Consume(st, src)}
                              \cup (IF TrackRc THEN {Unshare(st, s, 0), Consume(Unshare(st, s, 0), src)} ELSE {}),
                          e \in errs }
NoSrc == <<"lit", Null>>
(* Mutating a finalized packet is a state error; on null a mutable and a       *)
(* finalized packet are indistinguishable.                                     *)
TypeErrs(st, s) == IF Switching /\ st.sl[s] = Null THEN {"type", "state"} ELSE {"type"}
(* A mutator that finds nothing to do may still have unshared. *)
Noop(st, s, out) == Done(st, out) \cup (IF TrackRc THEN Done(Unshare(st, s, 0), out) ELSE {})

Extra(s, src, K) == (IF src[1] = "slot" /\ src[2] = s THEN 1 ELSE 0) + (IF K[1] = "v" /\ K[2] = s THEN 1 ELSE 0)

(* Position a key denotes on slot s, for the spellings by index. *)
Kind(st, s, K) == IF K[1] = "it" THEN (IF IsObj(SlotVal(st, s)) THEN "ito" ELSE "idx") ELSE KeyKind(KArg(st, K))
IdxArg(st, K) == IF K[1] = "it" THEN K[2] ELSE KeyIdx(KArg(st, K))
StrArg(st, s, K) == IF K[1] = "it" THEN SlotVal(st, s)[2][K[2] + 1][1] ELSE KeyStr(KArg(st, K))

PutKey(st0, s, K, src) ==
  LET key == StrArg(st0, s, K)
      a == SrcRef(st0, src)
      st1 == Unshare(a[1], s, Extra(s, src, K))
      f == Body(st1, s)
      i == FIdx(st1, f, key)
      p == FPos(st1, f, key)
      kr == IF K[1] = "v" THEN HeapRef(st1, st0.sl[K[2]]) ELSE Alloc(st1, StrV(key))
      b == IF i # 0 THEN [f EXCEPT ![i] = <<f[i][1], a[2]>>]
           ELSE SubSeq(f, 1, p) \o <<<<kr[2], a[2]>>>> \o SubSeq(f, p + 1, Len(f))
  IN UNION {Done(t, Ok(IF i # 0 THEN i - 1 ELSE p)) : t \in Consumed(SetBody(IF i # 0 THEN st1 ELSE kr[1], s, b), src)}

(* A finalized value that has the wrong type anyway may be refused for either reason. *)
WrongErrs(v, kk) == IF (kk \in {"str", "ito"} /\ IsObj(v)) \/ (kk = "idx" /\ IsArr(v)) THEN {} ELSE {"type"}

InsertOp(st, s, K, src) ==
  LET v == SlotVal(st, s)
      kk == Kind(st, s, K)
  IN
  IF IsFin(st, s) THEN Fail(st, s, src, {"state"} \cup (IF K[1] = "it" THEN {"type", "arg"} ELSE {}) \cup WrongErrs(v, kk))
  ELSE CASE kk \in {"str", "ito"} ->
         (IF RleLen(StrArg(st, s, K)) > MaxKeyLen THEN Fail(st, s, src, {"arg"} \cup (IF IsObj(v) THEN {} ELSE TypeErrs(st, s)))
          ELSE IF ~IsObj(v) THEN Fail(st, s, src, TypeErrs(st, s))
          ELSE PutKey(st, s, K, src))
       [] kk = "idx" ->
         (IF ~IsArr(v) THEN Fail(st, s, src, TypeErrs(st, s) \cup (IF K[1] = "it" THEN {"arg"} ELSE {}))
          ELSE LET i == IdxArg(st, K) IN
               IF i < 0 \/ i > Len(v[2]) THEN Fail(st, s, src, {"range"})
               ELSE LET a == SrcRef(st, src)
                        st1 == Unshare(a[1], s, Extra(s, src, K))
                    IN UNION {Done(t, Ok(i)) : t \in Consumed(SetBody(st1, s, InsAt(Body(st1, s), i, a[2])), src)})
       [] OTHER -> Fail(st, s, src, TypeErrs(st, s))

SetOp(st, s, K, src) ==
  LET v == SlotVal(st, s)
      kk == Kind(st, s, K)
  IN
  IF IsFin(st, s) THEN Fail(st, s, src, {"state"} \cup (IF K[1] = "it" THEN {"type", "arg"} ELSE {}) \cup WrongErrs(v, kk))
  ELSE CASE kk \in {"str", "ito"} ->
         (IF RleLen(StrArg(st, s, K)) > MaxKeyLen THEN Fail(st, s, src, {"arg"} \cup (IF IsObj(v) THEN {} ELSE TypeErrs(st, s)))
          ELSE IF ~IsObj(v) THEN Fail(st, s, src, TypeErrs(st, s))
          ELSE IF ~HasField(v[2], StrArg(st, s, K)) THEN Fail(st, s, src, {"range"})
          ELSE PutKey(st, s, K, src))
       [] kk = "idx" ->
         (IF ~IsArr(v) THEN Fail(st, s, src, TypeErrs(st, s) \cup (IF K[1] = "it" THEN {"arg"} ELSE {}))
          ELSE LET i == IdxArg(st, K) IN
               IF ~InRange(i, Len(v[2])) THEN Fail(st, s, src, {"range"})
               ELSE LET a == SrcRef(st, src)
                        st1 == Unshare(a[1], s, Extra(s, src, K))
                    IN UNION {Done(t, Ok(i)) : t \in Consumed(SetBody(st1, s, [Body(st1, s) EXCEPT ![i + 1] = a[2]]), src)})
       [] OTHER -> Fail(st, s, src, TypeErrs(st, s))

EraseOp(st, s, K) ==
  LET v == SlotVal(st, s)
      kk == Kind(st, s, K)
  IN
  IF IsFin(st, s) THEN Fail(st, s, NoSrc, {"state"} \cup (IF K[1] = "it" THEN {"type", "arg"} ELSE {}) \cup WrongErrs(v, kk))
  ELSE CASE kk \in {"str", "ito"} ->
         (IF ~IsObj(v) THEN Fail(st, s, NoSrc, TypeErrs(st, s))
          ELSE LET i == FieldIdx(v[2], StrArg(st, s, K)) IN
               IF i = 0 THEN Noop(st, s, Ok(Len(v[2])))
               ELSE LET st1 == Unshare(st, s, 0) IN
                    Done(SetBody(st1, s, DelAt(Body(st1, s), i - 1)), Ok(i - 1)))
       [] kk = "idx" ->
         (IF ~IsArr(v) THEN Fail(st, s, NoSrc, TypeErrs(st, s) \cup (IF K[1] = "it" THEN {"arg"} ELSE {}))
          ELSE LET i == IdxArg(st, K) IN
               IF ~InRange(i, Len(v[2])) THEN Noop(st, s, Ok(Len(v[2])))
               ELSE LET st1 == Unshare(st, s, 0) IN
                    Done(SetBody(st1, s, DelAt(Body(st1, s), i)), Ok(i)))
       [] OTHER -> Fail(st, s, NoSrc, TypeErrs(st, s))

ClearOp(st, s) ==
  LET v == SlotVal(st, s) IN
  IF IsFin(st, s) THEN Fail(st, s, NoSrc, {"state"} \cup (IF IsAgg(v) THEN {} ELSE {"type"}))
  ELSE IF ~IsAgg(v) THEN Fail(st, s, NoSrc, TypeErrs(st, s))
  ELSE LET st1 == Unshare(st, s, 0) IN Done(SetBody(st1, s, <<>>), OkU)

ResizeOp(st, s, n, src) ==
  LET v == SlotVal(st, s) IN
  IF IsFin(st, s) THEN Fail(st, s, src, {"state"} \cup (IF IsArr(v) THEN {} ELSE {"type"}))
  ELSE IF ~IsArr(v) THEN Fail(st, s, src, TypeErrs(st, s))
  ELSE LET a == SrcRef(st, src)
           st1 == Unshare(a[1], s, IF SrcSlot(src) = s THEN 1 ELSE 0)
           b == Body(st1, s)
       IN Done(SetBody(st1, s, TLCEval([i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE a[2]])), OkU)

ReserveOp(st, s) ==
  LET v == SlotVal(st, s) IN
  IF IsFin(st, s) THEN Fail(st, s, NoSrc, {"state"} \cup (IF IsArr(v) THEN {} ELSE {"type"}))
  ELSE IF ~IsArr(v) THEN Fail(st, s, NoSrc, TypeErrs(st, s))
  ELSE Noop(st, s, OkU)

PopOp(st, s, back) ==
  LET v == SlotVal(st, s) IN
  IF IsFin(st, s) THEN Fail(st, s, NoSrc, {"state"} \cup (IF IsArr(v) THEN {} ELSE {"type"}))
  ELSE IF ~IsArr(v) THEN Fail(st, s, NoSrc, TypeErrs(st, s))
  ELSE IF v[2] = <<>> THEN Noop(st, s, OkU)
  ELSE LET st1 == Unshare(st, s, 0)
       IN Done(SetBody(st1, s, DelAt(Body(st1, s), IF back THEN Len(v[2]) - 1 ELSE 0)), OkU)

PushOp(st, s, back, src) ==
  LET v == SlotVal(st, s) IN
  IF IsFin(st, s) THEN Fail(st, s, src, {"state"} \cup (IF IsArr(v) THEN {} ELSE {"type"}))
  ELSE IF ~IsArr(v) THEN Fail(st, s, src, TypeErrs(st, s))
  ELSE LET R == InsertOp(st, s, <<"x", IF back THEN Len(v[2]) ELSE 0>>, src) IN {<<r[1], OkU>> : r \in R}

(* ------------------------------------------------------------------ fetching *)
(* how an element is named: <<"get", K>>, <<"at", K>>, <<"or", K, src>>,       *)
(* <<"front">>, <<"back">>, <<"atfront">>, <<"atback">>, <<"nth", i>> (iterator *)
(* or value listing), <<"nthkey", i>>, <<"nest", path, sep>>                    *)
ElemRefs(st, s) ==    \* references of all elements, in enumeration order
  LET r == st.sl[s] IN
  IF r[1] = "f" THEN [i \in 1..Len(Elems(r[3])) |-> FinRef(r[2], Elems(r[3])[i])]
  ELSE LET n == st.nd[r[2]] IN IF n[1] = "a" THEN n[2] ELSE [i \in 1..Len(n[2]) |-> n[2][i][2]]
KeyRefs(st, s) ==
  LET r == st.sl[s] IN
  IF r[1] = "f" THEN [i \in 1..Len(r[3][2]) |-> <<"f", r[2], StrV(r[3][2][i][1])>>]
  ELSE [i \in 1..Len(st.nd[r[2]][2]) |-> st.nd[r[2]][2][i][1]]

RECURSIVE NestRef(_, _, _)
NestRef(st, r, ps) ==
  IF ps = <<>> THEN r
  ELSE IF r[1] = "f" THEN (IF IsObj(r[3]) THEN FinRef(r[2], NestVal(r[3], ps)) ELSE Null)
  ELSE IF r[1] = "r" /\ st.nd[r[2]][1] = "o"
       THEN LET f == st.nd[r[2]][2]
                i == FIdx(st, f, ps[1])
            IN NestRef(st, IF i = 0 THEN Null ELSE f[i][2], Tail(ps))
  ELSE Null
Pieces(path, sep) == LET ps0 == RleSplit(path, sep, <<>>) IN
                     IF ps0[Len(ps0)] = <<>> THEN SubSeq(ps0, 1, Len(ps0) - 1) ELSE ps0

(* FetchRef: <<index of the element in ElemRefs, or 0 for none>>              *)
FetchIdx(v, K) == IF KeyKind(K) = "str" THEN FieldIdx(v[2], KeyStr(K))
                  ELSE IF InRange(KeyIdx(K), Len(v[2])) THEN KeyIdx(K) + 1 ELSE 0

(* The set of <<store, ref, outcome>>; ref is meaningful if the outcome is ok. *)
Fetch(st, s, how) ==
  LET v == SlotVal(st, s)
      pick(i) == IF i = 0 THEN Null ELSE ElemRefs(st, s)[i]
      okr(r) == {<<st, r, OkU>>}
      bad(E) == {<<st, Null, Err(e)>> : e \in E}
      errsOf(R) == {o[2] : o \in {x \in R : x[1] = "err"}}
      n == Len(v[2])
  IN
  CASE how[1] = "self" -> okr(st.sl[s])
    [] how[1] = "get" -> LET K == KArg(st, how[2])
                             R == GetRes(v, K)
                         IN IF errsOf(R) # {} THEN bad(errsOf(R)) ELSE okr(pick(FetchIdx(v, K)))
    [] how[1] = "at" -> LET K == KArg(st, how[2])
                            R == AtRes(v, K)
                        IN IF errsOf(R) # {} THEN bad(errsOf(R)) ELSE okr(pick(FetchIdx(v, K)))
    [] how[1] = "or" -> LET K == KArg(st, how[2])
                            R == OrRes(v, K, Null)
                            hit == (IsObj(v) /\ KeyKind(K) = "str" /\ HasField(v[2], KeyStr(K)))
                                   \/ (IsArr(v) /\ KeyKind(K) = "idx" /\ InRange(KeyIdx(K), Len(v[2])))
                            \* a default that is itself a (switching) packet is passed through
                            d == IF how[3][1] = "lit" THEN Alloc(st, how[3][2]) ELSE <<st, st.sl[how[3][2]]>>
                        IN (IF hit THEN okr(pick(FetchIdx(v, K))) ELSE {<<d[1], d[2], OkU>>}) \cup bad(errsOf(R))
    [] how[1] \in {"front", "back"} ->
         IF ~IsArr(v) THEN bad({"type"})
         ELSE okr(IF n = 0 THEN Null ELSE pick(IF how[1] = "front" THEN 1 ELSE n))
    [] how[1] \in {"atfront", "atback"} ->
         IF ~IsArr(v) THEN bad(IF IsObj(v) \/ IsStr(v) THEN {"type", "range"} ELSE {"type"})
         ELSE IF n = 0 THEN bad({"range"}) ELSE okr(pick(IF how[1] = "atfront" THEN 1 ELSE n))
    [] how[1] = "nth" -> IF ~IsAgg(v) THEN bad({"type"})
                         ELSE IF InRange(how[2], n) THEN okr(pick(how[2] + 1)) ELSE {<<st, Null, <<"skip">>>>}
    [] how[1] = "nthkey" -> IF ~IsObj(v) THEN bad({"type"})
                            ELSE IF InRange(how[2], n) THEN okr(KeyRefs(st, s)[how[2] + 1]) ELSE {<<st, Null, <<"skip">>>>}
    [] how[1] = "nest" -> okr(NestRef(st, st.sl[s], Pieces(how[2], how[3])))
    [] OTHER -> {}

FetchOp(st, d, s, how) ==
  { IF f[3][1] = "ok" THEN <<Gc([f[1] EXCEPT !.sl[d] = f[2]]), OkU>> ELSE <<st, f[3]>> : f \in Fetch(st, s, how) }

(* Fetching from an expiring handle: the handle may or may not be consumed     *)
(* (dart::packet moves the element into it, dart::heap copies). On failure     *)
(* nothing changes.                                                            *)
RFetchOp(st, d, s, how) ==
  { IF f[3][1] # "ok" THEN <<st, f[3]>>
    ELSE LET t == IF Switching THEN [f[1] EXCEPT !.sl[s] = Null] ELSE f[1]
         IN <<Gc([t EXCEPT !.sl[d] = f[2]]), OkU>> : f \in Fetch(st, s, how) }

(* ------------------------------------------------- representation and merging *)
FinOp(st, s) ==
  LET v == SlotVal(st, s) IN
  IF IsFin(st, s) THEN {<<st, OkU>>}
  ELSE IF IsObj(v) THEN Done([st EXCEPT !.sl[s] = <<"f", st.nx, v>>, !.nx = st.nx + 1], OkU)
  ELSE {<<st, Err("type")>>} \cup (IF IsNull(v) THEN {<<st, OkU>>} ELSE {})
LiftOp(st, s) ==
  IF IsFin(st, s) THEN LET a == Alloc(st, st.sl[s][3]) IN Done([a[1] EXCEPT !.sl[s] = a[2]], OkU)
  ELSE {<<st, OkU>>}

(* d := a deep, unshared copy of s (transmogrify there and back, lower + lift) *)
DeepOp(st, d, s) ==
  IF IsFin(st, s)
    THEN IF IsObj(SlotVal(st, s)) THEN Done([st EXCEPT !.sl[d] = <<"f", st.nx, st.sl[s][3]>>, !.nx = st.nx + 1], OkU)
         ELSE Assign(st, d, st.sl[s])     \* only objects stand alone: the driver shares the rest
  ELSE LET a == Alloc(st, SlotVal(st, s)) IN Done([a[1] EXCEPT !.sl[d] = a[2]], OkU)

(* d := s.inject(pairs); pairs is a sequence of <<K, src>> with string keys.   *)
RECURSIVE InjPairs(_, _, _)
InjPairs(st, t, ps) ==
  IF ps = <<>> THEN st
  ELSE LET R == PutKey(st, t, ps[1][1], ps[1][2]) IN InjPairs((CHOOSE r \in R : TRUE)[1], t, Tail(ps))
InjOp(st, d, s, ps) ==
  LET v == SlotVal(st, s)
      t == Len(st.sl)      \* scratch
      fs == [i \in 1..Len(ps) |-> <<KeyStr(KArg(st, ps[i][1])), SrcVal(st, ps[i][2])>>]
      dup == \E i, j \in 1..Len(fs) : i # j /\ fs[i][1] = fs[j][1]
  IN IF ~IsObj(v) THEN {<<st, Err("type")>>} \cup (IF dup /\ (IsFin(st, s) \/ TypeErrs(st, s) # {"type"}) THEN {<<st, Err("arg")>>} ELSE {})
     ELSE IF IsFin(st, s)
       THEN IF dup THEN {<<st, Err("arg")>>}        \* one injected key may not be given twice
              ELSE Done([st EXCEPT !.sl[d] = <<"f", st.nx, ObjV(PutAll(v[2], fs))>>, !.nx = st.nx + 1], OkU)
     ELSE LET st1 == InjPairs([st EXCEPT !.sl[t] = st.sl[s]], t, ps)
          IN Done([st1 EXCEPT !.sl[d] = st1.sl[t], !.sl[t] = Null], OkU)

RECURSIVE ProjFields(_, _, _, _)
ProjFields(st, f, ks, acc) ==    \* fresh keys, shared values
  IF f = <<>> THEN <<st, acc>>
  ELSE LET k == KeyOfRef(st.nd, f[1][1]) IN
       IF \E i \in 1..Len(ks) : ks[i] = k
         THEN LET a == Alloc(st, StrV(k)) IN ProjFields(a[1], Tail(f), ks, Append(acc, <<a[2], f[1][2]>>))
         ELSE ProjFields(st, Tail(f), ks, acc)
ProjOp(st, d, s, ks) ==
  LET v == SlotVal(st, s) IN
  IF ~IsObj(v) THEN {<<st, Err("type")>>}
  ELSE IF IsFin(st, s) THEN Done([st EXCEPT !.sl[d] = <<"f", st.nx, ObjV(Restrict(v[2], ks))>>, !.nx = st.nx + 1], OkU)
  ELSE LET p == ProjFields(st, Body(st, s), ks, <<>>)
           q == NewNode(p[1], <<"o", p[2]>>)
       IN Done([q EXCEPT !.sl[d] = <<"r", p[1].nx>>], OkU)

(* ---------------------------------------------- iterators over finalized data *)
ItNew(st, i, s, keys) ==
  LET v == SlotVal(st, s) IN
  IF ~IsFin(st, s) \/ ~IsAgg(v) \/ (keys /\ ~IsObj(v)) THEN {<<st, <<"skip">>>>}
  ELSE Done([st EXCEPT !.it[i] = <<st.sl[s][2], IF keys THEN StrKeys(v[2]) ELSE Elems(v), 0>>], OkU)
ItAdv(st, i) == IF st.it[i] = NoIt \/ st.it[i][3] >= Len(st.it[i][2]) THEN {<<st, <<"skip">>>>}
                ELSE {<<[st EXCEPT !.it[i][3] = @ + 1], OkU>>}
ItBack(st, i) == IF st.it[i] = NoIt \/ st.it[i][3] = 0 THEN {<<st, <<"skip">>>>}
                 ELSE {<<[st EXCEPT !.it[i][3] = @ - 1], OkU>>}
ItGet(st, i, d) == IF st.it[i] = NoIt \/ st.it[i][3] >= Len(st.it[i][2]) THEN {<<st, <<"skip">>>>}
                   ELSE Done([st EXCEPT !.sl[d] = FinRef(st.it[i][1], st.it[i][2][st.it[i][3] + 1])], OkU)
ItCopy(st, i, j) == {<<[st EXCEPT !.it[j] = st.it[i]], OkU>>}
ItDrop(st, i) == {<<[st EXCEPT !.it[i] = NoIt], OkU>>}

(* ------------------------------------------------------------------ operations *)

(* Operations carry: o (name) and the fields named below. *)
Apply(st, op) ==
  CASE op.o = "new"   -> LET a == Alloc(st, op.v) IN Assign(a[1], op.d, a[2])
    [] op.o = "copy"  -> Assign(st, op.d, st.sl[op.s])
    [] op.o = "move"  -> IF op.d = op.s THEN {<<st, OkU>>}
                         ELSE Done([st EXCEPT !.sl[op.d] = st.sl[op.s], !.sl[op.s] = Null], OkU)
    [] op.o = "swap"  -> Done([st EXCEPT !.sl[op.d] = st.sl[op.s], !.sl[op.s] = st.sl[op.d]], OkU)
    [] op.o = "drop"  -> Assign(st, op.d, Null)
    [] op.o = "fetch" -> FetchOp(st, op.d, op.s, op.k)
    [] op.o = "rfetch" -> RFetchOp(st, op.d, op.s, op.k)
    [] op.o = "ins"   -> InsertOp(st, op.d, op.k, op.v)
    [] op.o = "set"   -> SetOp(st, op.d, op.k, op.v)
    [] op.o = "del"   -> EraseOp(st, op.d, op.k)
    [] op.o = "pushb" -> PushOp(st, op.d, TRUE, op.v)
    [] op.o = "pushf" -> PushOp(st, op.d, FALSE, op.v)
    [] op.o = "popb"  -> PopOp(st, op.d, TRUE)
    [] op.o = "popf"  -> PopOp(st, op.d, FALSE)
    [] op.o = "clear" -> ClearOp(st, op.d)
    [] op.o = "resize" -> ResizeOp(st, op.d, op.n, op.v)
    [] op.o = "reserve" -> ReserveOp(st, op.d)
    [] op.o = "fin"   -> FinOp(st, op.d)
    [] op.o = "lift"  -> LiftOp(st, op.d)
    [] op.o = "deep"  -> DeepOp(st, op.d, op.s)
    [] op.o = "inj"   -> InjOp(st, op.d, op.s, op.p)
    [] op.o = "proj"  -> ProjOp(st, op.d, op.s, op.p)
    [] op.o = "itnew" -> ItNew(st, op.i, op.s, op.n = 1)
    [] op.o = "itadv" -> ItAdv(st, op.i)
    [] op.o = "itback" -> ItBack(st, op.i)
    [] op.o = "itget" -> ItGet(st, op.i, op.d)
    [] op.o = "itcopy" -> ItCopy(st, op.i, op.n)
    [] op.o = "itdrop" -> ItDrop(st, op.i)
    [] OTHER -> {}

InitStore(n, m) == [sl |-> [i \in 1..(n + 1) |-> Null], nd |-> <<>>, nx |-> 1, it |-> [i \in 1..m |-> NoIt]]
=============================================================================
