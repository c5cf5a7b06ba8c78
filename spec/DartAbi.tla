------------------------------ MODULE DartAbi ------------------------------
(* The C interface: packets of three kinds (1 mutable, 2 finalized,          *)
(* 3 generic) over two reference counters (1 shared by threads, 2 not) in    *)
(* caller-provided storage, error codes instead of exceptions, consuming and *)
(* format-string variants, iterators that report their own end.              *)
(* A state is [st |-> a DartStore, ty |-> kind and counter of every slot,     *)
(* it |-> kind and counter of every iterator, or <<>>].  Iterator i of C is   *)
(* registers 2i-1 (position) and 2i (end) of the store.                      *)
EXTENDS DartText, DartStore

Heap == 1  Buffer == 2  Packet == 3

AInit(n, m) == [st |-> InitStore(n, 2 * m), ty |-> [i \in 1..n |-> <<Packet, 1>>], it |-> [i \in 1..m |-> <<>>]]

(* What a C++ outcome becomes. *)
CCode(o) == IF o[1] = "ok" THEN OkU
            ELSE IF o[1] = "err" /\ o[2] \in {"type", "state", "parse", "runtime", "client", "unknown", "null"} THEN o
            ELSE IF o[1] = "err" THEN Err("logic") ELSE o
Lower(a, R) == {<<[a EXCEPT !.st = r[1]], CCode(r[2])>> : r \in R}

(* Odd spellings report the error code, even ones return a null packet of the *)
(* function's own result type instead.                                       *)
ErrSpelling(op) == op.h % 2 = 1
(* R: set of <<store, ref, outcome>>; the result goes to slot d with type ty. *)
Results(a, op, ty, R) ==
  { IF r[3][1] = "ok" THEN <<[a EXCEPT !.st = Gc([r[1] EXCEPT !.sl[op.d] = r[2]]), !.ty[op.d] = ty], OkU>>
    ELSE IF r[3][1] = "skip" THEN <<a, r[3]>>
    ELSE IF ErrSpelling(op) THEN <<a, CCode(r[3])>>
    ELSE <<[a EXCEPT !.st = Gc([a.st EXCEPT !.sl[op.d] = Null]), !.ty[op.d] = <<ty[1], 1>>], OkU>> : r \in R }
OkRef(st, r) == {<<st, r, OkU>>}
OkVal(st, v) == LET x == Alloc(st, v) IN OkRef(x[1], x[2])
BadRef(st, E) == {<<st, Null, Err(e)>> : e \in E}
NewFin(st, v) == OkRef([st EXCEPT !.nx = @ + 1], <<"f", st.nx, v>>)
(* Finalizing needs an object; a null may be refused or stay null. *)
FinRes(st, v) == IF IsObj(v) THEN NewFin(st, v)
                 ELSE BadRef(st, {"type"}) \cup (IF IsNull(v) THEN OkRef(st, Null) ELSE {})

(* ----------------------------------------------------------- format strings *)
(* Pairs / Vals consume a format from position i and arguments from position  *)
(* j, giving <<fields or elements, i, j>> or Bad.                             *)
Sign32(l) == IF l[2] >= 32768 THEN <<l[1], l[2], 65535, 65535>> ELSE <<l[1], l[2], 0, 0>>
ArgVal(c, a) == CASE c \in {"s", "S"} -> StrV(a[2])
                  [] c = "i"  -> <<"i">> \o Sign32(Tail(a))
                  [] c = "ui" -> <<"i", a[2], a[3], 0, 0>>
                  [] c \in {"l", "ul"} -> <<"i">> \o Tail(a)
                  [] c = "d"  -> <<"d">> \o Tail(a)
                  [] OTHER -> <<"b", a[2]>>
RECURSIVE FmtPairs(_, _, _, _, _), FmtVals(_, _, _, _, _), FmtVal(_, _, _, _)
FmtVal(f, i, args, j) ==     \* <<value, i, j>> or Bad
  IF i > Len(f) THEN Bad
  ELSE CASE f[i] = "o" -> FmtPairs(f, i + 1, args, j, <<>>)
         [] f[i] = "a" -> FmtVals(f, i + 1, args, j, <<>>)
         [] f[i] \in {"s", "S", "i", "l", "d", "b"} -> <<ArgVal(f[i], args[j]), i + 1, j + 1>>
         [] f[i] = "u" -> IF i < Len(f) /\ f[i + 1] \in {"i", "l"} THEN <<ArgVal("u" \o f[i + 1], args[j]), i + 2, j + 1>> ELSE Bad
         [] f[i] \in {" ", "n"} -> <<Null, i + 1, j>>
         [] OTHER -> Bad
FmtPairs(f, i, args, j, acc) ==
  IF i > Len(f) THEN <<ObjV(acc), i, j>>
  ELSE IF f[i] = "," THEN <<ObjV(acc), i + 1, j>>
  ELSE IF RleLen(args[j][2]) > MaxKeyLen THEN Bad
  ELSE LET v == FmtVal(f, i, args, j + 1) IN
       IF v = Bad THEN Bad ELSE FmtPairs(f, v[2], args, v[3], PutField(acc, args[j][2], v[1]))
FmtVals(f, i, args, j, acc) ==
  IF i > Len(f) THEN <<ArrV(acc), i, j>>
  ELSE IF f[i] = "," THEN <<ArrV(acc), i + 1, j>>
  ELSE LET v == FmtVal(f, i, args, j) IN
       IF v = Bad THEN Bad ELSE FmtVals(f, v[2], args, v[3], Append(acc, v[1]))
FmtRes(st, op) == LET v == IF op.n = 1 THEN FmtPairs(op.g, 1, op.a, 1, <<>>) ELSE FmtVals(op.g, 1, op.a, 1, <<>>)
                  IN IF v = Bad THEN BadRef(st, {"logic"}) ELSE OkVal(st, v[1])

(* --------------------------------------------------------------------- text *)
Plain3 == <<FALSE, FALSE, FALSE>>
(* saw: the value observed afterwards, admitted if it is what the text says.   *)
TextRes(st, kind, b, saw) ==
  LET d == ParseDoc(b, Plain3) IN
  IF d = Bad THEN BadRef(st, {"parse"} \cup (IF kind # Buffer /\ ScalarRoot(b, Plain3) THEN {"type"} ELSE {}) \cup (IF kind = Buffer /\ ScalarRoot(b, Plain3) THEN {"type"} ELSE {}))
  ELSE IF d[2][1] # "o" /\ (kind = Buffer \/ d[2][1] # "a") THEN BadRef(st, {"type"})
  ELSE IF LongKeys(d[2]) THEN BadRef(st, {"arg"})
  ELSE IF ~Same(Denote(d[2]), saw, FALSE) THEN {}      \* how exact decimals are is the business of C10
  ELSE IF kind = Buffer THEN NewFin(st, saw) ELSE OkVal(st, saw)

(* ------------------------------------------------------------- conversions *)
ConvRes(st, s, fn) ==
  LET r == st.sl[s]  v == SlotVal(st, s)  f == r[1] = "f" IN
  CASE fn \in {"heap_lower", "heap_finalize", "lower", "finalize"} -> IF f THEN OkRef(st, r) ELSE FinRes(st, v)
    [] fn \in {"buffer_lift", "buffer_definalize", "lift", "definalize", "to_heap"} -> IF f THEN OkVal(st, v) ELSE OkRef(st, r)
    [] fn = "to_buffer" -> IF f THEN OkRef(st, r) \cup (IF IsObj(v) THEN NewFin(st, v) ELSE {}) ELSE FinRes(st, v)
    [] OTHER -> {}
ConvKind(fn) == CASE fn \in {"heap_lower", "heap_finalize", "to_buffer"} -> Buffer
                  [] fn \in {"buffer_lift", "buffer_definalize", "to_heap"} -> Heap
                  [] OTHER -> Packet

(* Bytes exist for finalized objects; the copy stands alone. *)
BytesRes(st, s) == IF IsFin(st, s) /\ IsObj(SlotVal(st, s)) THEN NewFin(st, SlotVal(st, s)) ELSE BadRef(st, {"null"})

(* ----------------------------------------------------------------- mutation *)
IsBufSlot(a, s) == a.ty[s][1] = Buffer
Mixed(a, op) == op.v[1] # "lit" /\ a.ty[op.v[2]][2] # a.ty[op.d][2]
Mutate(a, op, F(_)) ==
  IF IsBufSlot(a, op.d) THEN {<<a, Err("client")>>}
  ELSE IF op.o \in {"ins", "set"} /\ Mixed(a, op) THEN {<<a, Err(e)>> : e \in {"type", "client"}}
  ELSE LET R == F(a.st) IN       \* a consumed operand is left null
       Lower(a, IF op.o \in {"ins", "set"} /\ op.v[1] = "mslot" THEN {r \in R : r[2][1] = "ok" => r[1].sl[op.v[2]] = Null} ELSE R)

(* ---------------------------------------------------------------- iterators *)
P1(i) == 2 * i - 1
P2(i) == 2 * i
ItSet(a, i, x, y, ty) == [a EXCEPT !.st.it[P1(i)] = x, !.st.it[P2(i)] = y, !.it[i] = ty]
ANew(a, i, s, keys) ==
  LET v == SlotVal(a.st, s) IN
  IF ~IsFin(a.st, s) \/ IsNull(v) THEN {<<a, <<"skip">>>>}
  ELSE IF ~IsAgg(v) \/ (keys /\ ~IsObj(v)) THEN {<<a, Err("type")>>}
  ELSE LET es == IF keys THEN StrKeys(v[2]) ELSE Elems(v)  b == a.st.sl[s][2]
       IN {<<ItSet(a, i, <<b, es, 0>>, <<b, es, Len(es)>>, a.ty[s]), OkU>>}
ItDone(a, i) == a.st.it[P1(i)] = NoIt \/ a.st.it[P1(i)][3] >= Len(a.st.it[P1(i)][2])

(* ---------------------------------------------------------------- operations *)
AApply(a, op, saw(_)) ==
  LET st == a.st  ty == a.ty  on(i) == a.it[i] # <<>> IN
  CASE op.o = "mk"   -> Results(a, op, op.t, IF op.t[1] = Buffer THEN OkRef(st, Null) ELSE OkVal(st, op.v))
    [] op.o = "va"   -> Results(a, op, op.t, FmtRes(st, op))
    [] op.o = "json" -> Results(a, op, op.t, TextRes(st, op.t[1], TLCEval(Cells(op.x)), saw(op.d)))
    [] op.o = "bytes" -> IF BytesRes(st, op.s) = BadRef(st, {"null"}) THEN {<<a, Err("null")>>}
                         ELSE IF op.f = "take" /\ (op.h \div 24) % 4 = 3 THEN {<<a, <<"skip">>>>}
                         ELSE Results(a, op, op.t, BytesRes(st, op.s))
    [] op.o = "copy" -> Results(a, op, ty[op.s], OkRef(st, st.sl[op.s]))
    [] op.o = "move" -> Results(a, op, ty[op.s], OkRef([st EXCEPT !.sl[op.s] = Null], st.sl[op.s]))
    [] op.o = "conv" -> Results(a, op, <<ConvKind(op.f), ty[op.s][2]>>, ConvRes(st, op.s, op.f))
    [] op.o = "drop" -> {<<[a EXCEPT !.st = Gc([st EXCEPT !.sl[op.d] = Null]), !.ty[op.d] = <<Packet, 1>>], OkU>>}
    [] op.o = "ins"  -> Mutate(a, op, LAMBDA t : InsertOp(t, op.d, op.k, op.v))
    [] op.o = "set"  -> Mutate(a, op, LAMBDA t : SetOp(t, op.d, op.k, op.v))
    [] op.o = "del"  -> Mutate(a, op, LAMBDA t : EraseOp(t, op.d, op.k))
    [] op.o = "clear" -> Mutate(a, op, LAMBDA t : ClearOp(t, op.d))
    [] op.o = "resize" -> Mutate(a, op, LAMBDA t : ResizeOp(t, op.d, op.n, NoSrc))
    [] op.o = "reserve" -> Mutate(a, op, LAMBDA t : ReserveOp(t, op.d))
    [] op.o = "fetch" -> IF op.k[1] = "get" THEN Results(a, op, IF op.n = 1 THEN ty[op.s] ELSE <<Packet, ty[op.s][2]>>, {<<f[1], f[2], f[3]>> : f \in Fetch(st, op.s, op.k)})
                         ELSE \* through an iterator that is advanced so far
                           LET v == SlotVal(st, op.s)  keys == op.k[1] = "nthkey" IN
                           IF ~IsAgg(v) \/ (keys /\ ~IsObj(v)) THEN {<<a, Err("type")>>}
                           ELSE Results(a, op, <<Packet, ty[op.s][2]>>,
                                  IF op.k[2] < Len(v[2]) THEN {<<f[1], f[2], f[3]>> : f \in Fetch(st, op.s, op.k)} ELSE BadRef(st, {"runtime"}))
    [] op.o = "each" -> LET v == SlotVal(st, op.s) IN {<<a, Ok(IF ~IsAgg(v) THEN <<>> ELSE IF op.n = 1 THEN (IF IsObj(v) THEN StrKeys(v[2]) ELSE <<>>) ELSE Elems(v))>>}
    [] op.o = "itnew" -> ANew(a, op.i, op.s, op.n = 1)
    [] op.o = "itadv" -> IF ~on(op.i) THEN {<<a, <<"skip">>>>} ELSE IF ItDone(a, op.i) THEN {<<a, OkU>>} ELSE {<<[a EXCEPT !.st.it[P1(op.i)][3] = @ + 1], OkU>>}
    [] op.o = "itdone" -> {<<a, IF on(op.i) THEN Ok(BoolN(ItDone(a, op.i))) ELSE <<"skip">>>>}
    [] op.o = "itget" -> IF ~on(op.i) THEN {<<a, <<"skip">>>>}
                         ELSE Results(a, op, <<Packet, a.it[op.i][2]>>,
                                IF ItDone(a, op.i) THEN BadRef(st, {"runtime"})
                                ELSE LET x == st.it[P1(op.i)] IN OkRef(st, FinRef(x[1], x[2][x[3] + 1])))
    [] op.o = "itcopy" -> IF op.i = op.n \/ ~on(op.i) THEN {<<a, <<"skip">>>>}
                          ELSE {<<ItSet(a, op.n, st.it[P1(op.i)], st.it[P2(op.i)], a.it[op.i]), OkU>>}
    [] op.o = "itmove" -> IF op.i = op.n \/ ~on(op.i) THEN {<<a, <<"skip">>>>}
                          ELSE LET b == ItSet(a, op.n, st.it[P1(op.i)], st.it[P2(op.i)], a.it[op.i])
                               IN {<<ItSet(b, op.i, NoIt, NoIt, <<Packet, 1>>), OkU>>}
    [] op.o = "itdrop" -> {<<ItSet(a, op.i, NoIt, NoIt, <<>>), OkU>>}
    [] OTHER -> {}

(* ------------------------------------------------------------------- queries *)
TypeCode(v) == CASE IsObj(v) -> 1 [] IsArr(v) -> 2 [] IsStr(v) -> 3 [] IsInt(v) -> 4 [] IsDec(v) -> 5 [] IsBool(v) -> 6 [] OTHER -> 7
AnswerOk(a, s, q, ans) ==
  LET v == SlotVal(a.st, s)
      code(R) == {CCode(r) : r \in {x \in R : x[1] = "err"}} \cup {r \in R : r[1] = "ok"}
  IN
  CASE q[1] = "type" -> ans = Ok(TypeCode(v))
    [] q[1] = "is"   -> ans = Ok([i \in 1..7 |-> BoolN(i = TypeCode(v))])
    [] q[1] = "size" -> ans = Ok(IF IsAgg(v) \/ IsStr(v) THEN SizeOf(v) ELSE -1)
    [] q[1] = "has"  -> ans = Ok(BoolN(IsObj(v) /\ HasField(v[2], q[2])))
    [] q[1] = "str"  -> ans = IF IsStr(v) THEN Ok(v[2]) ELSE Err("null")
    [] q[1] \in {"int", "dec", "flag"} -> ans \in code(QRes(v, q))
    [] q[1] = "eq"   -> LET t == q[2] IN      \* across counters equal values may also compare unequal (abi.h)
                        ans \in {Ok(BoolN(v = SlotVal(a.st, t)))} \cup (IF a.ty[s][2] # a.ty[t][2] THEN {Ok(0)} ELSE {})
    [] q[1] = "json" -> ans[1] = "ok" /\ LET d == ParseDoc(Cells(ans[2]), Plain3) IN IF d = Bad THEN FALSE ELSE Same(d[2], v, TRUE)
    [] q[1] = "bytes" -> ans = IF IsFin(a.st, s) /\ IsObj(v) THEN Ok(<<1, 0, 0>>) ELSE Err("null")
    [] OTHER -> FALSE
=============================================================================
