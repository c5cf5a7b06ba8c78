---------------------------- MODULE DartThreads ----------------------------
(* Threads that own handles sharing payloads, at the granularity of the      *)
(* reference counter's steps.  Every thread owns two handles.  A payload is  *)
(* a pair of cells, written and copied cell by cell, so that a half-done      *)
(* update is visible.                                                        *)
(*                                                                           *)
(* A mutation first asks for the count: one owner - write in place, more -   *)
(* copy the payload, let go of the shared one, write the copy.  Who writes   *)
(* (or frees) a payload must have synchronised with everyone who ever read   *)
(* it: letting go of a count publishes the owner's accesses on the counter,  *)
(* and a step that acquires from the counter picks up what was published.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Thread, Node, MaxOps,
          AcquireOnCount,     \* does seeing "one owner" acquire (load or fence)?
          ReleaseOnDrop,      \* does letting go release, and the last one acquire?
          AtomicInc,          \* is a copy's increment one step?
          CheckCount,         \* does a mutation look at the count at all?
          CopyFirst           \* is the copy finished before letting go?

Handle == 1..2
None == 0
VARIABLES h,        \* h[t][i]: payload of handle i of thread t, or None
          cell,     \* cell[n] = <<a, b>>
          rc, freed,
          want,     \* ghost: want[t][i], what thread t must see through handle i
          pc,       \* pc[t] = <<"idle">> or the step it is in
          left,     \* operations left
          open,     \* open[n][u]: u accessed n since it last published
          pub,      \* pub[n]: threads whose accesses are published on n's counter
          seen,     \* seen[t][n]: threads whose accesses t has acquired
          bad       \* what went wrong
vars == <<h, cell, rc, freed, want, pc, left, open, pub, seen, bad>>

Fresh == {n \in Node : rc[n] = 0 /\ ~freed[n] /\ ~\E t \in Thread : pc[t][1] = "free" /\ pc[t][2] = n}
Init ==
  /\ h = [t \in Thread |-> <<1, None>>]
  /\ cell = [n \in Node |-> <<0, 0>>]
  /\ rc = [n \in Node |-> IF n = 1 THEN Cardinality(Thread) ELSE 0]
  /\ freed = [n \in Node |-> FALSE]
  /\ want = [t \in Thread |-> <<0, None>>]
  /\ pc = [t \in Thread |-> <<"idle">>]
  /\ left = [t \in Thread |-> MaxOps]
  /\ open = [n \in Node |-> {}] /\ pub = [n \in Node |-> {}]
  /\ seen = [t \in Thread |-> [n \in Node |-> {}]]
  /\ bad = {}

Idle(t) == pc[t][1] = "idle"
Op(t) == Idle(t) /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Done(t) == Go(t, <<"idle">>)

(* t reads n: n must be alive. *)
ReadBad(n) == IF freed[n] THEN {"use after free"} ELSE {}
(* t writes or frees n: everyone else's accesses must have been acquired. *)
WriteBad(t, n) == (IF freed[n] THEN {"use after free"} ELSE {})
                  \cup (IF \E u \in Thread \ {t} : u \in open[n] \/ (u \in pub[n] /\ u \notin seen[t][n]) THEN {"data race"} ELSE {})

Look(t, i) ==       \* read both cells, one after the other
  \/ /\ Op(t) /\ h[t][i] # None
     /\ Go(t, <<"look", i, cell[h[t][i]][1]>>) /\ open' = [open EXCEPT ![h[t][i]] = @ \cup {t}]
     /\ bad' = bad \cup ReadBad(h[t][i])
     /\ UNCHANGED <<h, cell, rc, freed, want, pub, seen>>
  \/ /\ pc[t][1] = "look" /\ pc[t][2] = i
     /\ LET n == h[t][i] IN
        bad' = bad \cup ReadBad(n) \cup (IF <<pc[t][3], cell[n][2]>> # <<want[t][i], want[t][i]>> THEN {"wrong value"} ELSE {})
     /\ Done(t) /\ UNCHANGED <<h, cell, rc, freed, want, left, open, pub, seen>>

Copy(t) ==          \* handle 2 becomes a copy of handle 1
  \/ /\ Op(t) /\ h[t][1] # None /\ h[t][2] = None
     /\ IF AtomicInc
        THEN /\ rc' = [rc EXCEPT ![h[t][1]] = @ + 1]
             /\ h' = [h EXCEPT ![t][2] = h[t][1]] /\ want' = [want EXCEPT ![t][2] = want[t][1]] /\ UNCHANGED pc
        ELSE Go(t, <<"inc", rc[h[t][1]]>>) /\ UNCHANGED <<rc, h, want>>
     /\ bad' = bad \cup ReadBad(h[t][1])
     /\ UNCHANGED <<cell, freed, open, pub, seen>>
  \/ /\ pc[t][1] = "inc"
     /\ rc' = [rc EXCEPT ![h[t][1]] = pc[t][2] + 1]
     /\ h' = [h EXCEPT ![t][2] = h[t][1]] /\ want' = [want EXCEPT ![t][2] = want[t][1]]
     /\ Done(t) /\ UNCHANGED <<cell, freed, left, open, pub, seen, bad>>

(* Letting go of a count of n: one atomic step; the last one then frees. *)
DropCount(t, n) ==
  /\ rc' = [rc EXCEPT ![n] = @ - 1]
  /\ open' = [open EXCEPT ![n] = IF ReleaseOnDrop THEN @ \ {t} ELSE @]
  /\ pub' = [pub EXCEPT ![n] = IF ReleaseOnDrop /\ t \in open[n] THEN @ \cup {t} ELSE @]
  /\ seen' = [u \in Thread |-> [seen[u] EXCEPT ![n] = IF ~ReleaseOnDrop THEN @ ELSE IF u = t THEN @ \cup pub[n] ELSE IF t \in open[n] THEN @ \ {t} ELSE @]]
  /\ bad' = bad \cup ReadBad(n) \cup (IF rc[n] < 1 THEN {"count below zero"} ELSE {})
Drop(t, i) ==
  \/ /\ Op(t) /\ h[t][i] # None
     /\ DropCount(t, h[t][i])
     /\ h' = [h EXCEPT ![t][i] = None] /\ want' = [want EXCEPT ![t][i] = None]
     /\ IF rc[h[t][i]] = 1 THEN Go(t, <<"free", h[t][i], <<"idle">>>>) ELSE UNCHANGED pc
     /\ UNCHANGED <<cell, freed>>
Free(t) ==
  /\ pc[t][1] = "free"
  /\ LET n == pc[t][2] IN
     /\ bad' = bad \cup WriteBad(t, n) \cup (IF freed[n] THEN {"freed twice"} ELSE {})
     /\ freed' = [freed EXCEPT ![n] = TRUE]
  /\ Go(t, pc[t][3]) /\ UNCHANGED <<h, cell, rc, want, left, open, pub, seen>>

(* Handle i is given the new value of its operation: t * 10 + operations left. *)
New(t) == t * 10 + left[t]
Mutate(t, i) ==
  \/ /\ Op(t) /\ h[t][i] # None                                     \* ask for the count
     /\ LET n == h[t][i] IN
        /\ seen' = [seen EXCEPT ![t][n] = IF AcquireOnCount THEN @ \cup pub[n] ELSE @]
        /\ Go(t, IF CheckCount /\ rc[n] > 1 THEN <<"copy1", i>> ELSE <<"write1", i>>)
        /\ bad' = bad \cup ReadBad(n)
     /\ UNCHANGED <<h, cell, rc, freed, want, open, pub>>
  \/ /\ pc[t][1] = "copy1" /\ pc[t][2] = i                           \* copy the first cell
     /\ LET n == h[t][i] IN
        /\ open' = [open EXCEPT ![n] = @ \cup {t}] /\ bad' = bad \cup ReadBad(n)
        /\ Go(t, <<"copy2", i, cell[n][1]>>)
     /\ UNCHANGED <<h, cell, rc, freed, want, left, pub, seen>>
  \/ /\ pc[t][1] = "copy2" /\ pc[t][2] = i                           \* and the second, into a new payload
     /\ Fresh # {}
     /\ LET n == h[t][i]  m == CHOOSE x \in Fresh : TRUE IN
        /\ rc' = [rc EXCEPT ![m] = 1]
        /\ cell' = [cell EXCEPT ![m] = <<pc[t][3], cell[n][2]>>]
        /\ h' = [h EXCEPT ![t][i] = m]
        /\ open' = [open EXCEPT ![m] = @ \cup {t}] /\ bad' = bad \cup ReadBad(n)
        /\ Go(t, <<"letgo", i, n>>)
     /\ UNCHANGED <<freed, want, left, pub, seen>>
  \/ /\ pc[t][1] = "letgo" /\ pc[t][2] = i
     /\ LET n == pc[t][3] IN
        /\ DropCount(t, n)
        /\ Go(t, IF rc[n] = 1 THEN <<"free", n, <<"write1", i>>>> ELSE <<"write1", i>>)
     /\ UNCHANGED <<h, cell, freed, want, left>>
  \/ /\ pc[t][1] = "write1" /\ pc[t][2] = i
     /\ LET n == h[t][i] IN
        /\ bad' = bad \cup WriteBad(t, n) /\ open' = [open EXCEPT ![n] = @ \cup {t}]
        /\ cell' = [cell EXCEPT ![n] = <<New(t), @[2]>>]
     /\ Go(t, <<"write2", i>>) /\ UNCHANGED <<h, rc, freed, want, left, pub, seen>>
  \/ /\ pc[t][1] = "write2" /\ pc[t][2] = i
     /\ LET n == h[t][i] IN
        /\ bad' = bad \cup WriteBad(t, n)
        /\ cell' = [cell EXCEPT ![n] = <<@[1], New(t)>>]
     /\ want' = [want EXCEPT ![t][i] = New(t)]
     /\ Done(t) /\ UNCHANGED <<h, rc, freed, left, open, pub, seen>>

(* (the order CopyFirst = FALSE lets go before copying: the negative control) *)
Hasty(t, i) ==
  /\ ~CopyFirst /\ pc[t][1] = "copy1" /\ pc[t][2] = i /\ rc[h[t][i]] > 1
  /\ DropCount(t, h[t][i])
  /\ Go(t, <<"hasty", i>>) /\ UNCHANGED <<h, cell, freed, want, left>>
Hasty2(t, i) ==
  /\ pc[t][1] = "hasty" /\ pc[t][2] = i /\ Fresh # {}
  /\ LET n == h[t][i]  m == CHOOSE x \in Fresh : TRUE IN
     /\ bad' = bad \cup ReadBad(n)
     /\ cell' = [cell EXCEPT ![m] = cell[n]] /\ rc' = [rc EXCEPT ![m] = 1] /\ h' = [h EXCEPT ![t][i] = m]
     /\ Go(t, <<"write1", i>>) /\ UNCHANGED <<freed, want, left, pub, seen>>

Next == \E t \in Thread : Copy(t) \/ Free(t) \/ \E i \in Handle : Look(t, i) \/ Drop(t, i) \/ Mutate(t, i) \/ Hasty(t, i) \/ Hasty2(t, i)
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- properties *)
Clean == bad = {}
(* what a thread that is not in the middle of something would see *)
Isolated == \A t \in Thread, i \in Handle : (Idle(t) /\ h[t][i] # None) => cell[h[t][i]] = <<want[t][i], want[t][i]>>
Owners(n) == Cardinality({<<t, i>> \in Thread \X Handle : h[t][i] = n}) + Cardinality({t \in Thread : pc[t][1] = "letgo" /\ pc[t][3] = n})
Counted == \A n \in Node : rc[n] = Owners(n)
Released == \A n \in Node : (freed[n] => rc[n] = 0) /\ ((rc[n] = 0 /\ cell[n] # <<0, 0>>) => (freed[n] \/ \E t \in Thread : pc[t][1] = "free" /\ pc[t][2] = n))
=============================================================================
