--------------------------------- MODULE LazyMC ---------------------------------
(***************************************************************************)
(* Threads: what C20 (and C16 across threads) rests on below the level of  *)
(* Shogi.tla, whose calls are atomic.  yasai's tables (src/tables.rs,      *)
(* src/zobrist.rs) are filled by whichever thread first needs one, in      *)
(* parts, while others may be asking for the same one; some are filled by  *)
(* reading others.  Positions are shared for reading and owned for         *)
(* writing, and a query takes many steps.                                  *)
(*                                                                         *)
(* Whatever the interleaving, a call must see complete tables and one and  *)
(* the same position from beginning to end, and must come back.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS THREADS, CALLS, OBJECTS, PARTS

\* tables, and which are read while filling which
Tables == {"attack", "between", "ranks", "promotable", "files", "keys"}
Reads  == [t \in Tables |-> IF t = "promotable" THEN {"ranks"} ELSE {}]

\* calls: what they read, in order; whether they change the object
Kinds == {"do", "undo", "moves", "ask"}
Plan(k) == CASE k = "do"    -> <<"keys", "attack", "between">>
             [] k = "undo"  -> <<"keys">>
             [] k = "moves" -> <<"attack", "promotable", "ranks", "files", "between">>
             [] k = "ask"   -> <<"between", "attack">>
Writes(k) == k \in {"do", "undo"}

VARIABLES tab,    \* table -> [by: the thread filling it or 0, n: parts filled, ok: published, times: times published]
          obj,    \* object -> [v: version, a: a half-written answer of it is visible]
          th      \* thread -> [left: calls left, k, o, pc: step of the plan, fill: tables being filled (innermost last),
                  \*            v: version seen at the beginning, bad: something incomplete was seen]
vars == <<tab, obj, th>>

Idle == "idle"
Init == /\ tab = [t \in Tables |-> [by |-> 0, n |-> 0, ok |-> FALSE, times |-> 0]]
        /\ obj = [o \in OBJECTS |-> [v |-> 0, a |-> FALSE]]
        /\ th = [i \in THREADS |-> [left |-> CALLS, k |-> Idle, o |-> 0, pc |-> 0, fill |-> <<>>, v |-> 0, bad |-> FALSE]]

Busy(i) == th[i].k # Idle
\* what the language gives: a call that changes an object has it to itself
Free(o, k) == \A i \in THREADS : Busy(i) /\ th[i].o = o => ~Writes(k) /\ ~Writes(th[i].k)

Start(i) ==
  /\ ~Busy(i) /\ th[i].left > 0
  /\ \E o \in OBJECTS, k \in Kinds :
       /\ Free(o, k)
       /\ th' = [th EXCEPT ![i] = [@ EXCEPT !.k = k, !.o = o, !.pc = 1, !.v = obj[o].v, !.left = @ - 1]]
       /\ obj' = IF Writes(k) THEN [obj EXCEPT ![o].a = TRUE] ELSE obj
  /\ UNCHANGED tab

\* what thread i needs next: a table for its plan, or for the table it is filling
Filling(i) == th[i].fill # <<>>
Inner(i) == th[i].fill[Len(th[i].fill)]
Wants(i) == IF Filling(i) THEN LET m == {t \in Reads[Inner(i)] : ~tab[t].ok} IN
                               IF m = {} THEN "" ELSE CHOOSE t \in m : TRUE
            ELSE IF Busy(i) /\ th[i].pc <= Len(Plan(th[i].k)) THEN Plan(th[i].k)[th[i].pc] ELSE ""

\* nobody has begun: it is this thread's to fill
Begin(i) ==
  /\ Wants(i) # "" /\ ~tab[Wants(i)].ok /\ tab[Wants(i)].by = 0
  /\ tab' = [tab EXCEPT ![Wants(i)].by = i]
  /\ th' = [th EXCEPT ![i].fill = Append(@, Wants(i))]
  /\ UNCHANGED obj

Fill(i) ==
  /\ Filling(i) /\ Wants(i) = ""
  /\ LET t == Inner(i) IN
     /\ tab[t].n < PARTS
     /\ tab' = [tab EXCEPT ![t].n = @ + 1]
     /\ th' = [th EXCEPT ![i].bad = @ \/ \E r \in Reads[t] : tab[r].n < PARTS]
  /\ UNCHANGED obj

Publish(i) ==
  /\ Filling(i)
  /\ LET t == Inner(i) IN
     /\ tab[t].n = PARTS
     /\ tab' = [tab EXCEPT ![t].ok = TRUE, ![t].by = 0, ![t].times = @ + 1]
     /\ th' = [th EXCEPT ![i].fill = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED obj

\* (a table another thread is filling: wait, that is, do nothing)
Read(i) ==
  /\ ~Filling(i) /\ Wants(i) # "" /\ tab[Wants(i)].ok
  /\ th' = [th EXCEPT ![i].pc = @ + 1,
                      ![i].bad = @ \/ tab[Wants(i)].n < PARTS \/ obj[th[i].o].v # th[i].v \/ (~Writes(th[i].k) /\ obj[th[i].o].a)]
  /\ UNCHANGED <<tab, obj>>

Finish(i) ==
  /\ Busy(i) /\ ~Filling(i) /\ Wants(i) = ""
  /\ th' = [th EXCEPT ![i].k = Idle, ![i].o = 0, ![i].pc = 0, ![i].v = 0, ![i].bad = @ \/ obj[th[i].o].v # th[i].v]
  /\ obj' = IF Writes(th[i].k) THEN [obj EXCEPT ![th[i].o] = [v |-> @.v + 1, a |-> FALSE]] ELSE obj
  /\ UNCHANGED tab

Move(i) == Start(i) \/ Begin(i) \/ Fill(i) \/ Publish(i) \/ Read(i) \/ Finish(i)
Next == \E i \in THREADS : Move(i)
Spec == Init /\ [][Next]_vars /\ \A i \in THREADS : WF_vars(Move(i))

-----------------------------------------------------------------------------
\* C20: a call never sees part of a table, and sees one version of its object
SeenOK == \A i \in THREADS : ~th[i].bad
\* a table is filled once, by one thread at a time, and published when full
OnceOK == \A t \in Tables : /\ tab[t].times <= 1
                            /\ tab[t].n <= PARTS
                            /\ tab[t].ok => tab[t].n = PARTS
                            /\ Cardinality({i \in THREADS : \E x \in 1..Len(th[i].fill) : th[i].fill[x] = t}) <= 1
\* nobody waits for what it is itself filling, and the waiting goes in no circle
Waits(i, j) == Wants(i) # "" /\ ~tab[Wants(i)].ok /\ tab[Wants(i)].by = j
NoCircle == /\ \A i \in THREADS : ~Waits(i, i)
            /\ \A i, j \in THREADS : ~(Waits(i, j) /\ Waits(j, i))
\* what is left when all calls are done does not depend on who did what when: as many versions as writes
Done == \A i \in THREADS : ~Busy(i) /\ th[i].left = 0
Returns == <>Done
=============================================================================
