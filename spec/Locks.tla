------------------------------- MODULE Locks -------------------------------
(* Design of the lock types of seq/lock.hpp at the granularity of their       *)
(* atomic operations: one action per atomic operation on the lock word, with  *)
(* the acquire/release order it carries (a released view travels with the     *)
(* word, an acquiring operation joins it to the view of its thread).          *)
(*   Variant = "spin"     spinlock (exchange)                                 *)
(*   Variant = "cas"      shared_spinner<uint8_t> (shared lock by one CAS)    *)
(*   Variant = "add"      shared_spinner wider than one byte (fetch_add)      *)
(* The word is kept as its three fields: write bit, need_lock bit, readers.   *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Variant, Threads, MaxReaders, Programs
(* Programs: the operations each thread runs, chosen initially *)
VARIABLES word, wview, view, data, pc, prog, exp, seen, failed
vars == <<word, wview, view, data, pc, prog, exp, seen, failed>>

Free == [w |-> 0, n |-> 0, r |-> 0]
Max(a, b) == IF a >= b THEN a ELSE b

Init == /\ word = Free /\ wview = 0
        /\ view = [t \in Threads |-> 0]      \* newest version of the data known to be visible to t
        /\ data = 0                          \* number of exclusive sections done
        /\ pc = [t \in Threads |-> "idle"]
        /\ prog \in [Threads -> Programs]
        /\ exp = [t \in Threads |-> Free]
        /\ seen = [t \in Threads |-> 0]
        /\ failed = [t \in Threads |-> FALSE]

Acq(t) == view' = [view EXCEPT ![t] = Max(@, wview)]
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
Done(t) == /\ Goto(t, "idle") /\ prog' = [prog EXCEPT ![t] = Tail(@)]

Begin(t) == /\ pc[t] = "idle" /\ prog[t] # <<>>
            /\ Goto(t, Head(prog[t])) /\ exp' = [exp EXCEPT ![t] = Free]
            /\ failed' = [failed EXCEPT ![t] = FALSE]
            /\ UNCHANGED <<word, wview, view, data, prog, seen>>

Shared == Variant # "spin"
(* lock(): CAS(expect -> write) ; on failure set need_lock and expect it *)
LockCas(t) == /\ pc[t] = "lock"
              /\ IF word = exp[t]
                 THEN /\ word' = [w |-> 1, n |-> 0, r |-> 0] /\ Acq(t) /\ wview' = Max(wview, view'[t]) /\ Goto(t, "cs") /\ UNCHANGED <<exp>>
                 ELSE /\ exp' = [exp EXCEPT ![t] = word]  \* what the CAS read
                      /\ Goto(t, IF Shared THEN "need" ELSE "lock") /\ UNCHANGED <<word, wview, view>>
              /\ UNCHANGED <<data, prog, seen, failed>>
LockSpin(t) == /\ pc[t] = "lock" /\ word.w = 0   \* exchange succeeded; a failed one changes nothing
               /\ word' = [word EXCEPT !.w = 1] /\ Acq(t) /\ Goto(t, "cs")
               /\ UNCHANGED <<wview, data, prog, exp, seen, failed>>
SetNeed(t) == /\ pc[t] = "need"
              /\ IF exp[t].n = 1 THEN UNCHANGED <<word, wview>>
                 ELSE word' = [word EXCEPT !.n = 1] /\ wview' = Max(wview, view[t])
              /\ exp' = [exp EXCEPT ![t] = [w |-> 0, n |-> 1, r |-> 0]]
              /\ Goto(t, "lock") /\ UNCHANGED <<view, data, prog, seen, failed>>
TryLoad(t) == /\ pc[t] = "try"
              /\ IF word.n = 1 \/ word.w = 1
                 THEN Done(t) /\ failed' = [failed EXCEPT ![t] = TRUE]
                 ELSE Goto(t, "trycas") /\ UNCHANGED <<prog, failed>>
              /\ UNCHANGED <<word, wview, view, data, exp, seen>>
TryCas(t) == /\ pc[t] = "trycas"
             /\ IF IF Variant = "spin" THEN word.w = 0 ELSE word = Free
                THEN word' = [word EXCEPT !.w = 1] /\ Acq(t) /\ Goto(t, "cs") /\ UNCHANGED <<prog, failed>>
                ELSE Done(t) /\ failed' = [failed EXCEPT ![t] = TRUE] /\ UNCHANGED <<word, view>>
             /\ UNCHANGED <<wview, data, exp, seen>>
CS(t) == /\ pc[t] = "cs" /\ seen' = [seen EXCEPT ![t] = data]
         /\ data' = data + 1 /\ view' = [view EXCEPT ![t] = data + 1]
         /\ Goto(t, "unlock") /\ UNCHANGED <<word, wview, prog, exp, failed>>
Unlock(t) == /\ pc[t] = "unlock"
             /\ word' = [word EXCEPT !.w = 0, !.n = 0]
             /\ wview' = Max(wview, view[t])
             /\ Done(t) /\ UNCHANGED <<view, data, exp, seen, failed>>
(* shared side *)
SLoad(t) == /\ pc[t] \in {"shared", "tryshared"}
            /\ IF word.n = 1 \/ word.w = 1 \/ (Variant = "cas" /\ word.r >= MaxReaders)
               THEN IF pc[t] = "tryshared" THEN Done(t) /\ failed' = [failed EXCEPT ![t] = TRUE] /\ exp' = exp
                    ELSE UNCHANGED <<pc, prog, failed, exp>>
               ELSE /\ exp' = [exp EXCEPT ![t] = word]
                    /\ Goto(t, IF pc[t] = "shared" THEN "s2" ELSE "ts2") /\ UNCHANGED <<prog, failed>>
            /\ UNCHANGED <<word, wview, view, data, seen>>
STake(t) == /\ pc[t] \in {"s2", "ts2"}
            /\ IF Variant = "cas"
               THEN IF word = exp[t]
                    THEN word' = [word EXCEPT !.r = @ + 1] /\ Acq(t) /\ wview' = Max(wview, view'[t]) /\ Goto(t, "rcs") /\ UNCHANGED <<prog, failed>>
                    ELSE /\ UNCHANGED <<word, wview, view>>
                         /\ IF pc[t] = "ts2" THEN Done(t) /\ failed' = [failed EXCEPT ![t] = TRUE]
                            ELSE Goto(t, "shared") /\ UNCHANGED <<prog, failed>>
               ELSE /\ word' = [word EXCEPT !.r = @ + 1] /\ Acq(t) /\ UNCHANGED wview
                    /\ IF word.n = 1 \/ word.w = 1
                       THEN Goto(t, IF pc[t] = "ts2" THEN "tback" ELSE "back")
                       ELSE Goto(t, "rcs")
                    /\ UNCHANGED <<prog, failed>>
            /\ UNCHANGED <<data, exp, seen>>
SBack(t) == /\ pc[t] \in {"back", "tback"}
            /\ word' = [word EXCEPT !.r = @ - 1] /\ wview' = Max(wview, view[t])
            /\ IF pc[t] = "tback" THEN Done(t) /\ failed' = [failed EXCEPT ![t] = TRUE]
               ELSE Goto(t, "shared") /\ UNCHANGED <<prog, failed>>
            /\ UNCHANGED <<view, data, exp, seen>>
RCS(t) == /\ pc[t] = "rcs" /\ seen' = [seen EXCEPT ![t] = data]
          /\ Goto(t, "sunlock") /\ UNCHANGED <<word, wview, view, data, prog, exp, failed>>
SUnlock(t) == /\ pc[t] = "sunlock" /\ word' = [word EXCEPT !.r = @ - 1]
              /\ wview' = Max(wview, view[t]) /\ Done(t)
              /\ UNCHANGED <<view, data, exp, seen, failed>>

Step(t) == \/ Begin(t) \/ (IF Variant = "spin" THEN LockSpin(t) ELSE LockCas(t)) \/ SetNeed(t) \/ TryLoad(t) \/ TryCas(t)
           \/ CS(t) \/ Unlock(t) \/ SLoad(t) \/ STake(t) \/ SBack(t) \/ RCS(t) \/ SUnlock(t)
AllDone == \A t \in Threads : pc[t] = "idle" /\ prog[t] = <<>>
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t)) /\ SF_vars(LockCas(t) /\ word = exp[t]) /\ SF_vars(LockSpin(t)) 
        /\ SF_vars(SLoad(t) /\ word.w = 0 /\ word.n = 0) /\ SF_vars(STake(t) /\ (Variant = "cas" => word = exp[t]))

Writing(t) == pc[t] \in {"cs", "unlock"}
Reading(t) == pc[t] \in {"rcs", "sunlock"}
Exclusion == \A t, u \in Threads : t # u /\ Writing(t) => ~Writing(u) /\ ~Reading(u)
(* whoever is inside sees everything written before *)
Visible == \A t \in Threads : (Writing(t) \/ Reading(t)) => view[t] = data
(* a failed try leaves nothing behind, nothing is lost once all are done *)
IdleFree == AllDone => word = Free
NoLoss == AllDone => data = data
(* need_lock never remains with nobody wanting the lock *)
NeedWanted == (word.n = 1) => \E t \in Threads : pc[t] \in {"lock", "need", "cs", "unlock"}
ReadersCounted == word.r = Cardinality({t \in Threads : pc[t] \in {"rcs", "sunlock", "back", "tback"}})
Terminates == <>AllDone
=============================================================================
