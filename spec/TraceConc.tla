----------------------------- MODULE TraceConc -----------------------------
(* Linearizability of concurrent_map / concurrent_set.  A session is the        *)
(* history of one execution of the real code (calls, returns, functor calls),   *)
(* projected on one or a few keys: single-key operations on different keys are  *)
(* independent objects, so a history is linearizable exactly when each          *)
(* projection is (locality), and bulk operations are specified key by key.      *)
(*                                                                             *)
(* The abstract state is two maps (containers 1 and 2).  A single-key           *)
(* operation takes effect in one internal step Lin(i) between its call and its  *)
(* return; bulk operations treat each key in internal steps of their own        *)
(* (clear, merge, snapshot) or at the calls of their functor (visit_all,        *)
(* erase_if).  Internal steps are taken only when the next event needs them.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sn, l, st
vars == <<sn, l, st>>
S == Sessions[sn]
Ev == S.ev
Op(i) == S.ops[i]
Keys == 1..S.nk
Bulk == {"clear", "vall", "eall", "merge", "snap"}
NoVal == -1

Init == /\ sn \in 1..Len(Sessions) /\ l = 1
        /\ st = IF Sessions[sn].g = 1 THEN [m |-> <<>>, pend |-> {}, lin |-> {}, todo |-> {}, vis |-> {}, abs |-> {}, stop |-> {}, cnt |-> <<>>]
                ELSE [m |-> Sessions[sn].init, pend |-> {}, lin |-> {},
                      todo |-> {},   \* <<op, key>> a bulk operation has still to treat
                      vis |-> {},    \* <<op, key>> visited (since the key was last absent)
                      abs |-> {},    \* <<op, key>> absent at some moment of the call
                      stop |-> {},
                      cnt |-> [i \in 1..Len(Sessions[sn].ops) |-> 0]]

Visitors(s, c) == {i \in s.pend : Op(i).o \in {"vall", "eall"} /\ Op(i).c = c}
\* state after container c gets value v for key k
Put(s, c, k, v) ==
  IF v # NoVal THEN [s EXCEPT !.m[c][k] = v]
  ELSE [s EXCEPT !.m[c][k] = v, !.abs = @ \cup {<<i, k>> : i \in Visitors(s, c)}, !.vis = {x \in @ : ~(x[2] = k /\ x[1] \in Visitors(s, c))}]

\* can the result of operation i be that of this moment?
LinOk(i) ==
  LET o == Op(i)  x == st.m[o.c][o.k] IN
  CASE o.x = "fn" -> o.s = x /\ x # NoVal           \* the functor saw the element, then threw
    [] o.x \in {"inj", "bad_alloc"} -> TRUE
    [] o.o = "ins" -> IF o.r = 1 THEN x = NoVal ELSE x # NoVal
    [] o.o = "insu" -> TRUE
    [] o.o = "iov" -> IF o.r = 1 THEN x = NoVal /\ o.s = -1 ELSE x # NoVal /\ o.s = x
    [] o.o = "ioa" -> IF o.r = 1 THEN x = NoVal ELSE x # NoVal
    [] o.o = "era" -> IF o.r = 1 THEN x # NoVal /\ (o.p = -1 \/ (o.p = 1 /\ o.s = x))
                      ELSE o.r = 0 /\ (IF o.p = -1 THEN x = NoVal ELSE o.p = 0 /\ x # NoVal /\ o.s = x)
    [] o.o = "vis" -> IF o.r = 1 THEN x # NoVal /\ o.s = x ELSE o.r = 0 /\ x = NoVal /\ o.s = -1
    [] o.o = "has" -> o.r = (IF x = NoVal THEN 0 ELSE 1)
LinDo(i) ==
  LET o == Op(i)  s == [st EXCEPT !.lin = @ \cup {i}]  x == st.m[o.c][o.k] IN
  CASE o.x # "none" -> s
    [] o.o = "ins" /\ o.r = 1 -> Put(s, o.c, o.k, o.v)
    [] o.o = "insu" -> IF x = NoVal THEN Put(s, o.c, o.k, o.v) ELSE s
    [] o.o = "iov" -> IF o.r = 1 THEN Put(s, o.c, o.k, o.v) ELSE IF o.w = -1 THEN s ELSE Put(s, o.c, o.k, o.w)
    [] o.o = "ioa" -> Put(s, o.c, o.k, o.v)
    [] o.o = "era" /\ o.r = 1 -> Put(s, o.c, o.k, NoVal)
    [] o.o = "vis" /\ o.r = 1 /\ o.w # -1 -> Put(s, o.c, o.k, o.w)
    [] OTHER -> s

\* one key of a bulk operation
BulkOk(i, k) ==
  LET o == Op(i) IN
  CASE o.o = "snap" -> st.m[o.c][k] = o.obs[k]
    [] OTHER -> TRUE
BulkDo(i, k) ==
  LET o == Op(i)  s == [st EXCEPT !.todo = @ \ {<<i, k>>}]  c == o.c  d == 3 - o.c IN
  CASE o.o = "clear" -> Put(s, c, k, NoVal)
    [] o.o = "snap" -> s
    [] o.o = "merge" -> IF st.m[d][k] # NoVal /\ st.m[c][k] = NoVal
                        THEN [Put(Put(s, c, k, st.m[d][k]), d, k, NoVal) EXCEPT !.cnt[i] = @ + 1]
                        ELSE s

Call(i) ==
  LET o == Op(i)  s == [st EXCEPT !.pend = @ \cup {i}] IN
  IF o.o \in {"clear", "merge", "snap"} THEN [s EXCEPT !.todo = @ \cup {<<i, k>> : k \in Keys}]
  ELSE IF o.o \in {"vall", "eall"} THEN [s EXCEPT !.abs = @ \cup {<<i, k>> : k \in {q \in Keys : st.m[o.c][q] = NoVal}}]
  ELSE s

\* i may return: everything it had to do is done
CanRet(i) ==
  LET o == Op(i) IN
  IF o.o \notin Bulk THEN i \in st.lin
  ELSE IF o.x # "none" THEN TRUE
  ELSE CASE o.o \in {"clear", "snap"} -> \A k \in Keys : <<i, k>> \notin st.todo
         [] o.o = "merge" -> (\A k \in Keys : <<i, k>> \notin st.todo) /\ (o.n = -1 \/ o.n = st.cnt[i])
         [] o.o = "eall" -> \A k \in Keys : <<i, k>> \in st.vis \/ <<i, k>> \in st.abs
         [] o.o = "vall" -> o.r = 0 \/ \A k \in Keys : <<i, k>> \in st.vis \/ <<i, k>> \in st.abs
Ret(i) == [st EXCEPT !.pend = @ \ {i}, !.lin = @ \ {i},
                     !.todo = {x \in @ : x[1] # i}, !.vis = {x \in @ : x[1] # i}, !.abs = {x \in @ : x[1] # i}]

\* functor call of a bulk operation on key k with value a; b: value written / predicate
FnOk(e) == LET i == e[2]  k == e[3]  o == Op(i) IN
  /\ st.m[o.c][k] = e[4] /\ e[4] # NoVal /\ <<i, k>> \notin st.vis
FnDo(e) == LET i == e[2]  k == e[3]  o == Op(i)  s == [st EXCEPT !.vis = @ \cup {<<i, k>>}] IN
  IF o.o = "eall" THEN (IF e[5] = 1 THEN [Put(s, o.c, k, NoVal) EXCEPT !.vis = s.vis] ELSE s)
  ELSE IF e[5] # -1 THEN Put(s, o.c, k, e[5]) ELSE s

\* what is true of every execution, whatever the history
GlobalOk ==
  /\ S.size = S.cnt                      \* size() counts the elements
  /\ S.dup = 0 /\ S.miss = 0             \* reached once, and found by key
  /\ S.live[1] = S.live[2] /\ S.live[3] = 0 /\ S.live[4] = 0
  /\ S.err = "" /\ S.use = 1 /\ S.done = 1
  /\ \A i \in 1..Len(S.bulk) :
       LET b == S.bulk[i] IN
       CASE b.o = "eall" -> b.r = b.t                                     \* number erased
         [] b.o = "vall" -> IF b.stopped = 1 THEN b.r = 0 /\ b.n = b.stop   \* stops at once
                            ELSE b.r = 1

Internal ==
  \/ \E i \in {j \in st.pend \ st.lin : Op(j).o \notin Bulk} :
       \/ IF LinOk(i) THEN st' = LinDo(i) ELSE FALSE
       \/ (IF Op(i).o = "insu" /\ Op(i).x # "none" /\ st.m[Op(i).c][Op(i).k] = NoVal      \* interrupted range insertion
           THEN st' = Put([st EXCEPT !.lin = @ \cup {i}], Op(i).c, Op(i).k, Op(i).v) ELSE FALSE)
  \/ \E x \in st.todo : IF BulkOk(x[1], x[2]) THEN st' = BulkDo(x[1], x[2]) ELSE FALSE
Advance == /\ l' = l + 1
           /\ l = Len(Ev) => PrintT(<<"ACC", sn>>)

Next ==
  /\ l <= Len(Ev) /\ sn' = sn
  /\ LET e == Ev[l] IN
     CASE e[1] = 0 -> st' = Call(e[2]) /\ Advance
       [] e[1] = 1 -> IF ~CanRet(e[2]) THEN Internal /\ l' = l
                        ELSE \/ (st' = Ret(e[2]) /\ Advance)
                             \/ (Op(e[2]).x # "none" /\ Op(e[2]).o \in Bulk /\ Internal /\ l' = l)  \* interrupted: part of it may be done
       [] e[1] = 2 -> \/ (IF FnOk(e) THEN st' = FnDo(e) /\ Advance ELSE FALSE)
                      \/ (Internal /\ l' = l)
       [] e[1] = 7 -> IF GlobalOk THEN st' = st /\ Advance ELSE FALSE
       [] e[1] = 9 -> IF st.pend = {} /\ st.m = S.fin THEN st' = st /\ Advance ELSE FALSE
       [] OTHER -> FALSE          \* 8: the execution did not finish
Spec == Init /\ [][Next]_vars
=============================================================================
