----------------------------- MODULE LockTrace -----------------------------
(* Validates executions of the lock types recorded from the real code.        *)
(* The trace holds every atomic operation on the lock word with its memory    *)
(* order, every access to the protected data, and the moments at which a      *)
(* thread enters and leaves its section.  The specification keeps             *)
(*   - who holds the lock (exclusion),                                        *)
(*   - the happens-before order given by the C++ memory model: vector clocks  *)
(*     joined by acquire operations from the release sequence they read       *)
(*     (visibility: an access to the data must be ordered after the accesses  *)
(*     it conflicts with),                                                    *)
(*   - which threads were active during an attempt (a try operation fails     *)
(*     only if another thread was in the way).                                *)
(* It does not look at how the lock word is encoded.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sn, l, st
vars == <<sn, l, st>>
Cfg == Sessions[sn].cfg
Ev == Sessions[sn].ev

Max(a, b) == IF a >= b THEN a ELSE b
Zero(n) == [i \in 1..n |-> 0]
Join(x, y) == [i \in 1..Len(x) |-> Max(x[i], y[i])]
Tick(v, t) == [v EXCEPT ![t] = @ + 1]

Init == /\ sn \in 1..Len(Sessions) /\ l = 1
        /\ LET n == Sessions[sn].cfg.nt IN
           st = [ vc |-> [t \in 1..n |-> Tick(Zero(n), t)],  \* clocks
                  rel |-> Zero(n),                            \* release sequence on the lock word
                   pa |-> [t \in 1..n |-> Zero(n)],            \* read by relaxed operations, for a later acquire fence
                   rf |-> [t \in 1..n |-> Zero(n)],            \* clock of the last release fence
                  w |-> 0, r |-> {},                          \* holders
                  act |-> [t \in 1..n |-> "-"],               \* attempt or section going on: b exclusive, c shared
                  x |-> Zero(n),                              \* 1: another activity overlapped the attempt
                  wt |-> [p \in 2..3 |-> <<1, 0>>],           \* last write of the data: thread, clock
                  rd |-> [p \in 2..3 |-> Zero(n)],            \* last read by each thread
                  nw |-> 0 ]                                  \* exclusive sections

Threads == 1..Cfg.nt
\* interference: what the others are doing when t starts
Inter(t) == IF \E u \in Threads \ {t} : st.act[u] # "-" THEN 1 ELSE 0
Start(t, k) == [st EXCEPT !.act[t] = k,
                          !.x = [u \in Threads |-> IF u = t THEN Inter(t)
                                                   ELSE IF st.act[u] = "-" THEN st.x[u]
                                                   ELSE 1]]
Ok(e) ==
  LET k == e[1]  t == e[2]  p == e[3] IN
  CASE k = "uW" -> e[4] = 1 /\ st.w = 0 /\ st.r = {} /\ st.act[t] = "b"
    [] k = "uR" -> e[4] = 1 /\ st.w = 0 /\ st.act[t] = "c" /\ (Cfg.shared \/ st.r = {})
    [] k = "uw" -> st.w = t
    [] k = "ur" -> t \in st.r
    [] k = "uf" -> st.x[t] # 0
    [] k = "ug" -> st.x[t] # 0
    [] k = "pr" -> st.vc[t][st.wt[p][1]] >= st.wt[p][2]
    [] k = "pw" -> /\ st.vc[t][st.wt[p][1]] >= st.wt[p][2]
                   /\ \A u \in Threads : st.vc[t][u] >= st.rd[p][u]
    [] k = "crash" -> FALSE
    [] k = "end" -> t = 0 /\ p = 1 /\ e[4] = st.nw /\ e[5] = st.nw
    [] OTHER -> TRUE
After(e) ==
  LET k == e[1]  t == e[2]  p == e[3]  q == e[4] = 1  s == e[5] = 1
      v == IF q THEN Join(st.vc[t], st.rel) ELSE st.vc[t] IN
  CASE k \in {"ub", "uc"} -> Start(t, IF k = "ub" THEN "b" ELSE "c")
    [] k = "ue" -> [st EXCEPT !.act[t] = "-", !.x[t] = 0]
    [] k = "uW" -> [st EXCEPT !.w = t, !.nw = @ + 1]
    [] k = "uR" -> [st EXCEPT !.r = @ \cup {t}]
    [] k = "uw" -> [st EXCEPT !.w = 0]
    [] k = "ur" -> [st EXCEPT !.r = @ \ {t}]
    [] k \in {"aL", "aF"} -> [st EXCEPT !.vc[t] = v, !.pa[t] = Join(@, st.rel)]
    [] k = "aS" -> [st EXCEPT !.rel = IF s THEN st.vc[t] ELSE st.rf[t], !.vc[t] = Tick(@, t)]
    [] k = "aX" -> [st EXCEPT !.rel = IF s THEN Join(@, v) ELSE Join(@, st.rf[t]), !.vc[t] = Tick(v, t), !.pa[t] = Join(@, st.rel)]
    [] k = "aT" -> LET f == IF q THEN Join(st.vc[t], st.pa[t]) ELSE st.vc[t] IN
                   [st EXCEPT !.vc[t] = Tick(f, t), !.rf[t] = IF s THEN f ELSE @]
    [] k = "pr" -> [st EXCEPT !.rd[p][t] = st.vc[t][t]]
    [] k = "pw" -> [st EXCEPT !.wt[p] = <<t, st.vc[t][t]>>, !.rd[p] = Zero(Cfg.nt)]
    [] OTHER -> st

Next == /\ l <= Len(Ev)
        /\ IF Ok(Ev[l]) THEN st' = After(Ev[l]) ELSE FALSE
        /\ l' = l + 1 /\ sn' = sn
        /\ l = Len(Ev) => PrintT(<<"ACC", sn>>)
Spec == Init /\ [][Next]_vars
Exclusion == st.w = 0 \/ st.r = {}
=============================================================================
