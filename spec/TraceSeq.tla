------------------------------ MODULE TraceSeq ------------------------------
(* Validates sessions recorded from devector / tiered_vector against           *)
(* SeqContainer.  A session is accepted (ACC) when its last event is matched;  *)
(* the spec is deterministic, so a session that is not accepted stops at the   *)
(* event the specification does not allow.                                     *)
EXTENDS SeqContainer, TLC, TLCExt, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sn, l, st
vars == <<sn, l, st>>

Cfg == Sessions[sn].cfg
Ev == Sessions[sn].ev

Init == /\ sn \in 1..Len(Sessions) /\ l = 1
        /\ st = [c |-> <<<<>>, <<>>>>, a |-> <<Sessions[sn].cfg.a1, Sessions[sn].cfg.a2>>]

\* facet "value": what the container holds; otherwise also the lifetime and allocation ledgers
Life == IOEnv.FACET # "value"
Clean(e) == "crash" \notin DOMAIN e /\ (Life => e.er = "")
LiveOk(e, c) == Life => (e.lv = -1 \/ e.lv = Len(c[1]) + Len(c[2]))
\* what was observed of slot k
Seen(e, s) == /\ e.n = Len(s) /\ ("em" \in DOMAIN e => e.em = (Len(s) = 0))
              /\ ("c" \in DOMAIN e => e.c = s)
              /\ ("probe" \in DOMAIN e => \A i \in 1..Len(e.probe) : At(s, e.probe[i][1]) = e.probe[i][2])

\* each of these is a pair <<allowed, next state>>; the second is only evaluated when the first is TRUE
PlainOk(e) ==
  LET s == st.c[e.k]  must == Must(s, e) IN
  IF e.x = must THEN
    LET t == IF must = "none" THEN Post(s, e) ELSE s IN
    /\ e.r = Ret(s, e) /\ OutOk(s, e) /\ CapOk(t, e) /\ Seen(e, t) /\ LiveOk(e, [st.c EXCEPT ![e.k] = t])
    /\ e.al = st.a
  ELSE \* an injected failure came out
    /\ e.x \in {"inj", "bad_alloc"}
    /\ Len(e.c) = e.n
    /\ (Cfg.dev /\ ((Strong(e) /\ ~Cfg.th) \/ StrongAlways(e))) => e.c = s
    /\ \A i \in 1..Len(e.c) : e.c[i] \in Legit(s, e)
    /\ LiveOk(e, [st.c EXCEPT ![e.k] = e.c])
    /\ e.al = st.a
PlainNext(e) ==
  LET s == st.c[e.k] IN
  [st EXCEPT !.c[e.k] = IF e.x = Must(s, e) THEN (IF e.x = "none" THEN Post(s, e) ELSE s) ELSE e.c]

Put(k, x, y) == IF k = 1 THEN <<x, y>> ELSE <<y, x>>
XferOk(e) ==
  LET k == e.k  o == 3 - k  q == st.c[k]  p == st.c[o]  r == XPost(Cfg, st, e) IN
  IF e.x = "none" THEN
    /\ e.c = r.k /\ e.n = Len(e.c)
    /\ IF r.any THEN MovedOk(q \o p, e.d) ELSE e.d = r.o
    /\ LiveOk(e, Put(k, e.c, e.d))
    /\ e.al[k] = r.ak /\ (r.ao = -1 \/ e.al[o] = r.ao)
  ELSE
    /\ e.x \in {"inj", "bad_alloc"}
    /\ \A i \in 1..Len(e.c) : e.c[i] \in Legit(q \o p, e)
    /\ \A i \in 1..Len(e.d) : e.d[i] \in Legit(q \o p, e)
    /\ e.o \in {"copy_ctor", "copy_ctor_a", "copy_assign", "self_copy", "il_ctor", "n_ctor", "range_ctor"} => e.d = p
    /\ e.o \in {"copy_ctor", "copy_ctor_a", "move_ctor", "move_ctor_a", "il_ctor", "n_ctor", "range_ctor"} => e.c = q
    /\ LiveOk(e, Put(k, e.c, e.d))
XferNext(e) == [c |-> Put(e.k, e.c, e.d), a |-> e.al]

DestroyOk(e) == e.x = "none" /\ (Life => e.lv \in {-1, 0} /\ e.tk = 0 /\ e.bk = 0)

Ok(e) == Clean(e) /\ (IF e.o = "destroy" THEN DestroyOk(e) ELSE IF e.o \in Xfers THEN XferOk(e) ELSE PlainOk(e))
After(e) == IF e.o = "destroy" THEN st ELSE IF e.o \in Xfers THEN XferNext(e) ELSE PlainNext(e)

Next == /\ l <= Len(Ev)
        /\ IF Ok(Ev[l]) THEN st' = After(Ev[l]) ELSE FALSE
        /\ l' = l + 1 /\ sn' = sn
        /\ l = Len(Ev) => PrintT(<<"ACC", sn>>)
Spec == Init /\ [][Next]_vars
TypeOK == \A k \in 1..2 : \A i \in 1..Len(st.c[k]) : st.c[k][i] \in Int
=============================================================================
