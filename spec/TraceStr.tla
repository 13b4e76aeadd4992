------------------------------- MODULE TraceStr -------------------------------
(* Validates sessions recorded from tiny_string against Str.                   *)
EXTENDS Str, TLC, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sn, l, st
vars == <<sn, l, st>>
Cfg == Sessions[sn].cfg
Ev == Sessions[sn].ev
Life == IOEnv.FACET # "value"
Init == sn \in 1..Len(Sessions) /\ l = 1 /\ st = [c |-> <<<<>>, <<>>>>, a |-> <<Sessions[sn].cfg.a1, Sessions[sn].cfg.a2>>]

Clean(e) == "crash" \notin DOMAIN e /\ (IF "nt" \in DOMAIN e THEN e.nt = "" ELSE TRUE) /\ (Life => e.er = "")
\* size, terminator, traversals and the allocator of slot k
Seen(e, s) == e.n = Len(s) /\ e.em = (Len(s) = 0) /\ e.z /\ e.cp /\ e.c = s /\ e.rv = Reverse(s)
PlainOk(e) ==
  LET s == st.c[e.k]  must == Must(s, e) IN
  /\ e.alc = st.a
  /\ IF e.x = must THEN (must = "none" => RetOk(s, e)) /\ Seen(e, IF must = "none" THEN Post(s, e) ELSE s)
     ELSE /\ e.x \in {"bad_alloc", "inj"}
          \* the strong guarantee of std::string
          /\ IF e.o = "in" THEN TRUE ELSE Seen(e, s)
PlainNext(e) == [st EXCEPT !.c[e.k] = IF e.x = "none" THEN Post(st.c[e.k], e) ELSE e.c]

\* transfers: k is the target, the other slot the source
Prop(bit) == (Cfg.pm \div bit) % 2 = 1
SelCopy(i) == IF Cfg.pm \div 8 % 2 = 1 THEN 0 ELSE i
Eq == Cfg.per = 0
XferOk(e) ==
  LET k == e.k  o == 3 - k  q == st.c[k]  p == st.c[o]
      moved == e.o \in {"move_ctor", "move_ctor_a", "move_assign"}
      want == CASE e.o \in {"copy_ctor", "copy_ctor_a", "move_ctor", "move_ctor_a", "copy_assign", "move_assign", "swap"} -> p
                [] e.o = "self_copy" -> q
                [] e.o = "self_swap" -> q
                [] e.o = "ctor" -> Arg(q, e)
                [] e.o = "sub_ctor" -> Sub(p, e.sp, e.sl)
      other == CASE e.o = "swap" -> q [] OTHER -> p
      ak == CASE e.o = "copy_ctor" -> SelCopy(st.a[o])
              [] e.o \in {"copy_ctor_a", "move_ctor_a", "ctor", "sub_ctor"} -> e.id
              [] e.o = "move_ctor" -> st.a[o]
              [] e.o = "copy_assign" -> IF Prop(1) THEN st.a[o] ELSE st.a[k]
              [] e.o = "move_assign" -> IF Prop(2) THEN st.a[o] ELSE st.a[k]
              [] e.o = "swap" -> IF Prop(4) THEN st.a[o] ELSE st.a[k]
              [] OTHER -> st.a[k]
      ao == IF e.o = "swap" /\ Prop(4) THEN st.a[k] ELSE st.a[o] IN
  /\ e.n = Len(e.c) /\ e.n2 = Len(e.d) /\ e.z /\ e.z2
  /\ IF e.x = "none" THEN
       /\ e.c = want
       /\ ~moved => e.d = other
       /\ Cfg.per = 1 => e.alc[k] = ak /\ (e.alc[o] = ao \/ (moved /\ e.alc[o] = st.a[k]))
     ELSE
       /\ e.x \in {"bad_alloc", "inj"}
       /\ e.c = q /\ e.d = p
Xfers == {"copy_ctor", "copy_ctor_a", "move_ctor", "move_ctor_a", "copy_assign", "move_assign", "self_copy", "self_swap", "swap", "ctor", "sub_ctor"}
Put(k, x, y) == IF k = 1 THEN <<x, y>> ELSE <<y, x>>
XferNext(e) == [st EXCEPT !.c = Put(e.k, e.c, e.d), !.a = e.alc]
DestroyOk(e) == Life => e.bk = 0
Ok(e) == Clean(e) /\ (IF e.o = "destroy" THEN DestroyOk(e) ELSE IF e.o \in Xfers THEN XferOk(e) ELSE PlainOk(e))
After(e) == IF e.o = "destroy" THEN st ELSE IF e.o \in Xfers THEN XferNext(e) ELSE PlainNext(e)
Next == /\ l <= Len(Ev)
        /\ IF Ok(Ev[l]) THEN st' = After(Ev[l]) ELSE FALSE
        /\ l' = l + 1 /\ sn' = sn
        /\ l = Len(Ev) => PrintT(<<"ACC", sn>>)
Spec == Init /\ [][Next]_vars
TypeOK == Len(st.c) = 2
=============================================================================
