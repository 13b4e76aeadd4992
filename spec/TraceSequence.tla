---------------------------- MODULE TraceSequence ----------------------------
(* seq::sequence.  The abstract state of a slot is a finite sequence of       *)
(* elements <<value, address>>; an address is a small number given to every   *)
(* distinct element address when the driver first sees it, -1 while it has    *)
(* not been seen.  Operations that promise stable references keep the         *)
(* addresses of the elements they do not erase, so a later observation of a   *)
(* different address (or of an iterator that lost its element) is rejected.   *)
EXTENDS SeqContainer, TLC, TLCExt, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sn, l, st
vars == <<sn, l, st>>
Cfg == Sessions[sn].cfg
Ev == Sessions[sn].ev
Init == /\ sn \in 1..Len(Sessions) /\ l = 1
        /\ st = [c |-> <<<<>>, <<>>>>, a |-> <<Sessions[sn].cfg.a1, Sessions[sn].cfg.a2>>]

X(v) == <<v, -1>>
Xs(vs) == [i \in 1..Len(vs) |-> X(vs[i])]
Vals(s) == [i \in 1..Len(s) |-> s[i][1]]
Forget(s) == Xs(Vals(s))
Pair(c, a) == [i \in 1..Len(c) |-> <<c[i], a[i]>>]
Argv(s, e) == IF "ai" \in DOMAIN e THEN At(s, e.ai)[1] ELSE e.v
ElemResize(s, m, v) == IF m <= Len(s) THEN Take(s, m) ELSE s \o Rep(m - Len(s), X(v))
ElemResizeF(s, m, v) == IF m <= Len(s) THEN Drop(s, Len(s) - m) ELSE Rep(m - Len(s), X(v)) \o s

PostQ(s, e) ==
  CASE e.o \in {"push_back", "emplace_back_it"} -> Append(s, X(Argv(s, e)))
    [] e.o \in {"push_front", "emplace_front_it"} -> <<X(Argv(s, e))>> \o s
    [] e.o = "insert" -> IF e.r \in 0..Len(s) THEN InsAt(s, e.r, <<X(Argv(s, e))>>) ELSE s
    [] e.o = "assign_r" -> Xs(e.vs)
    [] e.o = "assign_n" -> Rep(e.m, X(Argv(s, e)))
    [] e.o = "resize" -> ElemResize(s, e.m, 0)
    [] e.o = "resize_v" -> ElemResize(s, e.m, IF e.m <= Len(s) THEN 0 ELSE Argv(s, e))
    [] e.o = "resize_front" -> ElemResizeF(s, e.m, 0)
    [] e.o = "resize_front_v" -> ElemResizeF(s, e.m, IF e.m <= Len(s) THEN 0 ELSE Argv(s, e))
    [] e.o = "pop_back" -> Take(s, Len(s) - 1)
    [] e.o = "pop_front" -> Drop(s, 1)
    [] e.o = "erase" -> DelRange(s, e.p, e.p + 1)
    [] e.o = "erase_r" -> DelRange(s, e.p, e.q)
    [] e.o = "clear" -> <<>>
    [] e.o = "set" -> [s EXCEPT ![e.p + 1][1] = e.v]
    [] e.o = "shrink" -> Forget(s)
    [] e.o = "sort" -> Xs(e.c)
    [] e.o \in {"il_ctor", "range_ctor"} -> Xs(e.vs)
    [] e.o = "n_ctor" -> Rep(e.m, X(e.v))
    [] OTHER -> s

RetOk(s, e) ==
  CASE e.o = "emplace_back_it" -> e.r = Len(s)
    [] e.o = "emplace_front_it" -> e.r = 0
    [] e.o = "insert" -> e.r \in 0..Len(s)
    [] e.o \in {"erase", "erase_r"} -> e.r = e.p
    [] e.o = "reserve" -> TRUE
    [] OTHER -> e.r = -1

\* stable sort by key: a permutation, in order, equal keys in their former order
Key(cm, v) == IF cm = 0 THEN v ELSE IF cm = 1 THEN v % 8 ELSE -v
SortOk(s, c, cm) ==
  /\ Len(c) = Len(s)
  /\ \A i \in 1..Len(c) - 1 : Key(cm, c[i]) <= Key(cm, c[i + 1])
  /\ \A k \in {Key(cm, s[i]) : i \in 1..Len(s)} :
        SelectSeq(s, LAMBDA v : Key(cm, v) = k) = SelectSeq(c, LAMBDA v : Key(cm, v) = k)

Life == IOEnv.FACET # "value"
Clean(e) == "crash" \notin DOMAIN e /\ (Life => e.er = "")
LiveOk(e, c) == Life => (e.lv = -1 \/ e.lv = Len(c[1]) + Len(c[2]))

\* a complete view (values, addresses, addresses backwards, held iterators) agrees with s
View(s, c, ad, its, rv) ==
  /\ c = Vals(s) /\ Len(ad) = Len(s)
  /\ \A i \in 1..Len(s) : s[i][2] \in {-1, ad[i]}
  /\ Cardinality({ad[i] : i \in 1..Len(ad)}) = Len(ad)
  /\ rv = Reverse(ad)
  /\ \A j \in 1..Len(its) : LET h == its[j] IN
       /\ h[2] \in 0..Len(s) - 1 /\ ad[h[2] + 1] = h[1] /\ c[h[2] + 1] = h[3] /\ h[2] + h[4] = Len(s) /\ h[5] = h[1]
Seen(e, s) ==
  /\ e.n = Len(s) /\ e.em = (Len(s) = 0) /\ e.cap
  /\ (Len(s) > 0 => e.f = s[1][1] /\ e.b = s[Len(s)][1])
  /\ ("he" \in DOMAIN e => e.he)
  /\ ("c" \in DOMAIN e => View(s, e.c, e.ad, e.it, e.rv))
Known(e, s) == IF "c" \in DOMAIN e THEN Pair(e.c, e.ad) ELSE s

StrongQ(e) == e.o \in {"push_back", "emplace_back_it", "push_front", "emplace_front_it", "insert", "reserve", "erase", "erase_r", "set", "rev", "iter", "full"}
PlainOk(e) ==
  LET s == st.c[e.k]  t == PostQ(s, e) IN
  /\ e.al = st.a
  /\ IF e.x = "none" THEN
       /\ RetOk(s, e) /\ OutOk(Vals(s), e) /\ Seen(e, t) /\ LiveOk(e, [st.c EXCEPT ![e.k] = t])
       /\ e.o = "sort" => SortOk(Vals(s), e.c, e.cm)
     ELSE
       /\ e.x \in {"inj", "bad_alloc"}
       /\ Len(e.c) = e.n /\ e.rv = Reverse(e.ad)
       /\ StrongQ(e) => Seen(e, s)
       /\ \A i \in 1..Len(e.c) : e.c[i] \in Legit(Vals(s), e)
       /\ LiveOk(e, [st.c EXCEPT ![e.k] = e.c])
PlainNext(e) == [st EXCEPT !.c[e.k] = IF e.x = "none" THEN Known(e, PostQ(@, e)) ELSE Pair(e.c, e.ad)]

Put(k, x, y) == IF k = 1 THEN <<x, y>> ELSE <<y, x>>
\* contents with the addresses that must be kept: <<of k, of the other>>
Elems(e) ==
  LET s == st.c[e.k]  p == st.c[3 - e.k]  v == [c |-> <<Vals(st.c[1]), Vals(st.c[2])>>, a |-> st.a]  r == XPost(Cfg, v, e) IN
  [v |-> r, k |-> IF e.o \in {"swap", "move_ctor"} THEN p ELSE IF e.o \in {"self_copy", "self_swap"} THEN s ELSE Xs(r.k),
   o |-> IF e.o = "swap" THEN s ELSE IF r.any THEN Pair(e.d, e.dd) ELSE p]
XferOk(e) ==
  LET k == e.k  o == 3 - k  q == Vals(st.c[k])  p == Vals(st.c[o]) IN
  IF e.x = "none" THEN
    LET w == Elems(e) IN
    /\ e.n = Len(e.c)
    /\ View(w.k, e.c, e.ad, e.it, e.rv)
    /\ View(w.o, e.d, e.dd, e.id2, e.rd)
    /\ w.v.any => MovedOk(q \o p, e.d)
    /\ LiveOk(e, Put(k, e.c, e.d))
    /\ e.al[k] = w.v.ak /\ (w.v.ao = -1 \/ e.al[o] = w.v.ao)
  ELSE
    /\ e.x \in {"inj", "bad_alloc"}
    /\ \A i \in 1..Len(e.c) : e.c[i] \in Legit(q \o p, e)
    /\ \A i \in 1..Len(e.d) : e.d[i] \in Legit(q \o p, e)
    /\ e.o \in {"copy_ctor", "copy_ctor_a", "copy_assign", "self_copy", "il_ctor", "n_ctor", "range_ctor"} => e.d = p
    /\ e.o \in {"copy_ctor", "copy_ctor_a", "move_ctor", "move_ctor_a", "il_ctor", "n_ctor", "range_ctor"} => e.c = q
    /\ LiveOk(e, Put(k, e.c, e.d))
XferNext(e) == [c |-> Put(e.k, Pair(e.c, e.ad), Pair(e.d, e.dd)), a |-> e.al]

DestroyOk(e) == e.x = "none" /\ (Life => e.lv \in {-1, 0} /\ e.tk = 0 /\ e.bk = 0)
Ok(e) == Clean(e) /\ (IF e.o = "destroy" THEN DestroyOk(e) ELSE IF e.o \in Xfers THEN XferOk(e) ELSE PlainOk(e))
After(e) == IF e.o = "destroy" THEN st ELSE IF e.o \in Xfers THEN XferNext(e) ELSE PlainNext(e)

Next == /\ l <= Len(Ev)
        /\ IF Ok(Ev[l]) THEN st' = After(Ev[l]) ELSE FALSE
        /\ l' = l + 1 /\ sn' = sn
        /\ l = Len(Ev) => PrintT(<<"ACC", sn>>)
Spec == Init /\ [][Next]_vars
TypeOK == \A k \in 1..2 : \A i \in 1..Len(st.c[k]) : st.c[k][i] \in Int \X Int
=============================================================================
