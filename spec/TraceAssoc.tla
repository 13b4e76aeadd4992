----------------------------- MODULE TraceAssoc -----------------------------
(* Validates sessions recorded from the associative containers against Assoc. *)
EXTENDS Assoc, TLC, TLCExt, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sn, l, st
vars == <<sn, l, st>>
Cfg == Sessions[sn].cfg
Ev == Sessions[sn].ev
\* a: addresses of the elements (containers with stable addresses), 0 while unknown
Init == /\ sn \in {i \in 1..Len(Sessions) : PoolOk(Sessions[i].cfg)} /\ l = 1
        /\ st = [c |-> <<<<>>, <<>>>>, a |-> <<Sessions[sn].cfg.a1, Sessions[sn].cfg.a2>>, ad |-> <<<<>>, <<>>>>, dy |-> <<FALSE, FALSE>>]

Life == IOEnv.FACET # "value"
Clean(e) == "crash" \notin DOMAIN e /\ (Life => e.er = "")
LiveOk(e, n) == Life => (e.lv = -1 \/ e.lv = Cfg.per * n)
Opp(c, rv) == Cfg.fam = "conc" \/ rv = Reverse(c)
Other(k) == Len(st.c[3 - k])

\* stable addresses: an element that stays keeps its address (elements are identified by key)
Stable(old, c, ad) == \A i \in 1..Len(c) : \A j \in 1..Len(old) : old[j][1] = KeyOf(c[i]) => old[j][2] = ad[i]
HeldOk(c, ad, its) == \A j \in 1..Len(its) : LET p == its[j][2] \div 1000000  a == its[j][2] % 1000000 IN
  a = its[j][1] /\ p \in 0..Len(c) - 1 /\ ad[p + 1] = a
\* operations after which addresses may differ
DirtyOps == {"seqop", "rehash0", "dirtyq", "derase"}
Moves(e) == e.o \in {"shrink", "sort", "clear"} \cup DirtyOps
AddrOk(k, e, c) == "cad" \in DOMAIN e => /\ Len(e.cad) = Len(c) /\ (~Moves(e) => Stable(st.ad[k], c, e.cad)) /\ HeldOk(c, e.cad, e.cit)
                                          /\ Cardinality({e.cad[i] : i \in 1..Len(c)}) = Len(c)
KeepsOnThrow == Cfg.kind = "insertion" \/ Cfg.fam = "conc"
\* erasing from a concurrent table moves elements: if that throws, the table may drop a bucket
MovesThrow == "tm" \in DOMAIN Cfg /\ Cfg.tm
StrongOp(e) == KeepsOnThrow /\ (MovesThrow => e.o # "erase_key") /\ e.o \in {"insert", "insert_v", "assign1", "index", "find", "at", "rehash", "erase_key", "erase_it"}
ALegit(s, e) == {s[i] : i \in 1..Len(s)} \cup (IF "v" \in DOMAIN e THEN {e.v, Code(KeyOf(e.v), 0)} ELSE {}) \cup (IF "mod" \in DOMAIN e /\ e.mod >= 0 /\ "v" \in DOMAIN e THEN {Code(KeyOf(e.v), e.mod)} ELSE {}) \cup (IF "vs" \in DOMAIN e THEN {e.vs[i] : i \in 1..Len(e.vs)} ELSE {})
\* after a failed assignment a mapped value may be the old, the new or a moved-from one (coded 999)
Loosely(S, c) == c \in S \/ (Cfg.map /\ LowOf(c) \in {0, 999} /\ \E x \in S : KeyOf(x) = KeyOf(c))

\* a container is dirty from the first use of its sequence until a rehash; only then may it hold a key twice
ShapeD(dy, c) == dy \/ Shape(Cfg, c)
DyAfter(k, e) == IF e.x \in {"inj", "bad_alloc"} THEN (IF "dy" \in DOMAIN e THEN e.dy ELSE st.dy[k])
                 ELSE IF e.o = "seqop" THEN TRUE ELSE IF e.o \in {"rehash0", "derase", "clear", "sort"} THEN FALSE ELSE st.dy[k]
Addrs(k, e) == IF DyAfter(k, e) THEN <<>> ELSE IF "cad" \in DOMAIN e THEN [i \in 1..Len(e.c) |-> <<KeyOf(e.c[i]), e.cad[i]>>]
               ELSE IF Moves(e) THEN <<>>
               ELSE LET ks == Keys(APost(Cfg, st.c[k], e)) IN SelectSeq(st.ad[k], LAMBDA x : x[1] \in ks)

AMust(s, e) == CASE e.o = "dirtyq" -> "logic_error"
                [] e.o = "at" -> IF Has(s, e.key) THEN "none" ELSE "out_of_range"
                [] OTHER -> "none"
PlainOk(e) ==
  LET s == st.c[e.k]  t == APost(Cfg, s, e)  must == AMust(s, e) IN
  /\ e.al = st.a
  /\ IF e.x = must THEN
       LET u == IF must = "none" THEN t ELSE s IN
       /\ must = "none" => ARetOk(Cfg, s, e)
       /\ e.o = "eq" => (EqOk(Cfg, s, st.c[3 - e.k], e.r) /\ e.r2 = ~e.r)
       /\ e.n = Len(u) /\ e.em = (Len(u) = 0)
       /\ "c" \in DOMAIN e => (Fits(Cfg, s, u, e, Canon(Cfg, e.c)) /\ ShapeD(DyAfter(e.k, e), e.c) /\ Opp(e.c, e.rv) /\ AddrOk(e.k, e, e.c))
       /\ LiveOk(e, Len(u) + Other(e.k))
     ELSE
       /\ e.x \in {"inj", "bad_alloc"}
       /\ e.o # "dirtyq"
       /\ Len(e.c) = e.n /\ ShapeD(DyAfter(e.k, e), e.c) /\ Opp(e.c, e.rv) /\ AddrOk(e.k, e, e.c)
       /\ StrongOp(e) => (Canon(Cfg, e.c) = s /\ DyAfter(e.k, e) = st.dy[e.k])
       \* a sort that fails may leave moved-from elements
       /\ \A i \in 1..Len(e.c) : Loosely(ALegit(s, e), e.c[i]) \/ (e.o \in {"sort", "shrink", "seqop"} /\ (e.c[i] < 0 \/ LowOf(e.c[i]) = 999))
       /\ LiveOk(e, e.n + Other(e.k))
PlainNext(e) ==
  LET s == st.c[e.k] IN
  [st EXCEPT !.c[e.k] = IF "c" \in DOMAIN e THEN Canon(Cfg, e.c) ELSE IF e.x = "none" THEN APost(Cfg, s, e) ELSE s,
             !.ad[e.k] = Addrs(e.k, e), !.dy[e.k] = DyAfter(e.k, e)]

BothDy(e) == IF "dy1" \in DOMAIN e THEN <<e.dy1, e.dy2>> ELSE <<FALSE, FALSE>>
Put(k, x, y) == IF k = 1 THEN <<x, y>> ELSE <<y, x>>
MergeOk(e) ==
  LET k == e.k  q == st.c[k]  p == st.c[3 - k]  c == Canon(Cfg, e.c)  d == Canon(Cfg, e.d) IN
  /\ e.al = st.a /\ e.n = Len(c) /\ e.n2 = Len(d) /\ Shape(Cfg, e.c) /\ Shape(Cfg, e.d) /\ Opp(e.c, e.rv) /\ Opp(e.d, e.rd)
  /\ LiveOk(e, e.n + e.n2)
  /\ "mr" \in DOMAIN e => e.mr = Len(c) - Len(q)
  /\ IF e.x = "none" THEN
       /\ IF Loose(Cfg) THEN SameRuns(MergeK(Cfg, q, p), c) ELSE c = MergeK(Cfg, q, p)
       /\ d = MergeO(Cfg, q, p)
     ELSE
       /\ e.x \in {"inj", "bad_alloc"}
       /\ \A i \in 1..Len(c) : Loosely(ALegit(q \o p, e), c[i])
       /\ \A i \in 1..Len(d) : Loosely(ALegit(q \o p, e), d[i])
XferOk(e) ==
  LET k == e.k  o == 3 - k  q == st.c[k]  p == st.c[o]  c == Canon(Cfg, e.c)  d == Canon(Cfg, e.d)
      isc == e.o \in {"il_ctor", "range_ctor"}
      r == IF isc THEN [k |-> APost(Cfg, <<>>, e), o |-> p, any |-> FALSE, ak |-> e.id, ao |-> st.a[o]] ELSE XPost(Cfg, st, e) IN
  /\ e.n = Len(c) /\ e.n2 = Len(d) /\ ShapeD(BothDy(e)[k], c) /\ ShapeD(BothDy(e)[o], d) /\ Opp(e.c, e.rv) /\ Opp(e.d, e.rd)
  /\ LiveOk(e, e.n + e.n2)
  /\ IF e.x = "none" THEN
       /\ IF isc THEN Fits(Cfg, <<>>, r.k, e, c) ELSE IF Loose(Cfg) THEN SameRuns(r.k, c) ELSE c = r.k
       /\ IF r.any THEN MovedOk(q \o p, d) ELSE IF Loose(Cfg) THEN SameRuns(r.o, d) ELSE d = r.o
       /\ e.al[k] = r.ak /\ (r.ao = -1 \/ e.al[o] = r.ao)
     ELSE
       /\ e.x \in {"inj", "bad_alloc"}
       /\ \A i \in 1..Len(c) : Loosely(ALegit(q \o p, e), c[i])
       /\ \A i \in 1..Len(d) : Loosely(ALegit(q \o p, e), d[i])
       /\ e.o \in {"copy_ctor", "copy_ctor_a", "copy_assign", "self_copy", "il_ctor", "range_ctor"} => (IF Loose(Cfg) THEN SameRuns(p, d) ELSE d = p)
       /\ e.o \in {"copy_ctor", "copy_ctor_a", "move_ctor", "move_ctor_a", "il_ctor", "range_ctor"} => (IF Loose(Cfg) THEN SameRuns(q, c) ELSE c = q)
\* transfers from a dirty container: a copy is clean and without duplicates, a move takes it as it is
DcopyOk(e) ==
  LET k == e.k  p == st.c[3 - k] IN
  /\ e.x = "none" /\ e.n = Len(e.c) /\ e.n2 = Len(e.d) /\ Opp(e.c, e.rv) /\ Opp(e.d, e.rd) /\ LiveOk(e, e.n + e.n2)
  /\ e.c = IF e.how = 2 /\ e.dy THEN p ELSE AddAll(Cfg, <<>>, p, 1)
  /\ e.dy => e.how = 2
  /\ e.d = IF e.how = 2 THEN <<>> ELSE p
DcopyNext(e) == [c |-> Put(e.k, e.c, e.d), a |-> e.al, ad |-> <<<<>>, <<>>>>, dy |-> Put(e.k, e.dy, e.how # 2)]
BothNext(e) == [c |-> Put(e.k, Canon(Cfg, e.c), Canon(Cfg, e.d)), a |-> e.al, ad |-> <<<<>>, <<>>>>, dy |-> BothDy(e)]

DestroyOk(e) == e.x = "none" /\ (Life => e.lv \in {-1, 0} /\ e.tk = 0 /\ e.bk = 0)
Ok(e) == Clean(e) /\ (IF e.o = "destroy" THEN DestroyOk(e) ELSE IF e.o \in Xfers THEN XferOk(e) ELSE IF e.o = "merge" THEN MergeOk(e) ELSE IF e.o = "dcopy" THEN DcopyOk(e) ELSE PlainOk(e))
After(e) == IF e.o = "destroy" THEN st ELSE IF e.o \in Xfers \cup {"merge"} THEN BothNext(e) ELSE IF e.o = "dcopy" THEN DcopyNext(e) ELSE PlainNext(e)

Next == /\ l <= Len(Ev)
        /\ IF Ok(Ev[l]) THEN st' = After(Ev[l]) ELSE FALSE
        /\ l' = l + 1 /\ sn' = sn
        /\ l = Len(Ev) => PrintT(<<"ACC", sn>>)
Spec == Init /\ [][Next]_vars
\* no container ever holds a key twice (unless it is a multi container), and sorted ones are sorted
TypeOK == \A k \in 1..2 : ShapeD(st.dy[k], st.c[k])
=============================================================================
