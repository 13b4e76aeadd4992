------------------------------- MODULE TraceAny -------------------------------
(* Validates sessions recorded from three hold_any objects against Any.        *)
EXTENDS Any, TLC, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sn, l, st
vars == <<sn, l, st>>
Cfg == Sessions[sn].cfg
Ev == Sessions[sn].ev
Life == IOEnv.FACET # "value"
\* type name -> type id (the order of unrelated types)
IdOf(c, t) == (CHOOSE i \in 1..Len(c.ids) : c.ids[i][1] = t)
Ids == [t \in {Cfg.ids[i][1] : i \in 1..Len(Cfg.ids)} |-> Cfg.ids[IdOf(Cfg, t)][2]]
Init == sn \in 1..Len(Sessions) /\ l = 1 /\ st = <<None, None, None>>

Clean(e) == "crash" \notin DOMAIN e /\ (IF "nt" \in DOMAIN e THEN e.nt = "" ELSE TRUE) /\ (Life => e.er = "")
Inj(e) == e.fired /\ e.x \in {"inj", "bad_alloc"}
\* a value left behind by a move
Husk(v, w) == w = None \/ T(w) = T(v)
Others(e, ks) == \A i \in 1..3 : i \notin ks => e.st[i] = st[i]
\* the target of a failed operation
Failed(k, ctor, v, e) == IF ctor THEN e.st[k] = None ELSE e.st[k] = st[k] \/ e.st[k] = None \/ (T(v) = T(st[k]) /\ T(e.st[k]) = T(v))
ValueOk(e) ==
  /\ Others(e, {e.k})
  /\ IF e.x = "none" THEN e.st[e.k] = e.v ELSE Inj(e) /\ (Failed(e.k, e.how \in {0, 4}, e.v, e) \/ (e.how = 5 /\ T(e.st[e.k]) = T(st[e.k]))) \* how 5 may be a swap: as SwapOk
CopyOk(e) ==
  LET v == st[e.j] IN
  /\ Others(e, {e.k})
  /\ IF T(v) = "UP" THEN e.x = "bad_call" /\ Failed(e.k, e.c, v, e) /\ (T(st[e.k]) = "UP" /\ ~e.c => e.st[e.k] \in {st[e.k], None})
     ELSE IF e.x = "none" THEN e.st[e.k] = v ELSE Inj(e) /\ Failed(e.k, e.c, v, e)
MoveOk(e) ==
  LET v == st[e.j] IN
  /\ Others(e, {e.k, e.j})
  /\ Husk(v, e.st[e.j])
  /\ IF e.x = "none" THEN e.st[e.k] = v ELSE Inj(e) /\ Failed(e.k, e.c, v, e)
SwapOk(e) ==
  LET v == st[e.k]  w == st[e.j] IN
  /\ Others(e, {e.k, e.j})
  /\ IF e.x = "none" THEN e.st[e.k] = w /\ e.st[e.j] = v
     ELSE Inj(e) /\ T(e.st[e.k]) \in {"", T(v), T(w)} /\ T(e.st[e.j]) \in {"", T(v), T(w)}
SelfOk(e) == (IF e.o = "self" THEN Others(e, {}) ELSE Others(e, {e.k}) /\ Husk(st[e.k], e.st[e.k])) /\ (e.x = "none" \/ (T(st[e.k]) = "UP" /\ e.x = "bad_call"))
CastOk(e) ==
  LET c == Cast(st[e.k], e.to, e.ref) IN
  /\ Others(e, {})
  /\ IF c[1] = "free" THEN e.x \in {"none", "bad_cast"} ELSE e.x = c[1] /\ (c[2] = <<-1>> \/ e.out = c[2])
VoidOk(e) == Others(e, {}) /\ e.ok /\ e.x = (IF T(st[e.k]) \in Ptrs THEN "none" ELSE "bad_cast")
PrintOk(e) == Others(e, {}) /\ (PrintFree(st[e.k]) \/ (IF Printable(st[e.k]) THEN e.x = "none" /\ e.out = PrintText(st[e.k]) ELSE e.x = "bad_call"))
PairOk(e) ==
  LET a == st[e.k]  b == st[e.j] IN
  /\ Others(e, {})
  /\ e.x = "none"
  /\ RelOk(Ids, a, b, e.k = e.j, e.r)
  /\ HashOk(Cfg.hash, a, e.h[1])
  /\ HashOk(Cfg.hash, b, e.h[2])
  /\ e.h[3] = e.h[1]
  /\ (Equal(a, b, e.k = e.j) /\ ~Registered(a, b)) => e.h[1] = e.h[2]
VPairOk(e) ==
  LET a == st[e.k]  v == e.v  abc == <<"ccp", <<97, 98, 99>>>> IN
  /\ Others(e, {})
  /\ e.x = "none"
  /\ RelOk(Ids, a, v, FALSE, e.r)
  /\ RelOk(Ids, v, a, FALSE, e.q)
  /\ HashOk(Cfg.hash, a, e.h[1])
  /\ (Equal(a, v, FALSE) /\ ~Registered(a, v) /\ Cfg.hash) => (e.h[2] = e.h[1] /\ e.h[3] = e.h[1])
  /\ "lit" \in DOMAIN e =>
       LET s == [e.r EXCEPT ![1] = e.lit[1], ![2] = e.lit[2], ![3] = e.lit[3], ![4] = e.lit[4], ![5] = 1 - e.lit[4], ![6] = 1 - e.lit[3]] IN
       IF T(a) \in CPs THEN TRUE
       ELSE /\ RelOk(Ids, a, abc, FALSE, s)
            /\ e.lit[5] = e.lit[1]
            /\ e.lit[6] = e.lit[4]
            /\ (e.lit[1] = 1 /\ Cfg.hash) => e.hl[1] = e.hl[3] /\ e.hl[2] = e.hl[3]
Classes(v) == Cardinality({i \in 1..Len(v) : \A j \in 1..(i - 1) : ~Equal(v[i], v[j], FALSE)})
SortedOk(e) ==
  LET n == Len(e.v)  c == Classes(e.v) IN
  /\ Others(e, {})
  /\ e.x = "none"
  /\ Len(e.ord) = n
  /\ {e.ord[i] : i \in 1..n} = 1..n
  /\ (\A i \in 1..(n - 1) : LessV(Ids, e.v[e.ord[i + 1]], e.v[e.ord[i]], FALSE) = 0)
  /\ e.ss = c
  /\ e.fs = c
  /\ Cfg.hash => e.us = c /\ e.os = c
  /\ (\A i \in 1..Len(e.look) : e.look[i] = 1)
NestOk(e) == Others(e, {}) /\ e.x = "none" /\ e.got = e.want
DestroyOk(e) == Life => e.bk = 0 /\ e.live = 0
Judge(e) ==
  CASE e.o = "value" -> ValueOk(e)
    [] e.o = "copy" -> CopyOk(e)
    [] e.o = "move" -> MoveOk(e)
    [] e.o = "swap" -> SwapOk(e)
    [] e.o = "reset" -> e.x = "none" /\ Others(e, {e.k}) /\ e.st[e.k] = None
    [] e.o \in {"self", "selfmove"} -> SelfOk(e)
    [] e.o = "cast" -> CastOk(e)
    [] e.o = "voidp" -> VoidOk(e)
    [] e.o = "print" -> PrintOk(e)
    [] e.o = "pair" -> PairOk(e)
    [] e.o = "vpair" -> VPairOk(e)
    [] e.o = "sorted" -> SortedOk(e)
    [] e.o = "nest" -> NestOk(e)
    [] OTHER -> FALSE
Ok(e) == Clean(e) /\ (IF e.o = "destroy" THEN DestroyOk(e) ELSE Judge(e) /\ ((Life /\ e.o \notin {"sorted", "nest"}) => e.live = Live(e.st) + (IF "ex" \in DOMAIN e THEN e.ex ELSE 0)))
After(e) == IF e.o = "destroy" THEN st ELSE e.st
Next == /\ l <= Len(Ev)
        /\ IF Ok(Ev[l]) THEN st' = After(Ev[l]) ELSE FALSE
        /\ l' = l + 1 /\ sn' = sn
        /\ l = Len(Ev) => PrintT(<<"ACC", sn>>)
Spec == Init /\ [][Next]_vars
TypeOK == Len(st) = 3
=============================================================================
