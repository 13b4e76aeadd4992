------------------------------ MODULE TraceReader -----------------------------
(* Conformance of the stream readers with Reader.tla: the state <<position,     *)
(* stream state>> evolves the same way for every kind of stream and buffer size. *)
EXTENDS Reader, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sn, l, pos, st
vars == <<sn, l, pos, st>>
Ev == Sessions[sn].ev
T == Sessions[sn].cfg.text
Init == sn \in 1..Len(Sessions) /\ l = 1 /\ pos = Sessions[sn].cfg.start /\ st = Ok

Tol(ty) == IF ty = "float" THEN 2000 ELSE 100
Lim(ty) == IF ty = "float" THEN 30 ELSE 280
IntStep(e) == LET t == Rest(T, pos)  s == IntScan(t, e.base, e.sg) IN
  IF s.ok THEN e.st = Ok /\ e.pos = pos + s.used /\ (Fits(s.v, s.neg, e.bits, e.sg) => e.v = s.v /\ e.neg = (s.neg /\ s.v # <<>>))
  ELSE e.v = <<>> /\ (IF SkipBlank(t, 1) > Len(t) THEN e.st = Eof /\ e.pos \in {pos, Len(T)}
                      ELSE (e.st # Ok /\ e.pos = pos) \/ (s.half > 0 /\ e.st = Ok /\ e.pos = pos + s.half))
RealStep(e) == LET t == Rest(T, pos)  s == FloatScan(t, "general", 46) IN
  IF s.ok THEN /\ e.st = Ok /\ e.pos = pos + s.used
               /\ s.kind = 1 => e.k = 1
               /\ s.kind # 1 => e.k # 1 /\ (e.k # 3 => e.neg = s.neg)
               /\ s.kind \in {2, 3} => e.k = s.kind
               /\ (s.kind = 0 /\ Abs(s.e) <= Lim(e.ty) /\ Abs(s.x) <= Lim(e.ty) /\ Abs(s.e - s.x) <= Lim(e.ty)) => (e.k = 0 /\ Near(e.m, e.e, Lead(s.d), s.e, Tol(e.ty)))
  ELSE e.k = 3 /\ e.st # Ok /\ (IF WordEnd(t, SkipBlank(t, 1)) > Len(t) THEN e.pos \in {pos, Len(T)} ELSE e.pos = pos)
In(e, r, set) == [r |-> r, pos |-> e.pos, st |-> e.st] \in set
StepOk(e) ==
  CASE e.o = "word" -> In(e, e.out, Token(T, pos, WordEnd))
    [] e.o = "line" -> In(e, e.out, Token(T, pos, LineEnd))
    [] e.o = "int" -> IntStep(e)
    [] e.o = "real" -> RealStep(e)
    [] e.o = "getc" -> In(e, e.r, GetC(T, pos, st))
    [] e.o = "read" -> e.r = Len(e.out) /\ In(e, e.out, Read(T, pos, st, e.n))
    [] e.o = "back" -> e.pos = pos - 1 /\ e.st = st
    [] e.o = "seek" -> e.r = e.p /\ e.pos = e.p /\ e.st = st
    [] e.o = "reset" -> e.pos = pos /\ e.st = Ok
    [] e.o = "tell" -> e.pos = pos /\ e.st = st
    [] e.o = "under" -> e.pos = pos
Okay(e) == "crash" \notin DOMAIN e /\ e.er = "" /\ e.ok /\ StepOk(e)
Next == /\ l <= Len(Ev)
        /\ IF Okay(Ev[l]) THEN pos' = Ev[l].pos /\ st' = Ev[l].st ELSE FALSE
        /\ l' = l + 1 /\ sn' = sn
        /\ l = Len(Ev) => PrintT(<<"ACC", sn>>)
Spec == Init /\ [][Next]_vars
TypeOK == pos \in 0..Len(T) /\ st \in 0..2
=============================================================================
