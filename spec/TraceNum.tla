------------------------------- MODULE TraceNum -------------------------------
(* Conformance of charconv.hpp with Num.tla: every event is one call.           *)
EXTENDS Num, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sn, l, st
vars == <<sn, l, st>>
Ev == Sessions[sn].ev
Init == sn \in 1..Len(Sessions) /\ l = 1 /\ st = 0

ToOk(e) == LET t == IntText(e.v, e.neg, e.base, e.w, e.px, e.up) IN
  IF Len(t) <= e.room THEN e.ec = 0 /\ e.used = Len(t) /\ e.out = t /\ e.ok
  ELSE e.ec = 2 /\ e.used = e.room
FromOk(e) == LET s == IntScan(e.t, e.base, e.sg) IN
  IF s.ok THEN e.ec = 0 /\ e.used = s.used /\ (Fits(s.v, s.neg, e.bits, e.sg) => e.v = s.v /\ e.neg = (s.neg /\ s.v # <<>>))
  ELSE (e.ec = 1 /\ e.used = 0 /\ e.v = <<>>) \/ (s.half > 0 /\ e.ec = 0 /\ e.used = s.half /\ e.v = <<>>)

Tol(ty) == IF ty = "float" THEN 2000 ELSE 100
Lim(ty) == IF ty = "float" THEN 30 ELSE 280
FfOk(e) == LET s == FloatScan(e.t, e.fmt, e.dot) IN
  IF ~s.ok THEN e.ec = 1 /\ e.used = 0 /\ e.k = 3
  ELSE /\ e.ec = 0 /\ e.used = s.used
       /\ s.kind = 1 => e.k = 1
       /\ s.kind # 1 => e.k # 1 /\ (e.k # 3 => e.neg = s.neg)
       /\ s.kind \in {2, 3} => e.k = s.kind
       /\ (s.kind = 0 /\ Abs(s.e) <= Lim(e.ty) /\ Abs(s.x) <= Lim(e.ty) /\ Abs(s.e - s.x) <= Lim(e.ty)) =>
             (e.k = 0 /\ Near(e.m, e.e, Lead(s.d), s.e, Tol(e.ty)))

\* half a unit of the last printed digit, in units of the eighth digit; 10^8 when the whole value is below the precision
Unit(n) == IF n < 0 THEN 0 ELSE IF n > 8 THEN 10^8 ELSE IF n = 0 THEN 1 ELSE 5 * 10^(n - 1)
Sig(e) == IF e.fmt = "general" THEN Hi(e.p, 1) ELSE e.p + 1
TfTol(e) == (IF e.fmt = "fixed" THEN Unit(7 - e.e - e.p) ELSE Unit(8 - Sig(e))) + 20
\* %g: an exponent is written when the power of ten is below -4 or not below the precision (values next to a power of ten aside)
EdgeOf(e) == e.m + TfTol(e) >= 99999999
TfOk(e) ==
  IF e.ec # 0 THEN e.ec = 2 /\ e.room < 100 /\ e.used = e.room
  ELSE LET neg == e.out # <<>> /\ e.out[1] = 45
           body == IF neg THEN Tail(e.out) ELSE e.out
           s == FloatScan([i \in 1..Len(body) |-> IF body[i] = e.ex /\ e.k \in {0, 3} THEN 101 ELSE body[i]], "general", e.dot) IN
       /\ e.used <= e.room
       /\ CASE e.k = 1 -> body = (IF e.up THEN <<78, 65, 78>> ELSE <<110, 97, 110>>)
            [] e.k = 2 -> neg = e.neg /\ body = (IF e.up THEN <<73, 78, 70>> ELSE <<105, 110, 102>>)
            [] OTHER ->
               /\ neg = e.neg
               /\ s.ok /\ s.used = Len(body) /\ body[1] \in 48..57 /\ body[Len(body)] \in 48..57
               /\ IF e.k = 3 THEN s.kind = 3
                  ELSE IF s.kind = 3 THEN e.fmt = "fixed" /\ (e.e < -e.p - 1 \/ (e.e = -e.p - 1 /\ e.m <= 50000000 + 20))
                  ELSE Near(e.m, e.e, Lead(s.d), s.e, TfTol(e))
               /\ e.fmt = "fixed" => ~s.hasexp
               /\ (e.fmt = "scientific" /\ e.k = 0) => s.hasexp
               /\ (e.fmt = "general" /\ e.k = 0 /\ ~EdgeOf(e)) => (s.hasexp <=> (e.e < -4 \/ e.e >= Sig(e)))
Ok(e) ==
  /\ "crash" \notin DOMAIN e
  /\ e.er = ""
  /\ CASE e.o = "to" -> ToOk(e) [] e.o = "from" -> FromOk(e) [] e.o = "ff" -> FfOk(e) [] e.o = "tf" -> TfOk(e)
Next == /\ l <= Len(Ev)
        /\ IF Ok(Ev[l]) THEN st' = st ELSE FALSE
        /\ l' = l + 1 /\ sn' = sn
        /\ l = Len(Ev) => PrintT(<<"ACC", sn>>)
Spec == Init /\ [][Next]_vars
TypeOK == st = 0
=============================================================================
