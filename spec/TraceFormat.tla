------------------------------ MODULE TraceFormat -----------------------------
(* Conformance of format.hpp with Format.tla: two objects of the same type       *)
(* (doc[1] is what was made, doc[2] its copy); every output is Text of the state. *)
EXTENDS Format, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sn, l, doc
vars == <<sn, l, doc>>
Ev == Sessions[sn].ev
Init == sn \in 1..Len(Sessions) /\ l = 1 /\ doc = <<>>

After(e) ==
  CASE e.o = "make" -> <<e.doc, e.doc>>
    [] e.o = "copy" -> [doc EXCEPT ![e.r + 1] = doc[2 - e.r]]
    [] e.o \in {"out", "split", "replace"} -> doc
    [] OTHER -> [doc EXCEPT ![e.r + 1] = Apply(@, e.p, e)]
OutOk(e) == LET t == Text(doc[e.r + 1]) IN
  IF e.rt = "max" THEN e.ok /\ e.tot = Len(t) /\ e.out = SubSeq(t, 1, Lo(Len(t), e.mx))
  ELSE e.ok /\ e.out = e.pre \o t
StepOk(e) == "crash" \notin DOMAIN e /\ e.er = "" /\ (e.o = "out" => OutOk(e))
             /\ (e.o = "split" => e.out = SplitSkip(e.t, e.m, e.skip))
             /\ (e.o = "replace" => e.out = Replace(e.t, e.m, e.by))
Next == /\ l <= Len(Ev)
        /\ IF StepOk(Ev[l]) THEN doc' = After(Ev[l]) ELSE FALSE
        /\ l' = l + 1 /\ sn' = sn
        /\ l = Len(Ev) => PrintT(<<"ACC", sn>>)
Spec == Init /\ [][Next]_vars
TypeOK == l >= 1
=============================================================================
