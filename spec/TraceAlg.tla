------------------------------- MODULE TraceAlg -------------------------------
(* Sorting and merging algorithms.  An element is key * 4096 + tag; the tags   *)
(* of a call are unique and increase along its input, so the stable result of  *)
(* a call is the unique arrangement ordered by <key, tag>.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sn, l, st
vars == <<sn, l, st>>
Ev == Sessions[sn].ev
Init == sn \in 1..Len(Sessions) /\ l = 1 /\ st = 0
Life == IOEnv.FACET # "value"

KeyOf(cm, v) == LET k == v \div 4096 IN CASE cm = 0 -> k [] cm = 1 -> -k [] cm = 2 -> k \div 4 [] OTHER -> 0
Elems(s) == {s[i] : i \in 1..Len(s)}
Ordered(out, cm, sg) ==
  \A i \in 1..Len(out) - 1 :
    LET a == KeyOf(cm, out[i])  b == KeyOf(cm, out[i + 1]) IN
    a < b \/ (a = b /\ sg * (out[i] % 4096) < sg * (out[i + 1] % 4096))
\* out is the stable arrangement of in
Stable(out, in, cm, sg) == Len(out) = Len(in) /\ Elems(out) = Elems(in) /\ Ordered(out, cm, sg)
FirstOccurrences(in, cm) ==
  FoldLeft(LAMBDA acc, v : IF KeyOf(cm, v) \in acc.s THEN acc ELSE [s |-> acc.s \cup {KeyOf(cm, v)}, o |-> Append(acc.o, v)],
           [s |-> {}, o |-> <<>>], in).o
Same(s, v) == \A i \in 1..Len(s) : s[i] = v

ResultOk(e) ==
  CASE e.o = "sort" -> Stable(e.out, e.in, e.cm, IF e.rev THEN -1 ELSE 1)
    [] e.o = "inplace" -> Stable(e.out, e.in, e.cm, 1)
    [] e.o = "reverse" -> Stable(e.out, e.in, e.cm, 1)
    [] e.o = "merge" -> Stable(e.out, e.a \o e.b, e.cm, 1) /\ e.r = Len(e.out)
    [] e.o = "unique" -> e.r = Len(e.out) /\ e.out = FirstOccurrences(e.in, e.cm)
OutsideOk(e) == ("pr" \in DOMAIN e => Same(e.pr, 77)) /\ ("po" \in DOMAIN e => Same(e.po, 78)) /\ ("in1" \in DOMAIN e => e.in1 /\ e.in2)
Legit(e) == {-1, 78} \cup (IF e.o = "merge" THEN Elems(e.a \o e.b) ELSE Elems(e.in))

Ok(e) ==
  /\ "crash" \notin DOMAIN e
  /\ Life => e.er = "" /\ (e.lv = -1 \/ e.lv = e.want)
  /\ e.o = "gone" \/
     (/\ OutsideOk(e)
      /\ IF e.x = "none" THEN ResultOk(e) /\ (~e.ab => e.na \in {0, -1})
         ELSE e.x = "inj" /\ Elems(e.out) \subseteq Legit(e))
Next == /\ l <= Len(Ev)
        /\ IF Ok(Ev[l]) THEN st' = st ELSE FALSE
        /\ l' = l + 1 /\ sn' = sn
        /\ l = Len(Ev) => PrintT(<<"ACC", sn>>)
Spec == Init /\ [][Next]_vars
TypeOK == st = 0
=============================================================================
