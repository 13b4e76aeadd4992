-------------------------------- MODULE Format --------------------------------
(* Formatting objects: a document tree, the text it stands for, and what a      *)
(* call, a reset or a change of format does to it.                              *)
(*  leaf  a value (integer, real, string, custom) with a numeric and a width    *)
(*        format; numbers are padded but never cut                              *)
(*  join  the elements of a container, each with the element format, separated  *)
(*  wrap  a formatting object formatted once more                               *)
(*  multi several formatting objects; pos: the ones a call fills                *)
EXTENDS Num

Fill(c, n) == [i \in 1..Hi(n, 0) |-> c]
Pad(t, f) ==
  LET n == f.w - Len(t) IN
  IF f.al = 0 \/ n <= 0 THEN t
  ELSE IF f.al = 2 THEN Fill(f.f, n) \o t
  ELSE IF f.al = 3 THEN Fill(f.f, n \div 2) \o t \o Fill(f.f, n - n \div 2)
  ELSE t \o Fill(f.f, n)
Cut(t, f) ==
  LET n == Len(t) - f.w IN
  IF f.al = 0 \/ n <= 0 THEN t
  ELSE IF f.al = 2 THEN SubSeq(t, n + 1, Len(t))
  ELSE IF f.al = 3 THEN SubSeq(t, n \div 2 + 1, n \div 2 + f.w)
  ELSE SubSeq(t, 1, f.w)
Fit(t, f, num) == IF num THEN Pad(t, f) ELSE Pad(Cut(t, f), f)

ValText(v, nf) ==
  CASE v.k = "int" -> IF nf.ch THEN <<v.c>> ELSE IntText(v.v, v.neg, nf.base, 0, nf.px, nf.up)
    [] v.k = "raw" -> v.tx[nf.fi + 1]
    [] OTHER -> v.t
Glue(ts, sep) == FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE sep) \o ts[i], <<>>, [i \in 1..Len(ts) |-> i])
RECURSIVE Text(_)
Text(d) ==
  CASE d.k = "leaf" -> Fit(ValText(d.val, d.nf), d.wf, d.num)
    [] d.k = "join" -> Fit(d.pre \o Glue([i \in 1..Len(d.val.vals) |-> Fit(ValText(d.val.vals[i], d.nf), d.ef, d.num)], d.sep) \o d.post, d.wf, FALSE)
    [] d.k = "wrap" -> Fit(Text(d.it[1]), d.wf, FALSE)
    [] OTHER -> Fit(Glue([i \in 1..Len(d.it) |-> Text(d.it[i])], d.sep), d.wf, FALSE)

RECURSIVE Reset(_, _)
Reset(d, c) ==
  LET fl(x) == IF c = 0 THEN x ELSE [x EXCEPT !.wf.f = c] IN
  CASE d.k = "leaf" -> fl(IF d.keep THEN d ELSE [d EXCEPT !.val = d.zero])
    [] d.k = "join" -> fl(d)
    [] d.k = "wrap" -> fl([d EXCEPT !.it = <<Reset(d.it[1], 0)>>])
    [] OTHER -> [d EXCEPT !.it = [i \in 1..Len(d.it) |-> Reset(d.it[i], c)]]

\* the document after one argument (null, val, fill, doc, multi), resp. a list of arguments at the positions ps
RECURSIVE One(_, _), Many(_, _, _)
One(d, a) ==
  CASE a.k = "null" -> d
    [] a.k = "multi" -> Many(d, a.args, d.pos)
    [] a.k = "fill" -> Reset(d, a.c)
    [] d.k = "wrap" -> [d EXCEPT !.it = <<One(d.it[1], a)>>]
    [] a.k = "doc" -> IF a.same THEN a.d ELSE [d EXCEPT !.val = a.d.val]
    [] OTHER -> [d EXCEPT !.val = a.val]
Many(d, as, ps) == FoldLeft(LAMBDA x, i : [x EXCEPT !.it[ps[i]] = One(x.it[ps[i]], as[i])], d, [i \in 1..Len(as) |-> i])

Change(d, m) ==
  CASE m.k = "al" -> [d EXCEPT !.wf.al = m.al, !.wf.w = m.w]
    [] m.k = "noal" -> [d EXCEPT !.wf = [al |-> 0, w |-> 0, f |-> 32]]
    [] m.k = "wf" -> [d EXCEPT !.wf = m.wf]
    [] m.k = "fill" -> [d EXCEPT !.wf.f = m.c]
    [] m.k = "base" -> [d EXCEPT !.nf.base = m.b]
    [] m.k = "px" -> [d EXCEPT !.nf.px = TRUE]
    [] m.k = "up" -> [d EXCEPT !.nf.up = TRUE]
    [] m.k = "ch" -> [d EXCEPT !.nf.ch = TRUE]
    [] OTHER -> [d EXCEPT !.nf.fi = m.fi]
\* one event on the node at path p
Event(d, e) ==
  CASE e.o = "set" -> Change(d, e.m)
    [] e.o = "reset" -> Reset(d, e.c)
    [] e.o = "one" -> One(d, e.a)
    [] OTHER -> Many(d, e.args, IF e.pos = <<>> THEN d.pos ELSE e.pos)
RECURSIVE Apply(_, _, _)
Apply(d, p, e) == IF p = <<>> THEN Event(d, e) ELSE [d EXCEPT !.it[p[1]] = Apply(d.it[p[1]], Tail(p), e)]

\* ------------------------------------------------------- splitting texts
Has(s, c) == \E i \in DOMAIN s : s[i] = c
Matches(t, j, m) ==
  CASE m.k = "string" -> IF j + Len(m.s) - 1 > Len(t) THEN FALSE ELSE SubSeq(t, j, j + Len(m.s) - 1) = m.s
    [] m.k = "char" -> t[j] = m.s[1]
    [] m.k = "any" -> Has(m.s, t[j])
    [] m.k = "notany" -> ~Has(m.s, t[j])
    [] OTHER -> t[j] \in Blank
RECURSIVE NextMatch(_, _, _)
NextMatch(t, j, m) == IF j > Len(t) THEN 0 ELSE IF Matches(t, j, m) THEN j ELSE NextMatch(t, j + 1, m)
RECURSIVE Pieces(_, _, _)
Pieces(t, i, m) ==
  LET j == NextMatch(t, i, m) IN
  IF j = 0 THEN <<SubSeq(t, i, Len(t))>> ELSE <<SubSeq(t, i, j - 1)>> \o Pieces(t, j + (IF m.k = "string" THEN Len(m.s) ELSE 1), m)
Split(t, m) == IF m.k \in {"string", "any"} /\ m.s = <<>> THEN [i \in 1..Len(t) |-> <<t[i]>>] ELSE Pieces(t, 1, m)
Skipped(p, skip) ==
  CASE skip = "none" -> FALSE
    [] skip = "empty" -> p = <<>>
    [] skip = "white" -> (\A i \in DOMAIN p : p[i] = 32)
    [] OTHER -> (\A i \in DOMAIN p : p[i] \in Blank)
SplitSkip(t, m, skip) == SelectSeq(Split(t, m), LAMBDA p : ~Skipped(p, skip))
Replace(t, s, n) == Glue(Split(t, [k |-> "string", s |-> s]), n)
=============================================================================
