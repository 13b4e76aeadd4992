------------------------------- MODULE Str -------------------------------
(* tiny_string and tstring_view: the abstract state of a string is a finite   *)
(* sequence of character codes; every operation of the public interface is a  *)
(* transition on it or a function of it (the documented contract: the same    *)
(* interface as std::string).  Positions are 0-based, npos is -1.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Rep(n, v) == [i \in 1..n |-> v]
Min2(a, b) == IF a < b THEN a ELSE b
\* the part of s from position p, at most m characters (m = -1: all)
Sub(s, p, m) == IF m = -1 THEN Drop(s, p) ELSE SubSeq(s, p + 1, Min2(Len(s), p + m))
Cut(s, p, m) == Take(s, p) \o (IF m = -1 THEN <<>> ELSE Drop(s, Min2(Len(s), p + m)))
InsAt(s, p, xs) == Take(s, p) \o xs \o Drop(s, p)
\* the argument of an operation: a part of the string itself, a sub-part, a repeated character, or given
Arg(s, e) == IF "al" \in DOMAIN e THEN SubSeq(s, e.al[1] + 1, e.al[1] + e.al[2])
             ELSE IF "ch" \in DOMAIN e THEN Rep(e.cm, e.ch)
             ELSE IF "sp" \in DOMAIN e THEN Sub(e.a, e.sp, e.sl) ELSE e.a

MatchAt(s, p, i) == i + Len(p) <= Len(s) /\ \A j \in 1..Len(p) : s[i + j] = p[j]
RECURSIVE FirstMatch(_, _, _)
FirstMatch(s, p, i) == IF i + Len(p) > Len(s) THEN -1 ELSE IF MatchAt(s, p, i) THEN i ELSE FirstMatch(s, p, i + 1)
RECURSIVE LastMatch(_, _, _)
LastMatch(s, p, i) == IF i < 0 THEN -1 ELSE IF MatchAt(s, p, i) THEN i ELSE LastMatch(s, p, i - 1)
Find(s, p, pos) == IF pos = -1 THEN -1 ELSE FirstMatch(s, p, pos)
RFind(s, p, pos) == LastMatch(s, p, IF pos = -1 THEN Len(s) ELSE Min2(pos, Len(s)))
In(p, x) == \E j \in 1..Len(p) : p[j] = x
RECURSIVE FirstIn(_, _, _, _)
FirstIn(s, p, i, want) == IF i >= Len(s) THEN -1 ELSE IF In(p, s[i + 1]) = want THEN i ELSE FirstIn(s, p, i + 1, want)
RECURSIVE LastIn(_, _, _, _)
LastIn(s, p, i, want) == IF i < 0 THEN -1 ELSE IF In(p, s[i + 1]) = want THEN i ELSE LastIn(s, p, i - 1, want)
UpTo(s, pos) == IF pos = -1 THEN Len(s) - 1 ELSE Min2(pos, Len(s) - 1)
Search(what, s, p, pos) ==
  CASE what = "find" -> Find(s, p, pos)
    [] what = "rfind" -> RFind(s, p, pos)
    [] what = "ffo" -> IF pos = -1 THEN -1 ELSE FirstIn(s, p, pos, TRUE)
    [] what = "ffno" -> IF pos = -1 THEN -1 ELSE FirstIn(s, p, pos, FALSE)
    [] what = "flo" -> LastIn(s, p, UpTo(s, pos), TRUE)
    [] what = "flno" -> LastIn(s, p, UpTo(s, pos), FALSE)
RECURSIVE Count(_, _, _)
Count(s, p, i) == LET j == Find(s, p, i) IN IF j = -1 THEN 0 ELSE 1 + Count(s, p, j + Len(p))
RECURSIVE ReplAll(_, _, _, _)
ReplAll(s, f, t, i) == LET j == Find(s, f, i) IN IF j = -1 THEN s ELSE ReplAll(InsAt(Cut(s, j, Len(f)), j, t), f, t, j + Len(t))
\* replacements are counted in the original text: the text after a replaced part is unchanged
Cmp(s, p) ==
  LET n == Min2(Len(s), Len(p))
      d == {i \in 1..n : s[i] # p[i]} IN
  IF d = {} THEN (IF Len(s) < Len(p) THEN -1 ELSE IF Len(s) > Len(p) THEN 1 ELSE 0)
  ELSE LET i == CHOOSE x \in d : \A y \in d : x <= y IN IF s[i] < p[i] THEN -1 ELSE 1
B(x) == IF x THEN 1 ELSE 0
\* == # < <= > >=
Rels(c) == << B(c = 0), B(c # 0), B(c < 0), B(c <= 0), B(c > 0), B(c >= 0) >>

ResizeS(s, m, v) == IF m <= Len(s) THEN Take(s, m) ELSE s \o Rep(m - Len(s), v)
ResizeF(s, m, v) == IF m <= Len(s) THEN Drop(s, Len(s) - m) ELSE Rep(m - Len(s), v) \o s
\* contents after an operation that completes
Post(s, e) ==
  CASE e.o = "assign" -> Arg(s, e)
    [] e.o = "append" -> s \o Arg(s, e)
    [] e.o = "insert" -> InsAt(s, e.p, Arg(s, e))
    [] e.o = "erase" -> Cut(s, e.p, e.m)
    [] e.o = "replace" -> Take(s, e.p) \o Arg(s, e) \o (IF e.m = -1 THEN <<>> ELSE Drop(s, Min2(Len(s), e.p + e.m)))
    [] e.o = "resize" -> ResizeS(s, e.m, e.v)
    [] e.o = "resize_front" -> ResizeF(s, e.m, e.v)
    [] e.o = "push_back" -> Append(s, e.v)
    [] e.o = "pop_back" -> Take(s, Len(s) - 1)
    [] e.o = "set" -> [s EXCEPT ![e.p + 1] = e.v]
    [] e.o = "clear" -> <<>>
    [] e.o = "replall" -> ReplAll(s, e.f, e.t, e.p)
    [] e.o = "in" -> e.tok
    [] OTHER -> s

\* the exception an operation must raise
Must(s, e) == CASE e.o \in {"substr", "copy"} -> IF e.p > Len(s) THEN "out_of_range" ELSE "none"
                [] e.o = "at" -> IF e.p >= Len(s) THEN "out_of_range" ELSE "none"
                [] OTHER -> "none"
AllIs(xs, v) == \A i \in 1..Len(xs) : xs[i] = v
Spaces(s) == \A i \in 1..Len(s) : s[i] \in {32, 10}
\* results
RetOk(s, e) ==
  CASE e.o = "search" -> e.r = Search(e.w, s, e.a, e.p)
    [] e.o = "count" -> e.r = Count(s, e.a, e.p)
    [] e.o = "replall" -> e.r = Count(s, e.f, e.p)
    [] e.o = "cmp" -> LET c == Cmp(s, e.a) IN /\ AllIs(e.sg, c)
                        /\ AllIs(e.rs, -c)
                        /\ (\A i \in 1..Len(e.rl) : e.rl[i] = Rels(c))
                        /\ (\A i \in 1..Len(e.rr) : e.rr[i] = Rels(-c))
                        /\ (c = 0 => e.h2 = e.h[1])
    [] e.o = "hash" -> AllIs(e.h, e.h[1])
    [] e.o = "cmpsub" -> e.r = Cmp(Sub(s, e.p, e.m), Arg(s, e))
    [] e.o \in {"substr", "copy"} -> e.out = Sub(s, e.p, e.m)
    [] e.o = "at" -> AllIs(e.out, s[e.p + 1])
    [] e.o = "ends" -> e.out = <<s[1], s[Len(s)]>>
    [] e.o = "plus" -> e.out = (IF e.left THEN s \o e.a ELSE e.a \o s)
    [] e.o = "out" -> LET w == IF e.w > Len(s) THEN e.w - Len(s) ELSE 0 IN
                        e.out = (IF e.left THEN s \o Rep(w, e.fill) ELSE Rep(w, e.fill) \o s)
    \* a word read from a text: leading blanks are skipped; it ends at a blank, at the width or at the end
    [] e.o = "in" -> LET skip == LET q == {i \in 1..Len(e.a) : e.a[i] \notin {32, 10}} IN IF q = {} THEN Len(e.a) ELSE (CHOOSE x \in q : \A y \in q : x <= y) - 1
                         t == Drop(e.a, skip)
                         stop == LET q == {i \in 1..Len(t) : t[i] \in {32, 10}} IN IF q = {} THEN Len(t) ELSE (CHOOSE x \in q : \A y \in q : x <= y) - 1
                         w == IF e.w > 0 THEN Min2(e.w, stop) ELSE stop IN
                       /\ e.ok = (t # <<>>) /\ (e.ok => e.tok = Take(t, w) /\ e.rest = Drop(t, w))
    [] e.o = "view" -> e.out = s
    [] OTHER -> TRUE
=============================================================================
