--------------------------------- MODULE Num ----------------------------------
(* Numerals: what an integer is written as, and which prefix of a text is a     *)
(* numeral and with what value.  Integers are little endian sequences of 12 bit *)
(* limbs; texts are sequences of character codes.                               *)
EXTENDS Integers, Sequences, SequencesExt

Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Trim(_)
Trim(v) == IF v # <<>> /\ v[Len(v)] = 0 THEN Trim(SubSeq(v, 1, Len(v) - 1)) ELSE v
\* v div b and v mod b
DivMod(v, b) ==
  LET r == FoldLeft(LAMBDA acc, i : LET cur == acc.r * 4096 + v[Len(v) + 1 - i] IN [q |-> <<cur \div b>> \o acc.q, r |-> cur % b],
                    [q |-> <<>>, r |-> 0], [i \in 1..Len(v) |-> i])
  IN [q |-> Trim(r.q), r |-> r.r]
RECURSIVE DigitsOf(_, _)
DigitsOf(v, b) == IF v = <<>> THEN <<>> ELSE LET d == DivMod(v, b) IN Append(DigitsOf(d.q, b), d.r)
\* v * b + d
MulAdd(v, b, d) ==
  LET r == FoldLeft(LAMBDA acc, x : LET cur == x * b + acc.c IN [o |-> Append(acc.o, cur % 4096), c |-> cur \div 4096], [o |-> <<>>, c |-> d], v)
  IN IF r.c = 0 THEN r.o ELSE Append(r.o, r.c)
RECURSIVE Less(_, _)
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
              ELSE IF a = <<>> THEN FALSE
              ELSE IF a[Len(a)] # b[Len(b)] THEN a[Len(a)] < b[Len(b)]
              ELSE Less(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1))
\* 2^n
RECURSIVE Pow2(_)
Pow2(n) == IF n < 12 THEN <<2^n>> ELSE <<0>> \o Pow2(n - 12)
Fits(v, neg, bits, sg) == IF ~sg THEN Less(v, Pow2(bits))
                          ELSE IF neg THEN ~Less(Pow2(bits - 1), v) ELSE Less(v, Pow2(bits - 1))

\* ------------------------------------------------------------- printing
DigitCode(d, up) == IF d < 10 THEN 48 + d ELSE (IF up THEN 55 ELSE 87) + d
Zeros(n) == [i \in 1..Hi(n, 0) |-> 48]
IntText(v, neg, base, w, px, up) ==
  LET ds == DigitsOf(v, base)
      txt == IF ds = <<>> THEN <<48>> ELSE [i \in 1..Len(ds) |-> DigitCode(ds[i], up /\ base # 10)]
  IN (IF neg THEN <<45>> ELSE <<>>) \o (IF px /\ base = 16 /\ ds # <<>> THEN <<48, 120>> ELSE <<>>) \o Zeros(w - Len(txt)) \o txt

\* -------------------------------------------------------------- parsing
Blank == {9, 10, 11, 12, 13, 32}
At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
RECURSIVE SkipBlank(_, _)
SkipBlank(t, i) == IF At(t, i) \in Blank THEN SkipBlank(t, i + 1) ELSE i
DigitVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 65 /\ c <= 90 THEN c - 55 ELSE IF c >= 97 /\ c <= 122 THEN c - 87 ELSE 99
IsDig(c, b) == DigitVal(c) < b
RECURSIVE SkipDigits(_, _, _)
SkipDigits(t, i, b) == IF IsDig(At(t, i), b) THEN SkipDigits(t, i + 1, b) ELSE i
Value(t, i, j, b) == Trim(FoldLeft(LAMBDA v, k : MulAdd(v, b, DigitVal(t[i + k - 1])), <<>>, [k \in 1..(j - i) |-> k]))

\* the numeral at the start of t: [ok, used, neg, v]; alt: a prefix 0x without a digit behind it may also be read as "0"
IntScan(t, b, sg) ==
  LET i0 == SkipBlank(t, 1)
      s == At(t, i0)
      i1 == IF s = 43 \/ (s = 45 /\ sg) THEN i0 + 1 ELSE i0
      hex == b = 16 /\ At(t, i1) = 48 /\ At(t, i1 + 1) \in {120, 88}
      i2 == IF hex THEN i1 + 2 ELSE i1
      j == SkipDigits(t, i2, b)
  IN IF j = i2 THEN [ok |-> FALSE, used |-> 0, neg |-> FALSE, v |-> <<>>, half |-> IF hex THEN i1 ELSE 0]
     ELSE [ok |-> TRUE, used |-> j - 1, neg |-> s = 45, v |-> Value(t, i2, j, b), half |-> 0]

\* floating point numeral: [ok, used, kind, neg, digits (without leading zeros), dexp, x]
\*   value = 0.digits * 10^(dexp + 1) is the number with its first digit at the power dexp; x is the written exponent
RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
Exp(ds) == FoldLeft(LAMBDA a, d : Lo(a * 10 + d, 100000), 0, ds)
DigSeq(t, i, j) == [k \in 1..(j - i) |-> t[i + k - 1] - 48]
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Bad == [ok |-> FALSE, used |-> 0, kind |-> 0, neg |-> FALSE, d |-> <<>>, e |-> 0, x |-> 0, hasexp |-> FALSE]
FloatScan(t, fmt, dot) ==
  LET i0 == SkipBlank(t, 1)
      s == At(t, i0)
      i1 == IF s \in {43, 45} THEN i0 + 1 ELSE i0
      word == <<Lower(At(t, i1)), Lower(At(t, i1 + 1)), Lower(At(t, i1 + 2))>>
      i2 == SkipDigits(t, i1, 10)
      hasdot == At(t, i2) = dot
      i3 == IF hasdot THEN SkipDigits(t, i2 + 1, 10) ELSE i2
      nd == (i2 - i1) + (IF hasdot THEN i3 - i2 - 1 ELSE 0)
      ex == At(t, i3) \in {101, 69}
      i4 == IF ex /\ At(t, i3 + 1) \in {43, 45} THEN i3 + 2 ELSE i3 + 1
      i5 == IF ex THEN SkipDigits(t, i4, 10) ELSE i4
      hasexp == ex /\ i5 > i4 /\ fmt # "fixed"
      x == IF hasexp THEN (IF At(t, i3 + 1) = 45 THEN -1 ELSE 1) * Exp(DigSeq(t, i4, i5)) ELSE 0
      ip == DigSeq(t, i1, i2)
      all == ip \o (IF hasdot THEN DigSeq(t, i2 + 1, i3) ELSE <<>>)
      sd == Strip(all)
  IN IF word = <<110, 97, 110>> THEN [Bad EXCEPT !.ok = TRUE, !.used = i1 + 2, !.kind = 1, !.neg = s = 45]
     ELSE IF word = <<105, 110, 102>> THEN [Bad EXCEPT !.ok = TRUE, !.used = i1 + 2, !.kind = 2, !.neg = s = 45]
     ELSE IF nd = 0 \/ (fmt = "scientific" /\ ~hasexp) THEN Bad
     ELSE [ok |-> TRUE, used |-> (IF hasexp THEN i5 ELSE i3) - 1, kind |-> IF sd = <<>> THEN 3 ELSE 0, neg |-> s = 45, d |-> sd,
           e |-> Len(ip) - (Len(all) - Len(sd)) - 1 + x, x |-> x, hasexp |-> hasexp]
\* the first eight digits
Lead(d) == FoldLeft(LAMBDA a, i : a * 10 + (IF i <= Len(d) THEN d[i] ELSE 0), 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)
\* m1 * 10^e1 and m2 * 10^e2 differ by at most tol units of the last digit
Near(m1, e1, m2, e2, tol) ==
  CASE e1 = e2 -> Abs(m1 - m2) <= tol
    [] e1 = e2 + 1 -> Abs(10 * m1 - m2) <= tol
    [] e2 = e1 + 1 -> Abs(m1 - 10 * m2) <= tol
    [] OTHER -> FALSE
=============================================================================
