------------------------------- MODULE Any -------------------------------
(* hold_any: a slot holds nothing or one value of one type.  A value is a     *)
(* pair <<type, payload>>; <<"", <<>>>> is the empty slot.  The payload of a  *)
(* number is its rank in the ordered table of test values (so the integral,   *)
(* floating and boolean types share one exact order), that of a string the    *)
(* character codes, that of the other types their members.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

None == <<"", <<>>>>
Sign == {"char", "schar", "short", "int", "long", "llong", "wchar"}
Unsig == {"uchar", "char16", "char32", "ushort", "uint", "ulong", "ullong", "bool"}
Flt == {"float", "double", "ldouble"}
Nums == Sign \cup Unsig \cup Flt
CPs == {"ccp", "cp"}
Views == CPs \cup {"tview", "sview"}
Strs == Views \cup {"string", "tstring"}
Ptrs == CPs \cup {"intp"}
T(v) == v[1]
P(v) == v[2]
ZERO == 10
ONE == 12
\* texts of the numbers, by rank (empty: not used as a text)
Txt == << <<45,57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>, <<45,50,49,52,55,52,56,51,54,52,57>>, <<45,50,49,52,55,52,56,51,54,52,56>>,
  <<45,51,50,55,54,57>>, <<45,51,50,55,54,56>>, <<45,49,50,57>>, <<45,49,50,56>>, <<45,50,46,53>>, <<45,49>>, <<48>>, <<48,46,53>>, <<49>>, <<50>>, <<50,46,53>>,
  <<54,53>>, <<57,55>>, <<49,50,55>>, <<49,50,56>>, <<50,53,53>>, <<50,53,54>>, <<51,50,55,54,55>>, <<51,50,55,54,56>>, <<54,53,53,51,53>>, <<54,53,53,51,54>>,
  <<50,49,52,55,52,56,51,54,52,55>>, <<50,49,52,55,52,56,51,54,52,56>>, <<52,50,57,52,57,54,55,50,57,53>>, <<52,50,57,52,57,54,55,50,57,54>>,
  <<57,48,48,55,49,57,57,50,53,52,55,52,48,57,57,51>>, <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>, <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>,
  <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>, <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,54>> >>
\* the character code of ranks that are one
Code(r) == CASE r = 10 -> 0 [] r = 12 -> 1 [] r = 13 -> 2 [] r = 15 -> 65 [] r = 16 -> 97 [] r = 17 -> 127 [] r = 18 -> 128 [] r = 19 -> 255 [] r = 7 -> 128 [] r = 9 -> 255 [] OTHER -> -1
\* truncation towards zero; 0: a value outside the table (-2)
Trunc(r) == CASE r = 8 -> 0 [] r = 11 -> 10 [] r = 14 -> 13 [] OTHER -> r
Lo(t) == CASE t \in {"long", "llong"} -> 1 [] t = "int" -> 3 [] t = "short" -> 5 [] t \in Unsig -> 10 [] OTHER -> 1
Hi(t) == CASE t \in {"long", "llong"} -> 30 [] t \in {"ulong", "ullong"} -> 32 [] t = "int" -> 25 [] t = "uint" -> 27 [] t = "short" -> 21 [] t = "ushort" -> 23 [] OTHER -> 33

RECURSIVE LexLt(_, _, _)
LexLt(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLt(a, b, i + 1)
IntVal(r) == CASE r = 10 -> 0 [] r = 12 -> 1 [] r = 13 -> 2 [] r < 10 -> -1000 [] OTHER -> 1000
PrInt(a, b) == T(a) = "Pr" /\ T(b) = "int"

\* equality; same: the two operands are one object
Equal(a, b, same) ==
  IF T(a) = "" \/ T(b) = "" THEN T(a) = T(b)
  ELSE IF T(a) = T(b) THEN (IF T(a) = "NoCmp" THEN FALSE ELSE IF T(a) = "UP" THEN same \/ (P(a) = <<-1>> /\ P(b) = <<-1>>) ELSE P(a) = P(b))
  ELSE IF T(a) \in Nums /\ T(b) \in Nums THEN P(a) = P(b)
  ELSE IF T(a) \in Strs /\ T(b) \in Strs THEN P(a) = P(b)
  ELSE IF PrInt(a, b) THEN P(a)[1] = IntVal(P(b)[1]) /\ P(a)[2] = IntVal(P(b)[1])
  ELSE IF PrInt(b, a) THEN P(b)[1] = IntVal(P(a)[1]) /\ P(b)[2] = IntVal(P(a)[1])
  ELSE FALSE
Registered(a, b) == PrInt(a, b) \/ PrInt(b, a)
\* strict order: 0, 1, 2 = bad function call, 9 = unspecified (addresses)
N(x) == IF x THEN 1 ELSE 0
LessV(ids, a, b, same) ==
  IF T(a) = "" THEN N(T(b) # "")
  ELSE IF T(b) = "" THEN 0
  ELSE IF T(a) = T(b) THEN
    (IF T(a) = "NoCmp" THEN 2
     ELSE IF T(a) \in CPs THEN (IF P(a) = P(b) THEN 0 ELSE 9)
     ELSE IF T(a) = "UP" THEN (IF same THEN 0 ELSE IF P(b) = <<-1>> THEN 0 ELSE IF P(a) = <<-1>> THEN 1 ELSE 9)
     ELSE N(LexLt(P(a), P(b), 1)))
  ELSE IF T(a) \in Nums /\ T(b) \in Nums THEN N(P(a)[1] < P(b)[1])
  ELSE IF T(a) \in Strs /\ T(b) \in Strs THEN N(LexLt(P(a), P(b), 1))
  ELSE IF PrInt(a, b) THEN N(P(a)[1] < IntVal(P(b)[1]))
  ELSE IF PrInt(b, a) THEN N(IntVal(P(a)[1]) < P(b)[1])
  ELSE N(ids[T(a)] < ids[T(b)])
Neg(x) == IF x = 2 THEN 2 ELSE 1 - x
\* r: the results of == # < > <= >= for a and b
RelOk(ids, a, b, same, r) ==
  LET eq == N(Equal(a, b, same))  lt == LessV(ids, a, b, same)  gt == LessV(ids, b, a, same) IN
  /\ r[1] = eq
  /\ r[2] = 1 - eq
  /\ IF lt = 9 \/ gt = 9
     THEN /\ r[3] \in {0, 1}
          /\ r[4] \in {0, 1}
          /\ r[3] + r[4] = 1 - eq
          /\ r[5] = 1 - r[4]
          /\ r[6] = 1 - r[3]
     ELSE r[3] = lt /\ r[4] = gt /\ r[5] = Neg(gt) /\ r[6] = Neg(lt)
HashOk(hash, v, h) == h >= -2 /\ ((h = -2) = ((~hash /\ T(v) # "") \/ T(v) = "NoCmp"))

\* conversions: <<exception, payload>>
Bad == << "bad_cast", <<>> >>
Unspec == << "free", <<>> >>
Fine(p) == << "none", p >>
TxtRank(p) == LET q == {r \in 1..Len(Txt) : Txt[r] = p} IN IF q = {} THEN 0 ELSE CHOOSE r \in q : TRUE
Cast(v, to, ref) ==
  IF T(v) = "" THEN Bad
  ELSE IF T(v) = to THEN Fine(P(v))
  ELSE IF ref THEN Bad
  ELSE IF T(v) \in Nums THEN
    (IF to = "bool" THEN Fine(<<IF P(v)[1] = ZERO THEN ZERO ELSE ONE>>)
     ELSE IF to \in Flt THEN Fine(P(v))
     ELSE IF to \in Nums THEN Fine(<<Trunc(P(v)[1])>>)
     ELSE IF to \in {"string", "tstring"} THEN Fine(Txt[P(v)[1]])
     ELSE Bad)
  ELSE IF T(v) \in Strs THEN
    (IF to \in Strs THEN Fine(P(v))
     ELSE IF to \in Nums THEN
       (LET r == TxtRank(P(v)) IN
        IF r = 0 THEN Bad
        \* the parser is documented as inexact for long texts, and silent on overflow
        ELSE IF to \in Flt THEN (IF Len(P(v)) > 15 THEN Fine(<<-1>>) ELSE Fine(<<r>>))
        ELSE IF P(v)[1] = 45 /\ to \in Unsig THEN Bad
        ELSE IF r < Lo(to) \/ r > Hi(to) THEN Unspec ELSE Fine(<<Trunc(r)>>))
     ELSE Bad)
  ELSE IF T(v) = "Pr" /\ to = "string" THEN Fine(<<48 + P(v)[1], 44, 48 + P(v)[2]>>)
  ELSE IF T(v) = "Pr" /\ to = "long" THEN Fine(<<CASE 10 * P(v)[1] + P(v)[2] = 0 -> 10 [] 10 * P(v)[1] + P(v)[2] = 1 -> 12 [] 10 * P(v)[1] + P(v)[2] = 2 -> 13 [] OTHER -> 0>>)
  ELSE Bad
\* what the stream operator must write; <<>> with TRUE: not specified
PrintFree(v) == T(v) \in {"intp", "UP", ""} \/ (T(v) \in Flt /\ ~(P(v)[1] \in (6..20) \ {10}))
PrintText(v) == IF T(v) \in {"char", "schar", "uchar"} THEN <<Code(P(v)[1])>> ELSE IF T(v) \in Nums THEN Txt[P(v)[1]] ELSE P(v)
Printable(v) == T(v) \in Nums \cup Strs

Counted(v) == IF T(v) \in {"Snr", "ObjTh", "Rel", "RelBig", "Fix"} THEN 1 ELSE IF T(v) = "UP" /\ P(v) # <<-1>> THEN 1 ELSE 0
Live(st) == Counted(st[1]) + Counted(st[2]) + Counted(st[3])
=============================================================================
