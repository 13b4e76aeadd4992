-------------------------------- MODULE Reader --------------------------------
(* A text reader: a fixed text, a position and a state.  Whatever buffering the *)
(* implementation uses is not part of the state.                                *)
EXTENDS Num
Ok == 0
Eof == 1
BadFormat == 2

RECURSIVE WordEnd(_, _)
WordEnd(t, i) == IF i > Len(t) \/ At(t, i) \in Blank THEN i ELSE WordEnd(t, i + 1)
RECURSIVE LineEnd(_, _)
LineEnd(t, i) == IF i > Len(t) \/ At(t, i) \in {10, 13} THEN i ELSE LineEnd(t, i + 1)
Rest(t, p) == SubSeq(t, p + 1, Len(t))

\* Each operation: the set of [r, pos, st] that may follow (r is what the call delivers)
R(r, pos, st) == [r |-> r, pos |-> pos, st |-> st]
Token(t, p, End(_, _)) ==
  LET i == SkipBlank(t, p + 1) IN
  IF i > Len(t) THEN {R(<<>>, Len(t), Eof)} ELSE LET j == End(t, i) IN {R(SubSeq(t, i, j - 1), j - 1, Ok)}
GetC(t, p, s) == IF p = Len(t) THEN {R(-1, p, Eof)} ELSE {R(t[p + 1], p + 1, s)}
Read(t, p, s, n) == LET k == Lo(n, Len(t) - p) IN {R(SubSeq(t, p + 1, p + k), p + k, IF n > k THEN Eof ELSE s)}
=============================================================================
