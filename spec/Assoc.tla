------------------------------- MODULE Assoc -------------------------------
(* Associative containers: flat, radix, ordered and radix_hash families.     *)
(* An element is coded key * 1000 + low: low is the mapped value of a map, or *)
(* a mark that tells equal keys of a set apart.  The abstract state of a      *)
(* container is a sequence of elements, in the order the container promises:  *)
(* by key ("sorted"), by insertion ("insertion"), or, for hash containers     *)
(* that promise none, the sequence sorted by code ("hash").                   *)
EXTENDS SeqContainer

KeyOf(c) == c \div 1000
LowOf(c) == c % 1000
Code(k, lo) == k * 1000 + lo
Keys(s) == {KeyOf(s[i]) : i \in 1..Len(s)}
Has(s, k) == \E i \in 1..Len(s) : KeyOf(s[i]) = k
CountK(s, k) == Cardinality({i \in 1..Len(s) : KeyOf(s[i]) = k})
\* number of elements before the first that is not less / that is greater
LB(s, k) == Cardinality({i \in 1..Len(s) : KeyOf(s[i]) < k})
UB(s, k) == Cardinality({i \in 1..Len(s) : KeyOf(s[i]) <= k})
Idx(s, k) == CHOOSE i \in 1..Len(s) : KeyOf(s[i]) = k
LtCode(a, b) == a < b
Canon(cfg, c) == IF cfg.kind = "hash" THEN SortSeq(c, LtCode) ELSE c

\* place of a new element; w, p: where an insertion-ordered container was told to put it
Place(cfg, s, c, w, p) ==
  CASE cfg.kind = "sorted" -> UB(s, KeyOf(c))
    [] cfg.kind = "hash" -> Cardinality({i \in 1..Len(s) : s[i] < c})
    [] w = "front" -> 0
    [] w = "any" /\ p \in 0..Len(s) -> p
    [] OTHER -> Len(s)
New(cfg, s, c) == cfg.multi \/ ~Has(s, KeyOf(c))
Add(cfg, s, c, w, p) == IF New(cfg, s, c) THEN InsAt(s, Place(cfg, s, c, w, p), <<c>>) ELSE s
RECURSIVE AddAll(_, _, _, _)
AddAll(cfg, s, cs, i) == IF i > Len(cs) THEN s ELSE AddAll(cfg, Add(cfg, s, cs[i], "back", 0), cs, i + 1)
SetLow(s, k, lo) == LET i == Idx(s, k) IN [s EXCEPT ![i] = Code(k, lo)]
Put1(cfg, s, c, w, p) == IF Has(s, KeyOf(c)) THEN Canon(cfg, SetLow(s, KeyOf(c), LowOf(c))) ELSE Add(cfg, s, c, w, p)
Without(s, T(_)) == SelectSeq(s, LAMBDA c : ~T(c))

\* stable sort by key, descending or not
ByKeyS(s, desc) ==
  LET pairs == [i \in 1..Len(s) |-> <<IF desc THEN -KeyOf(s[i]) ELSE KeyOf(s[i]), i, s[i]>>]
      r == SortSeq(pairs, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])) IN
  [i \in 1..Len(s) |-> r[i][3]]
\* contents after an operation that completes
APost(cfg, s, e) ==
  CASE e.o = "insert" -> Add(cfg, s, e.v, e.w, e.rp)
    [] e.o = "insert_v" -> IF Has(s, KeyOf(e.v)) THEN (IF e.mod >= 0 THEN Canon(cfg, SetLow(s, KeyOf(e.v), e.mod)) ELSE s) ELSE Add(cfg, s, e.v, "back", 0)
    [] e.o = "find" -> IF "mod" \in DOMAIN e /\ e.mod >= 0 /\ Has(s, e.key) THEN Canon(cfg, SetLow(s, e.key, e.mod)) ELSE s
    [] e.o = "erase_kif" -> IF e.pred THEN Without(s, LAMBDA c : KeyOf(c) = e.key) ELSE s
    [] e.o = "mapall" -> Canon(cfg, [i \in 1..Len(s) |-> Code(KeyOf(s[i]), (LowOf(s[i]) + e.d) % 999)])
    [] e.o = "assign1" -> Put1(cfg, s, e.v, e.w, e.rp)
    [] e.o = "index" -> IF e.set THEN Put1(cfg, s, e.v, e.w, e.rp) ELSE Add(cfg, s, Code(KeyOf(e.v), 0), e.w, e.rp)
    [] e.o = "insert_r" -> AddAll(cfg, s, e.vs, 1)
    [] e.o \in {"assign_r", "il_ctor", "range_ctor"} -> AddAll(cfg, <<>>, e.vs, 1)
    [] e.o = "erase_key" -> Without(s, LAMBDA c : KeyOf(c) = e.key)
    [] e.o = "erase_it" -> IF cfg.kind = "hash" THEN Without(s, LAMBDA c : c = e.v) ELSE DelRange(s, e.p, e.p + 1)
    [] e.o = "erase_rng" -> IF cfg.kind = "hash" THEN Without(s, LAMBDA c : \E i \in 1..Len(e.vs) : e.vs[i] = c) ELSE DelRange(s, e.p, e.q)
    [] e.o = "erase_if" -> Without(s, LAMBDA c : KeyOf(c) % e.m = e.j)
    [] e.o = "clear" -> <<>>
    [] e.o = "sort" -> ByKeyS(s, e.desc)
    [] e.o = "seqop" -> (CASE e.sub = "pb" -> Append(s, e.v) [] e.sub = "pf" -> <<e.v>> \o s [] e.sub = "er" -> DelRange(s, e.p, e.p + 1)
                           [] e.sub = "srt" -> ByKeyS(s, FALSE) [] OTHER -> s)
    [] e.o = "rehash0" -> AddAll(cfg, <<>>, s, 1)
    [] e.o = "derase" -> AddAll(cfg, <<>>, DelRange(s, e.p, e.q), 1)
    [] e.o = "setv" -> IF cfg.kind = "hash" THEN Canon(cfg, SetLow(s, KeyOf(e.v), LowOf(e.v))) ELSE [s EXCEPT ![e.p + 1] = e.v]
    [] OTHER -> s

\* where the promised order leaves a choice: is the observed sequence c one of the results t stands for
SameRuns(t, c) ==
  /\ Len(c) = Len(t)
  /\ \A i \in 1..Len(c) : KeyOf(c[i]) = KeyOf(t[i])
  /\ \A k \in Keys(t) : LET a == SelectSeq(t, LAMBDA x : KeyOf(x) = k)  b == SelectSeq(c, LAMBDA x : KeyOf(x) = k) IN
        Len(a) > 1 => SortSeq(a, LtCode) = SortSeq(b, LtCode)
  /\ \A i \in 1..Len(c) : \E j \in 1..Len(t) : t[j] = c[i]
Loose(cfg) == cfg.kind = "sorted" /\ cfg.multi /\ ~cfg.stable
\* bulk insertion into an unstable unique container: which of the elements with equal keys stays is unspecified
LooseR(cfg, e) == cfg.kind = "sorted" /\ ~cfg.multi /\ ~cfg.stable /\ e.o \in {"insert_r", "assign_r", "il_ctor", "range_ctor"}
FitsR(s, t, vs, c) ==
  /\ Len(c) = Len(t)
  /\ \A i \in 1..Len(c) : KeyOf(c[i]) = KeyOf(t[i]) /\ ((Has(s, KeyOf(c[i])) /\ c[i] = t[i]) \/ (\E j \in 1..Len(vs) : vs[j] = c[i]))
\* a container with insertion order may place the elements of a range anywhere
AnyR(cfg, e) == cfg.kind = "insertion" /\ e.o \in {"insert_r", "il_ctor", "range_ctor"}
FitsAny(s, t, c) ==
  /\ Len(c) = Len(t)
  /\ SortSeq(c, LtCode) = SortSeq(t, LtCode)
  /\ LET old == {s[i] : i \in 1..Len(s)} IN SelectSeq(c, LAMBDA x : x \in old) = s
Fits(cfg, s, t, e, c) ==
  IF Loose(cfg) THEN SameRuns(t, c)
  ELSE IF LooseR(cfg, e) THEN FitsR(IF e.o = "insert_r" THEN s ELSE <<>>, t, e.vs, c)
  ELSE IF AnyR(cfg, e) THEN FitsAny(IF e.o = "insert_r" THEN s ELSE <<>>, t, c)
  ELSE c = t

\* position p designates an element with code c in t (p = -1: not reported)
Points(cfg, t, p, c) ==
  IF cfg.kind = "hash" \/ p = -1 THEN TRUE
  ELSE IF c = -1 THEN p = Len(t)
  ELSE p \in 0..Len(t) - 1 /\ KeyOf(t[p + 1]) = KeyOf(c) /\ (~Loose(cfg) => t[p + 1] = c)
In(cfg, t, c) == \E i \in 1..Len(t) : t[i] = c

\* keys that are sequences of characters: cfg.pool gives the characters of each key, by rank
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
PoolOk(cfg) == "pool" \in DOMAIN cfg => \A i \in 1..Len(cfg.pool) - 1 : LexLess(cfg.pool[i], cfg.pool[i + 1], 1)
StartsWith(w, p) == Len(w) >= Len(p) /\ SubSeq(w, 1, Len(p)) = p
WithPrefix(cfg, s, p) == SelectSeq(s, LAMBDA c : StartsWith(cfg.pool[KeyOf(c) + 1], p))
PrefixOk(cfg, s, e) == LET r == WithPrefix(cfg, s, e.pre) IN e.out = r /\ e.fc = IF r = <<>> THEN -1 ELSE r[1]

\* results
ARetOk(cfg, s, e) ==
  LET t == APost(cfg, s, e) IN
  CASE e.o = "insert" ->
         LET k == KeyOf(e.v)  new == New(cfg, s, e.v) IN
         /\ e.ins \in {-1, B(new)}
         /\ KeyOf(e.rc) = k /\ In(cfg, t, e.rc) /\ (new => e.rc = e.v)
         /\ Points(cfg, t, e.rp, e.rc)
    [] e.o = "insert_v" -> e.ins = B(~Has(s, KeyOf(e.v))) /\ e.out = IF Has(s, KeyOf(e.v)) THEN <<s[Idx(s, KeyOf(e.v))]>> ELSE <<>>
    [] e.o = "erase_kif" -> e.r = (IF e.pred THEN CountK(s, e.key) ELSE 0) /\ e.out = (IF Has(s, e.key) THEN <<s[Idx(s, e.key)]>> ELSE <<>>)
    \* no element is shown twice, and the visit goes on until it is told to stop
    [] e.o = "visit_some" -> /\ Cardinality({e.out[i] : i \in 1..Len(e.out)}) = Len(e.out)
                             /\ \A i \in 1..Len(e.out) : In(cfg, s, e.out[i])
                             /\ IF e.ex THEN Len(e.out) >= (IF e.stop < Len(s) THEN e.stop ELSE Len(s)) ELSE Len(e.out) = (IF e.stop < Len(s) THEN e.stop ELSE Len(s))
                             /\ e.r = (e.stop > Len(s))
    [] e.o = "assign1" -> e.ins \in {-1, B(~Has(s, KeyOf(e.v)))} /\ e.rc = e.v /\ Points(cfg, t, e.rp, e.rc)
    [] e.o = "index" -> e.r = IF Has(s, KeyOf(e.v)) THEN LowOf(s[Idx(s, KeyOf(e.v))]) ELSE 0
    [] e.o = "prefix" -> PrefixOk(cfg, s, e)
    [] e.o = "at" -> e.r = LowOf(s[Idx(s, e.key)])
    [] e.o = "pos" -> IF Loose(cfg) THEN KeyOf(e.r) = KeyOf(At(s, e.p)) ELSE e.r = At(s, e.p)
    [] e.o = "erase_key" -> e.r = CountK(s, e.key)
    [] e.o = "erase_it" -> (e.ri /\ cfg.kind # "hash") => (e.rp = e.p /\ e.rc = IF e.p < Len(t) THEN (IF Loose(cfg) THEN e.rc ELSE At(t, e.p)) ELSE -1)
    [] e.o = "erase_rng" -> cfg.kind # "hash" => e.rp = e.p
    [] e.o = "erase_if" -> e.r = Cardinality({i \in 1..Len(s) : KeyOf(s[i]) % e.m = e.j})
    [] e.o = "find" ->
         LET has == Has(s, e.key) IN
         /\ e.ct = has /\ e.cn = CountK(s, e.key)
         /\ IF has THEN KeyOf(e.fc) = e.key /\ In(cfg, s, e.fc) ELSE e.fc = -1
         /\ IF cfg.kind = "hash" \/ e.fp = -1 THEN TRUE
            ELSE IF has THEN Points(cfg, s, e.fp, e.fc) ELSE e.fp = Len(s)
         /\ cfg.kind = "sorted" => (e.lb = LB(s, e.key) /\ e.ub = UB(s, e.key))
         /\ e.e1 # -2 => (e.e1 = LB(s, e.key) /\ e.e2 = UB(s, e.key))
    [] OTHER -> TRUE

\* order and uniqueness of any contents, also after a failure
Shape(cfg, c) ==
  CASE cfg.kind = "sorted" -> \A i \in 1..Len(c) - 1 : IF cfg.multi THEN KeyOf(c[i]) <= KeyOf(c[i + 1]) ELSE KeyOf(c[i]) < KeyOf(c[i + 1])
    [] OTHER -> cfg.multi \/ Cardinality(Keys(c)) = Len(c)

\* a.merge(b): b's elements whose key a lacks move to a
MergeFrom(cfg, q, p) == SelectSeq(p, LAMBDA c : New(cfg, q, c))
MergeK(cfg, q, p) == AddAll(cfg, q, p, 1)
MergeO(cfg, q, p) == IF cfg.multi THEN <<>> ELSE Without(p, LAMBDA c : ~Has(q, KeyOf(c)))

EqOk(cfg, q, p, r) ==
  LET kq == [i \in 1..Len(q) |-> KeyOf(q[i])]  kp == [i \in 1..Len(p) |-> KeyOf(p[i])] IN
  IF Loose(cfg) THEN (r => kq = kp)
  ELSE IF cfg.kind = "insertion" THEN r = (SortSeq(IF cfg.map THEN q ELSE kq, LtCode) = SortSeq(IF cfg.map THEN p ELSE kp, LtCode))
  ELSE r = (IF cfg.map THEN q = p ELSE kq = kp)
=============================================================================
