---------------------------- MODULE SeqContainer ----------------------------
(* Sequence containers (devector, tiered_vector): the abstract state is, per  *)
(* container slot, a finite sequence of values; every operation of the public *)
(* interface is a transition on it.  Used in two ways:                        *)
(*  - as the oracle for traces recorded from the real code (TraceSeq.tla)     *)
(*  - model checked on its own over small constants (MCSeq.tla).              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Rep(n, v) == [i \in 1..n |-> v]
\* positions are 0-based as in the code
InsAt(s, p, xs) == Take(s, p) \o xs \o Drop(s, p)
DelRange(s, p, q) == Take(s, p) \o Drop(s, q)
At(s, i) == s[i + 1]
\* value argument: given directly or as an element of the container itself
Arg(s, e) == IF "ai" \in DOMAIN e THEN At(s, e.ai) ELSE e.v
Resize(s, m, v) == IF m <= Len(s) THEN Take(s, m) ELSE s \o Rep(m - Len(s), v)
ResizeFront(s, m, v) == IF m <= Len(s) THEN Drop(s, Len(s) - m) ELSE Rep(m - Len(s), v) \o s

\* contents after an operation that completes
Post(s, e) ==
  CASE e.o \in {"push_back", "push_back_m", "emplace_back"} -> Append(s, Arg(s, e))
    [] e.o \in {"push_front", "push_front_m", "emplace_front"} -> <<Arg(s, e)>> \o s
    [] e.o \in {"insert", "emplace"} -> InsAt(s, e.p, <<Arg(s, e)>>)
    [] e.o = "insert_n" -> InsAt(s, e.p, Rep(e.m, Arg(s, e)))
    [] e.o = "insert_r" -> InsAt(s, e.p, e.vs)
    [] e.o = "assign_r" -> e.vs
    [] e.o = "assign_n" -> Rep(e.m, Arg(s, e))
    [] e.o = "resize" -> Resize(s, e.m, 0)
    [] e.o = "resize_v" -> Resize(s, e.m, IF e.m <= Len(s) THEN 0 ELSE Arg(s, e))
    [] e.o = "resize_front" -> ResizeFront(s, e.m, 0)
    [] e.o = "resize_front_v" -> ResizeFront(s, e.m, IF e.m <= Len(s) THEN 0 ELSE Arg(s, e))
    [] e.o = "pop_back" -> Take(s, Len(s) - 1)
    [] e.o = "pop_front" -> Drop(s, 1)
    [] e.o = "erase" -> DelRange(s, e.p, e.p + 1)
    [] e.o = "erase_r" -> DelRange(s, e.p, e.q)
    [] e.o = "clear" -> <<>>
    [] e.o = "set" -> [s EXCEPT ![e.p + 1] = e.v]
    [] e.o \in {"shrink", "reserve", "reserve_back", "reserve_front", "at", "rev", "iter", "foreach", "full"} -> s
    [] e.o \in {"il_ctor", "range_ctor"} -> e.vs
    [] e.o = "n_ctor" -> Rep(e.m, e.v)

\* integer result
Ret(s, e) ==
  CASE e.o \in {"emplace_back", "emplace_front"} -> Arg(s, e)
    [] e.o = "emplace" -> IF e.rk = "pos" THEN e.p ELSE Arg(s, e)
    [] e.o \in {"insert", "insert_n", "insert_r", "erase", "erase_r"} -> e.p
    [] e.o = "at" -> IF e.p < Len(s) THEN At(s, e.p) ELSE -1
    [] OTHER -> -1

B(x) == IF x THEN 1 ELSE 0
\* lists of observations
OutOk(s, e) ==
  CASE e.o = "rev" -> e.out = Reverse(s)
    [] e.o = "foreach" -> e.out = SubSeq(s, e.p + 1, e.q)
    [] e.o = "iter" ->
         LET i == e.p  j == e.q  n == Len(s) IN
         e.out = << j - i, B(i = j), B(i # j), B(i < j), B(i <= j), B(i > j), B(i >= j),
                    IF j < n THEN At(s, j) ELSE -7, 1, IF j < n THEN At(s, j) ELSE -7,
                    IF i < n THEN At(s, i) ELSE -7, IF i < n THEN i + 1 ELSE -7,
                    IF i > 0 THEN At(s, i - 1) ELSE -7, IF i > 0 THEN i - 1 ELSE -7,
                    n - i >>
    [] OTHER -> TRUE

\* capacity promises of devector: <<front, back, total>>
CapOk(s, e) ==
  IF "cap" \notin DOMAIN e \/ e.x # "none" THEN TRUE ELSE
  /\ e.cap[1] >= 0 /\ e.cap[2] >= 0 /\ e.cap[1] + e.cap[2] + Len(s) = e.cap[3]
  /\ e.o = "reserve" => e.cap[3] >= e.m
  /\ e.o = "reserve_back" => e.cap[2] >= e.m
  /\ e.o = "reserve_front" => e.cap[1] >= e.m
  /\ e.o = "shrink" => e.cap[3] = Len(s)

\* exception the operation must raise by itself
Must(s, e) == IF e.o = "at" /\ e.p >= Len(s) THEN "out_of_range" ELSE "none"

\* operations documented to leave the container unchanged when they throw
\* (devector, for elements that move without throwing)
Strong(e) == e.o \in {"push_back", "push_back_m", "emplace_back", "push_front", "push_front_m", "emplace_front",
                      "insert", "emplace", "insert_n", "insert_r", "resize", "resize_v", "resize_front", "resize_front_v",
                      "shrink", "reserve", "reserve_back", "reserve_front", "at", "set", "rev", "iter", "foreach", "full"}
\* and without that condition
StrongAlways(e) == e.o \in {"shrink", "reserve", "resize", "resize_v", "resize_front", "resize_front_v", "at", "set", "rev", "iter", "foreach", "full"}

\* values an element may have after a basic-guarantee failure: something that was
\* there or was being inserted, a default value, or a moved-from one
Legit(s, e) == {s[i] : i \in 1..Len(s)} \cup {0, -1}
   \cup (IF "v" \in DOMAIN e THEN {e.v} ELSE {}) \cup (IF "vs" \in DOMAIN e THEN {e.vs[i] : i \in 1..Len(e.vs)} ELSE {})

-----------------------------------------------------------------------------
\* transfers between slot k and the other one.  a: allocator ids
CopyId(pm, id) == IF (pm \div 8) % 2 = 1 THEN 0 ELSE id
PropC(pm) == pm % 2 = 1
PropM(pm) == (pm \div 2) % 2 = 1
PropS(pm) == (pm \div 4) % 2 = 1
Xfers == {"copy_ctor", "copy_ctor_a", "move_ctor", "move_ctor_a", "copy_assign", "move_assign", "self_copy", "self_swap", "swap",
          "il_ctor", "n_ctor", "range_ctor"}
\* allowed results: new contents of k; of the other slot ("any": valid but unspecified); allocator of k
XPost(cfg, st, e) ==
  LET k == e.k  o == 3 - k  q == st.c[k]  p == st.c[o]  ak == st.a[k]  ao == st.a[o] IN
  CASE e.o = "copy_ctor" -> [k |-> p, o |-> p, any |-> FALSE, ak |-> CopyId(cfg.pm, ao), ao |-> ao]
    [] e.o = "copy_ctor_a" -> [k |-> p, o |-> p, any |-> FALSE, ak |-> e.id, ao |-> ao]
    [] e.o = "move_ctor" -> [k |-> p, o |-> <<>>, any |-> TRUE, ak |-> ao, ao |-> ao]
    [] e.o = "move_ctor_a" -> [k |-> p, o |-> <<>>, any |-> TRUE, ak |-> e.id, ao |-> ao]
    [] e.o = "copy_assign" -> [k |-> p, o |-> p, any |-> FALSE, ak |-> IF PropC(cfg.pm) THEN ao ELSE ak, ao |-> ao]
    [] e.o = "move_assign" -> [k |-> p, o |-> <<>>, any |-> TRUE, ak |-> IF PropM(cfg.pm) THEN ao ELSE ak, ao |-> -1]
    [] e.o \in {"self_copy", "self_swap"} -> [k |-> q, o |-> p, any |-> FALSE, ak |-> ak, ao |-> ao]
    [] e.o = "swap" -> [k |-> p, o |-> q, any |-> FALSE, ak |-> IF PropS(cfg.pm) THEN ao ELSE ak, ao |-> IF PropS(cfg.pm) THEN ak ELSE ao]
    [] e.o \in {"il_ctor", "n_ctor", "range_ctor"} -> [k |-> Post(q, e), o |-> p, any |-> FALSE, ak |-> e.id, ao |-> ao]

\* elements that may be found in a moved-from container
MovedOk(p, d) == \A i \in 1..Len(d) : d[i] = -1 \/ d[i] = 0 \/ \E j \in 1..Len(p) : p[j] = d[i]
=============================================================================
