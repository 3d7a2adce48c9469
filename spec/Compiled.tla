------------------------------ MODULE Compiled ------------------------------
(***************************************************************************)
(* What a compiled function of several inputs is told by its caller: which *)
(* variables are data, which are parameters (both in order) and which have *)
(* a fixed value.                                                          *)
(***************************************************************************)
EXTENDS LogLin, Integers, Sequences, FiniteSets, SequencesExt

SeqSet(s) == {s[i] : i \in DOMAIN s}
ShapeOf(nd, np) == IF nd = 1 THEN (IF np = 0 THEN "single" ELSE IF np = 1 THEN "dp" ELSE "dps") ELSE "batch"
Shape(f) == ShapeOf(Len(f.data), Len(f.params))
Known(f) == SeqSet(f.data) \cup SeqSet(f.params) \cup DOMAIN f.consts
(* the value every variable gets in a call *)
Bind(f, ds, ps) == [v \in Known(f) |->
   IF \E i \in DOMAIN f.params : f.params[i] = v THEN ps[CHOOSE i \in DOMAIN f.params : f.params[i] = v]
   ELSE IF \E i \in DOMAIN f.data : f.data[i] = v THEN ds[CHOOSE i \in DOMAIN f.data : f.data[i] = v]
   ELSE f.consts[v]]
NoConsts == [v \in {} |-> Zero]
RECURSIVE Pow3(_)
Pow3(n) == IF n = 0 THEN 1 ELSE 3 * Pow3(n - 1)
(* division number n of the variables vs: every one is a data input, a parameter or a constant, *)
(* and both lists of inputs come in either order                                                *)
DivideSet(V, n) == LET vs == SetToSeq(V)
                       cls(i) == (n \div Pow3(i - 1)) % 3
                       rot(s) == IF (n \div Pow3(Len(vs))) % 2 = 0 \/ Len(s) < 2 THEN s ELSE [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
                       pick(q) == rot(SelectSeq(vs, LAMBDA v : \E i \in DOMAIN vs : vs[i] = v /\ cls(i) = q)) IN
                   <<pick(0), pick(1), SeqSet(pick(2))>>
Divisions(V) == 0 .. 2 * Pow3(Cardinality(V)) - 1
=============================================================================
