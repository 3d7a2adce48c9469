------------------------------- MODULE Decomp -------------------------------
(***************************************************************************)
(* A structured log-density under construction: data, parameter, mixed and *)
(* constant terms are added one at a time, through the fluent builder or   *)
(* directly (a builder may be finished early and extended directly).  The  *)
(* terms come from a small library of functions, some of which are minus   *)
(* infinity (a point outside the support, a degenerate parameter): then so *)
(* is every sum they enter, except that of an empty sample, which is zero. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, LogLin, Json

CONSTANTS Seed, MaxTerms, Small

VARIABLES start, built, terms, ops, done
vars == <<start, built, terms, ops, done>>

S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
Cst(i) == Dy((S(i) % 61) - 30, -(S(i + 5) % 4))
Xs == <<Half, I(-2), I(3), Zero, Cst(1)>>
Ths == <<I(2), Dy(-3, -1), Cst(2)>>

NInf == <<-1, 0, 0>>                \* minus infinity; no other value has a zero denominator
Infinite(a) == a[2] = 0
XAdd(a, b) == IF Infinite(a) \/ Infinite(b) THEN NInf ELSE NAdd(a, b)
XSum(as) == FoldSeq(XAdd, Zero, as)
Times(n, a) == IF NIsZero(n) THEN Zero ELSE IF Infinite(a) THEN NInf ELSE NMul(n, a)

DataF(k, x) == CASE k = 1 -> x [] k = 2 -> NMul(x, x) [] k = 3 -> One [] k = 4 -> NNeg(x)
                 [] k = 5 -> IF NSgn(x) < 0 THEN NInf ELSE Zero
MixF(k, x, t) == CASE k = 1 -> NMul(x, t) [] k = 2 -> NSq(NSub(x, t)) [] k = 3 -> NAdd(x, NAdd(t, t)) [] k = 4 -> NNeg(NMul(NSq(x), t))
                   [] k = 5 -> IF NSgn(NSub(x, t)) > 0 THEN NInf ELSE One
Val(e, x, t) == CASE e.c = "data" -> DataF(e.n, x) [] e.c = "param" -> DataF(e.n, t) [] e.c = "mixed" -> MixF(e.n, x, t) [] e.c = "const" -> e.v
Of(c) == SelectSeq(terms, LAMBDA e : e.c = c)
Sum(ts, x, t) == XSum([i \in DOMAIN ts |-> Val(ts[i], x, t)])
Evaluate(x, t) == Sum(terms, x, t)
Iid(xs, t) == XSum([i \in DOMAIN xs |-> Evaluate(xs[i], t)])
N(xs) == I(Len(xs))
(* the way the decomposition is meant to be used *)
IidFast(xs, t) == XSum(<<XSum([i \in DOMAIN xs |-> XAdd(Sum(Of("data"), xs[i], t), Sum(Of("mixed"), xs[i], t))]),
                         Times(N(xs), Sum(Of("param"), Zero, t)), Times(N(xs), Sum(Of("const"), Zero, Zero))>>)

Init == start \in {"builder", "builder-default", "direct", "direct-default"} /\ built = FALSE /\ terms = <<>> /\ ops = <<>> /\ done = FALSE
Add(e) == /\ ~done /\ Len(terms) < MaxTerms /\ terms' = Append(terms, e) /\ ops' = Append(ops, e) /\ UNCHANGED <<start, built, done>>
Build == /\ ~done /\ ~built /\ built' = TRUE /\ ops' = Append(ops, [c |-> "build", n |-> 0]) /\ UNCHANGED <<start, terms, done>>
Finish == ~done /\ (Small \/ Len(terms) >= MaxTerms - 4) /\ done' = TRUE /\ UNCHANGED <<start, built, terms, ops>>
Ks == IF Small THEN {1, 5} ELSE 1..5
Consts == IF Small THEN {Half, NInf} ELSE {Half, Cst(3), I(-7), Zero, NInf}
Next == \/ \E c \in {"data", "param", "mixed"} : \E k \in Ks : Add([c |-> c, n |-> k])
        \/ \E v \in Consts : Add([c |-> "const", n |-> 0, v |-> v])
        \/ Build \/ Finish
Spec == Init /\ [][Next]_vars

InvParts == done => \A i \in DOMAIN Xs, j \in DOMAIN Ths :
   Evaluate(Xs[i], Ths[j]) = XSum(<<Sum(Of("data"), Xs[i], Zero), Sum(Of("param"), Zero, Ths[j]), Sum(Of("mixed"), Xs[i], Ths[j]), Sum(Of("const"), Zero, Zero)>>)
InvIid == done => \A n \in 0..Len(Xs), j \in DOMAIN Ths : Iid(SubSeq(Xs, 1, n), Ths[j]) = IidFast(SubSeq(Xs, 1, n), Ths[j])
InvConcat == done => \A n \in 0..Len(Xs) : Iid(Xs, Ths[1]) = XAdd(Iid(SubSeq(Xs, 1, n), Ths[1]), Iid(SubSeq(Xs, n + 1, Len(Xs)), Ths[1]))
InvOne == done => \A i \in DOMAIN Xs : Iid(<<Xs[i]>>, Ths[1]) = Evaluate(Xs[i], Ths[1])
InvEmpty == done => \A j \in DOMAIN Ths : Iid(<<>>, Ths[j]) = Zero
InvReverse == done => Sum(Reverse(terms), Xs[1], Ths[1]) = Evaluate(Xs[1], Ths[1])
(* a sample far longer than any batch *)
Long(n) == [i \in 1..n |-> Xs[1 + (i % 4)]]
Rounds(q) == Times(I(q), Iid(Long(4), Ths[1]))          \* the sample of 4 q points
InvLong == done => Rounds(37) = Iid(Long(148), Ths[1])
(* more points than a 16-bit count holds *)
Longest == IF Small /\ Len(terms) = 2 /\ start \in {"builder", "direct"} THEN <<<<70000, Rounds(17500)>>>> ELSE <<>>
TypeOK == Len(terms) <= MaxTerms /\ Len(ops) = Len(terms) + (IF built THEN 1 ELSE 0)

Emit == done => PrintT("@@" \o ToJson([start |-> start, ops |-> ops, xs |-> Xs, th |-> Ths,
   sizes |-> <<Len(Of("data")), Len(Of("param")), Len(Of("mixed")), Len(Of("const"))>>,
   eval |-> [j \in DOMAIN Ths |-> [i \in DOMAIN Xs |-> Evaluate(Xs[i], Ths[j])]],
   data |-> [i \in DOMAIN Xs |-> Sum(Of("data"), Xs[i], Zero)],
   param |-> [j \in DOMAIN Ths |-> Sum(Of("param"), Zero, Ths[j])],
   const |-> Sum(Of("const"), Zero, Zero),
   iid |-> [j \in DOMAIN Ths |-> [n \in 1..(Len(Xs) + 1) |-> Iid(SubSeq(Xs, 1, n - 1), Ths[j])]],
   long |-> <<<<17, Iid(Long(17), Ths[1])>>, <<70, Iid(Long(70), Ths[1])>>, <<150, Iid(Long(150), Ths[1])>>>> \o Longest]))
=============================================================================
