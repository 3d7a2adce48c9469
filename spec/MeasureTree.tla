---------------------------- MODULE MeasureTree ----------------------------
(***************************************************************************)
(* A client builds a measure with the combinators, bottom up on a stack:   *)
(* push a leaf, weight the top, re-weight it by a density function, form a *)
(* mixture of the top components, push it forward through a map, take a    *)
(* product.  A finished measure (one element left) is asked for its        *)
(* density and support at the points of its space.                         *)
(*                                                                         *)
(* Dens / Supp give the denotation as a ground term; DensL gives it a      *)
(* second time in exact log-linear arithmetic where all points stay        *)
(* rational.  The two are compared with each other as well as with the     *)
(* code.                                                                   *)
(***************************************************************************)
EXTENDS Laws, Terms, Json

CONSTANTS Seed, MaxSteps, Small

VARIABLES stack, n, mode, pts
vars == <<stack, n, mode, pts>>

S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
RN(i) == Dy(1 + (S(i) % 61), -(S(i + 50) % 6))
RP(i) == Dy(1 + 2 * (S(i) % 32), -6)
RI(i, m) == I(S(i) % m)

RealLeaves == {D("normal", <<Zero, One>>), D("exponential", <<Two>>), D("lebesgue", <<>>)} \cup
   (IF Small THEN {} ELSE
     {D("normal", <<RN(1), RN(2)>>), D("cauchy", <<NNeg(RN(3)), RN(4)>>), D("gamma", <<RN(5), RN(6)>>),
      D("beta", <<Two, RN(7)>>), D("chisq", <<I(3)>>), D("studentt", <<RN(8)>>), D("beta", <<Half, Half>>)})
CountLeaves == {D("poisson", <<Two>>), D("binomial", <<I(4), Dy(1, -2)>>)} \cup
   (IF Small THEN {} ELSE
     {D("geometric", <<RP(9)>>), D("geometric", <<One>>), D("negbin", <<I(3), RP(10)>>), D("binomial", <<RI(11, 20), RP(12)>>),
      D("binomial", <<I(2), One>>), D("factorial", <<>>), D("bincoef", <<I(6)>>), D("counting", <<>>)})
LogWeights == IF Small THEN {Dy(-3, -1)} ELSE {Zero, Dy(-3, -1), RN(13), I(-20), I(50)}
Polys == IF Small THEN {<<One, Half, Dy(-1, -2)>>} ELSE {<<One, Half, Dy(-1, -2)>>, <<Zero, I(-1), Zero>>, <<RN(14), Zero, Zero>>, <<Zero, Dy(1, -3), Dy(-1, -4)>>}
Weights == {<<One>>, <<Half, Half>>, <<Zero, One>>, <<One, Zero>>, <<Dy(1, -2), Dy(3, -2)>>, <<Dy(1, -2), Zero, Dy(3, -2)>>} \cup
   (IF Small THEN {} ELSE {<<Dy(1, -10), Dy(1023, -10)>>, <<RP(15), OneMinus(RP(15))>>, <<Half, Dy(1, -2), Dy(1, -2)>>, <<Zero, Zero, One>>})
BadWeights == {<<Half, Dy(1, -2)>>, <<Dy(3, -1), Dy(-1, -1)>>, <<One, Half>>, <<Zero, Zero>>, <<Half>>, <<Two>>,
               <<Half, Dy(1025, -11)>>, <<Half, Half, Half>>, <<One, One, I(-1)>>, <<Dy(1, -2), Dy(1, -2), Dy(1, -2)>>}
Mismatch == {<<Half, Half>>, <<One>>, <<Dy(1, -2), Dy(1, -2), Half>>}
Maps == IF Small THEN {[t |-> "lin", a |-> I(-2), b |-> Half], [t |-> "exp"], [t |-> "log"], [t |-> "logit"]}
        ELSE {[t |-> "lin", a |-> I(-2), b |-> Half], [t |-> "lin", a |-> Dy(1, -3), b |-> I(3)], [t |-> "own"], [t |-> "exp"], [t |-> "log"], [t |-> "logit"]}
Routes == {"new", "ext", "macro"}

SortOf(t) == t.sort
Nd(sort, k, rest, rat, dens) == [sort |-> sort, k |-> k, rat |-> rat, dens |-> dens, r |-> rest]
(* ------------------------------ denotation ------------------------------ *)
RECURSIVE Coords(_, _)
Coords(sort, x) == CASE sort \in {"R", "C"} -> <<x>>
                     [] sort \in {"RR", "RC", "CR", "CC"} -> <<x[1], x[2]>>
                     [] sort = "RRC" -> <<x[1][1], x[1][2], x[2]>>
                     [] OTHER -> <<x[1], x[2][1], x[2][2]>>
TPoly(k, cs) == TAdd(TQ(k[1]), TAdd(TMul(TQ(k[2]), TSum(cs)), TMul(TQ(k[3]), TSum([i \in DOMAIN cs |-> TSq(cs[i])]))))
NPoly(k, cs) == NAdd(k[1], NAdd(NMul(k[2], NSum(cs)), NMul(k[3], NSum([i \in DOMAIN cs |-> NSq(cs[i])]))))

(* laws at a term point *)
Ln2Pi == TLL(LAdd(LLn(One, Two), LPi(One)))
TLawIn(d, x) ==
  LET p == d.p IN
  CASE d.f = "normal" -> TSub(TNeg(TMul(TQ(Half), Ln2Pi)), TAdd(TLL(LLn(One, p[2])), TMul(TQ(Half), TSq(TDiv(TSub(x, TQ(p[1])), TQ(p[2]))))))
    [] d.f = "cauchy" -> TNeg(TAdd(TLL(LAdd(LPi(One), LLn(One, p[2]))), TLn(TAdd(TOne, TSq(TDiv(TSub(x, TQ(p[1])), TQ(p[2])))))))
    [] d.f = "studentt" -> LET h == NMul(p[1], Half) IN
         TSub(TLL(LSum(<<LLg(One, NAdd(h, Half)), LLg(I(-1), h), LLn(NNeg(Half), p[1]), LPi(NNeg(Half))>>)),
              TMul(TQ(NAdd(h, Half)), TLn(TAdd(TOne, TDiv(TSq(x), TQ(p[1]))))))
    [] d.f = "gamma" -> TAdd(TLL(LSub(LLn(p[1], p[2]), LLg(One, p[1]))), TSub(TMul(TQ(NSub(p[1], One)), TLn(x)), TMul(TQ(p[2]), x)))
    [] d.f = "chisq" -> LET h == NMul(p[1], Half) IN
         TAdd(TLL(LSub(LLn(NNeg(h), Two), LLg(One, h))), TSub(TMul(TQ(NSub(h, One)), TLn(x)), TMul(TQ(Half), x)))
    [] d.f = "exponential" -> TSub(TLL(LLn(One, p[1])), TMul(TQ(p[1]), x))
    [] d.f = "beta" -> TAdd(TLL(LSum(<<LLg(One, NAdd(p[1], p[2])), LLg(I(-1), p[1]), LLg(I(-1), p[2])>>)),
                            TAdd(TMul(TQ(NSub(p[1], One)), TLn(x)), TMul(TQ(NSub(p[2], One)), TLn(TSub(TOne, x)))))
    [] d.f = "lebesgue" -> TZero
TInSupport(d, x) ==
  CASE d.f = "exponential" -> CLe(TZero, x)
    [] d.f \in {"gamma", "chisq"} -> CLt(TZero, x)
    [] d.f = "beta" -> CAnd(CLt(TZero, x), CLt(x, TOne))
    [] OTHER -> CTrue

Inv(m, y) == CASE m.t = "lin" -> TDiv(TSub(y, TQ(m.b)), TQ(m.a))
               [] m.t = "own" -> TDiv(TSub(TOne, y), TQ(I(4)))
               [] m.t = "exp" -> TLn(y)
               [] m.t = "log" -> TExp(y)
               [] m.t = "logit" -> TDiv(TOne, TAdd(TOne, TExp(TNeg(y))))
LogJac(m, y) == CASE m.t = "lin" -> TLL(LLn(I(-1), IF NSgn(m.a) < 0 THEN NNeg(m.a) ELSE m.a))
                  [] m.t = "own" -> TLL(LLn(I(-1), I(4)))
                  [] m.t = "exp" -> TNeg(TLn(y))
                  [] m.t = "log" -> y
                  [] m.t = "logit" -> TNeg(TAdd(y, TMul(TQ(Two), TLn(TAdd(TOne, TExp(TNeg(y)))))))
Image(m, y) == IF m.t = "exp" THEN CLt(TZero, y) ELSE CTrue
Fwd(m, x) == CASE m.t = "lin" -> TAdd(TMul(TQ(m.a), x), TQ(m.b))
               [] m.t = "exp" -> TExp(x)
               [] m.t = "log" -> TLn(x)
               [] m.t = "logit" -> TSub(TLn(x), TLn(TSub(TOne, x)))

(* x: a term for sort R, a Num for sort C, pairs of these for products *)
RECURSIVE Dens(_, _), Supp(_, _)
Terms2(sort, x) == LET cs == Coords(sort, x) IN
   [i \in DOMAIN cs |-> IF sort \in {"C", "CC"} \/ (sort = "RC" /\ i = 2) \/ (sort = "CR" /\ i = 1)
                           \/ (sort \in {"RRC", "R.RC"} /\ i = 3) THEN TQ(cs[i]) ELSE cs[i]]
Dens(t, x) ==
  CASE t.k = "leaf" -> IF t.sort = "C" THEN TLL(Law(t.r, x)) ELSE TIf(TInSupport(t.r, x), TLawIn(t.r, x), TNInf)
    [] t.k = "w" -> TAdd(TQ(t.r.c), Dens(t.r.m, x))
    [] t.k = "int" -> TAdd(TPoly(t.r.c, Terms2(t.sort, x)), Dens(t.r.m, x))
    [] t.k = "mix" -> TLse([i \in DOMAIN t.r.ms |-> IF NIsZero(t.r.ws[i]) THEN TNInf ELSE TAdd(TLL(LLn(One, t.r.ws[i])), Dens(t.r.ms[i], x))])
    [] t.k = "push" -> TIf(Image(t.r.t, x), TTouch(Inv(t.r.t, x), TAdd(Dens(t.r.m, Inv(t.r.t, x)), LogJac(t.r.t, x))), TNInf)
    [] t.k = "prod" -> TAdd(Dens(t.r.a, x[1]), Dens(t.r.b, x[2]))
    [] OTHER -> TNInf
Bool(b) == IF b THEN CTrue ELSE CFalse
Supp(t, x) ==
  CASE t.k = "leaf" -> IF t.sort = "C" THEN Bool(InSupport(t.r, x)) ELSE TInSupport(t.r, x)
    [] t.k \in {"w", "int"} -> Supp(t.r.m, x)
    [] t.k = "mix" -> FoldSeq(LAMBDA i, acc : COr(Supp(t.r.ms[i], x), acc), CFalse,
                              SelectSeq([i \in DOMAIN t.r.ms |-> i], LAMBDA i : ~NIsZero(t.r.ws[i])))
    [] t.k = "push" -> CAnd(Image(t.r.t, x), Supp(t.r.m, Inv(t.r.t, x)))
    [] t.k = "prod" -> CAnd(Supp(t.r.a, x[1]), Supp(t.r.b, x[2]))
    [] t.k = "dirac" -> LET c == Coords(t.sort, t.r.x)
                            y == Terms2(t.sort, x)
                        IN FoldSeq(LAMBDA i, acc : CAnd(CEq(TQ(c[i]), y[i]), acc), CTrue, [i \in DOMAIN c |-> i])

(* the same denotation in exact arithmetic, for trees whose maps are rational *)
RECURSIVE DensL(_, _)
InvN(m, y) == IF m.t = "own" THEN NDiv(NSub(One, y), I(4)) ELSE NDiv(NSub(y, m.b), m.a)
DensL(t, x) ==
  CASE t.k = "leaf" -> Law(t.r, x)
    [] t.k = "w" -> LAdd(LC(t.r.c), DensL(t.r.m, x))
    [] t.k = "int" -> LAdd(LC(NPoly(t.r.c, Coords(t.sort, x))), DensL(t.r.m, x))
    [] t.k = "mix" -> LLse([i \in DOMAIN t.r.ms |-> IF NIsZero(t.r.ws[i]) THEN NegInf ELSE LAdd(LLn(One, t.r.ws[i]), DensL(t.r.ms[i], x))])
    [] t.k = "push" -> LAdd(DensL(t.r.m, InvN(t.r.t, x)), LLn(I(-1), IF t.r.t.t = "own" THEN I(4) ELSE IF NSgn(t.r.t.a) < 0 THEN NNeg(t.r.t.a) ELSE t.r.t.a))
    [] t.k = "prod" -> LAdd(DensL(t.r.a, x[1]), DensL(t.r.b, x[2]))

(* points as terms *)
RECURSIVE AsTerm(_, _)
AsTerm(sort, x) == CASE sort = "R" -> TQ(x)
                     [] sort = "C" -> x
                     [] sort = "RR" -> <<TQ(x[1]), TQ(x[2])>>
                     [] sort = "RC" -> <<TQ(x[1]), x[2]>>
                     [] sort = "CR" -> <<x[1], TQ(x[2])>>
                     [] sort = "CC" -> x
                     [] sort = "RRC" -> <<AsTerm("RR", x[1]), x[2]>>
                     [] sort = "R.RC" -> <<TQ(x[1]), AsTerm("RC", x[2])>>
                     [] sort = "R.RR" -> <<TQ(x[1]), AsTerm("RR", x[2])>>

(* -------------------------------- points -------------------------------- *)
RP1 == IF Small THEN <<Zero, Half, I(-1), Two>> ELSE <<Zero, Half, I(-1), Two, RP(20), RN(21), NNeg(RP(22)), One, Dy(3, -2)>>
CP1 == IF Small THEN <<Zero, Two, I(5)>> ELSE <<Zero, One, Two, I(5), RI(23, 30)>>
Cart(a, b) == [i \in 1..(Len(a) * Len(b)) |-> <<a[1 + ((i - 1) % Len(a))], b[1 + ((i - 1) \div Len(a))]>>]
RS == <<Half, I(-1), Zero>>
CS == <<Zero, Two, I(5)>>
PointsOf(sort) == CASE sort = "R" -> RP1 [] sort = "C" -> CP1
                    [] sort = "RR" -> Cart(RS, RS) [] sort = "RC" -> Cart(RS, CS) [] sort = "CR" -> Cart(CS, RS)
                    [] sort = "CC" -> Cart(CS, CS) [] sort = "RRC" -> Cart(Cart(<<Half, I(-1)>>, RS), CS)
                    [] sort = "R.RC" -> Cart(RS, Cart(<<Half, I(-1)>>, CS))
                    [] sort = "R.RR" -> Cart(<<Half, RN(21)>>, Cart(<<I(-1), One, RP(20)>>, RS))

(* -------------------------------- actions ------------------------------- *)
Building == mode = "run" /\ n < MaxSteps
MaxDepth == IF Small THEN 2 ELSE 3
Top(k) == stack[Len(stack) - k]
Cut(k) == SubSeq(stack, 1, Len(stack) - k)
PushT(s, t) == stack' = Append(s, t) /\ n' = n + 1 /\ UNCHANGED <<mode, pts>>
Leaf(sort, d) == Building /\ Len(stack) < MaxDepth /\ PushT(stack, Nd(sort, "leaf", d, TRUE, TRUE))
Dirac(sort, x) == Building /\ Len(stack) < MaxDepth /\ PushT(stack, Nd(sort, "dirac", [x |-> x], TRUE, FALSE))
Weight(c) == Building /\ stack # <<>> /\ LET t == Top(0) IN t.dens /\ PushT(Cut(1), Nd(t.sort, "w", [c |-> c, m |-> t], t.rat, TRUE))
Integral(c) == Building /\ stack # <<>> /\ LET t == Top(0) IN t.dens /\ PushT(Cut(1), Nd(t.sort, "int", [c |-> c, m |-> t], t.rat, TRUE))
Comps(k) == SubSeq(stack, Len(stack) - k + 1, Len(stack))
SameSort(k) == Len(stack) >= k /\ \A i \in 0..(k - 1) : Top(i).sort = Top(0).sort /\ Top(i).dens
(* MixtureExt normalises two weights by their sum; uniform ignores weights *)
Norm(ws) == LET s == NSum(ws) IN [i \in DOMAIN ws |-> NDiv(ws[i], s)]
Mix(ws, route) ==
  LET k == Len(ws) IN
  /\ Building /\ SameSort(k)
  /\ PushT(Cut(k), Nd(Top(0).sort, "mix", [ms |-> Comps(k), route |-> route, given |-> ws,
                       ws |-> IF route = "uniform" THEN [i \in 1..k |-> Q(1, k)] ELSE ws], \A i \in 0..(k - 1) : Top(i).rat, TRUE))
MixExt(ws) == /\ Building /\ SameSort(2) /\ Len(ws) = 2 /\ ~NIsZero(NSum(ws))
              /\ PushT(Cut(2), Nd(Top(0).sort, "mix", [ms |-> Comps(2), route |-> "ext", given |-> ws, ws |-> Norm(ws)], Top(0).rat /\ Top(1).rat, TRUE))
(* many components: all like the one below the top, but for the one at place j, which is the top *)
Wide(k, j, uniform) ==
  LET odd(i) == i = j
      ws == [i \in 1..k |-> IF uniform THEN Q(1, k) ELSE IF odd(i) THEN Half ELSE NDiv(Half, I(k - 1))] IN
  /\ Building /\ SameSort(2)
  /\ PushT(Cut(2), Nd(Top(0).sort, "mix", [ms |-> [i \in 1..k |-> IF odd(i) THEN Top(0) ELSE Top(1)], route |-> IF uniform THEN "uniform" ELSE "new",
                                           given |-> ws, ws |-> ws], Top(0).rat /\ Top(1).rat, TRUE))
(* a mixture that must be refused: wrong sum, a negative weight, or another number of weights than components *)
BadMix(ws, k) == /\ Building /\ k > 0 /\ SameSort(k) /\ mode' = "rejected" /\ n' = n + 1 /\ pts' = pts
                 /\ stack' = Append(Cut(k), Nd(Top(0).sort, "mix", [ms |-> Comps(k), route |-> "new", given |-> ws, ws |-> ws], TRUE, TRUE))
Push(m, route) == /\ Building /\ stack # <<>> /\ Top(0).sort = "R" /\ Top(0).dens
                  /\ PushT(Cut(1), Nd("R", "push", [t |-> m, m |-> Top(0), route |-> route], Top(0).rat /\ m.t \in {"lin", "own"}, TRUE))
ProdSort(a, b) == CASE a \in {"R", "C"} /\ b \in {"R", "C"} -> a \o b
                    [] a = "RR" /\ b = "C" -> "RRC" [] a = "R" /\ b = "RC" -> "R.RC"
                    [] a = "R" /\ b = "RR" -> "R.RR" [] OTHER -> "none"
Prod(route) == /\ Building /\ Len(stack) >= 2 /\ ProdSort(Top(1).sort, Top(0).sort) # "none"
               /\ PushT(Cut(2), Nd(ProdSort(Top(1).sort, Top(0).sort), "prod", [a |-> Top(1), b |-> Top(0), route |-> route],
                                   Top(0).rat /\ Top(1).rat, Top(0).dens /\ Top(1).dens))
(* three real measures at once, written as one macro call: the product nests to the right *)
Prod3 == /\ Building /\ Len(stack) >= 3 /\ \A i \in 0..2 : Top(i).sort = "R"
         /\ LET rat == Top(0).rat /\ Top(1).rat  dens == Top(0).dens /\ Top(1).dens
                bc == Nd("RR", "prod", [a |-> Top(1), b |-> Top(0), route |-> "macro"], rat, dens) IN
            PushT(Cut(3), Nd("R.RR", "prod", [a |-> Top(2), b |-> bc, route |-> "macro"], rat /\ Top(2).rat, dens /\ Top(2).dens))
Finish == /\ mode = "run" /\ Len(stack) = 1 /\ (Small \/ n >= MaxSteps - 3)
          /\ mode' = "done" /\ pts' = PointsOf(stack[1].sort) /\ UNCHANGED <<stack, n>>

Init == stack = <<>> /\ n = 0 /\ mode = "run" /\ pts = <<>>
RoutesIn == IF Small THEN {"new"} ELSE Routes
Next == \/ \E d \in RealLeaves : Leaf("R", d)
        \/ \E d \in CountLeaves : Leaf("C", d)
        \/ ~Small /\ Prod3
        \/ ~Small /\ (Dirac("R", Half) \/ Dirac("C", Two) \/ Dirac("RC", <<Half, Two>>))
        \/ \E c \in LogWeights : Weight(c)
        \/ \E c \in Polys : Integral(c)
        \/ \E ws \in Weights : \E r \in RoutesIn \ {"ext"} : Mix(ws, r)
        \/ Mix(<<Half, Half>>, "uniform") \/ Mix(<<Half, Half, Half>>, "uniform")
        \/ \E ws \in {<<Half, Half>>, <<I(3), One>>, <<Zero, Two>>, <<Dy(1, -4), Dy(3, -2)>>} : MixExt(ws)
        \/ ~Small /\ ((\E j \in {1, 9, 17} : Wide(17, j, FALSE)) \/ Wide(10, 10, TRUE))
        \/ \E ws \in BadWeights : BadMix(ws, Len(ws))
        \/ \E ws \in Mismatch : \E k \in 1..3 : k # Len(ws) /\ BadMix(ws, k)
        \/ \E m \in Maps : \E r \in {"new", "ext"} : Push(m, r)
        \/ \E r \in RoutesIn : Prod(r)
        \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------ invariants ------------------------------ *)
RECURSIVE WellSorted(_)
WellSorted(t) == CASE t.k = "mix" -> \A i \in DOMAIN t.r.ms : t.r.ms[i].sort = t.sort /\ WellSorted(t.r.ms[i])
                   [] t.k \in {"w", "int"} -> t.r.m.sort = t.sort /\ WellSorted(t.r.m)
                   [] t.k = "push" -> t.sort = "R" /\ t.r.m.sort = "R"
                   [] t.k = "prod" -> ProdSort(t.r.a.sort, t.r.b.sort) = t.sort
                   [] OTHER -> TRUE
TypeOK == \A i \in DOMAIN stack : WellSorted(stack[i])
RECURSIVE Admissible(_)
Admissible(t) == CASE t.k = "mix" -> /\ Len(t.r.ms) = Len(t.r.ws) /\ NSum(t.r.ws) = One
                                     /\ \A i \in DOMAIN t.r.ws : NSgn(t.r.ws[i]) >= 0
                                     /\ \A i \in DOMAIN t.r.ms : Admissible(t.r.ms[i])
                   [] t.k \in {"w", "int", "push"} -> Admissible(t.r.m)
                   [] t.k = "prod" -> Admissible(t.r.a) /\ Admissible(t.r.b)
                   [] OTHER -> TRUE
InvAdmissible == (mode = "rejected") = (\E i \in DOMAIN stack : ~Admissible(stack[i]))
(* laws of the algebra, on every finished rational tree *)
Judge == mode = "done" /\ stack[1].rat /\ stack[1].dens
Tr == stack[1]
Wt(c, t) == Nd(t.sort, "w", [c |-> c, m |-> t], t.rat, TRUE)
Mx(ws, ms) == Nd(ms[1].sort, "mix", [ms |-> ms, route |-> "new", given |-> ws, ws |-> ws], TRUE, TRUE)
InvWeights == Judge => \A i \in DOMAIN pts : DensL(Wt(Half, Wt(I(-1), Tr)), pts[i]).ni = DensL(Wt(Dy(-1, -1), Tr), pts[i]).ni
InvMixTrivial == Judge => \A i \in DOMAIN pts : DensL(Mx(<<One>>, <<Tr>>), pts[i]) = DensL(Tr, pts[i])
InvMixZero == Judge => \A i \in DOMAIN pts : DensL(Mx(<<Zero, One>>, <<Tr, Tr>>), pts[i]) = DensL(Tr, pts[i])
(* a density is positive on (at least) the support of its components: finite mixture as soon as one component is *)
InvMixFinite == Judge /\ Tr.k = "mix" => \A i \in DOMAIN pts :
    DensL(Tr, pts[i]).ni = (\A j \in DOMAIN Tr.r.ms : NIsZero(Tr.r.ws[j]) \/ DensL(Tr.r.ms[j], pts[i]).ni)

Emit == mode \in {"done", "rejected"} =>
  LET t == stack[Len(stack)] IN
  PrintT("@@" \o ToJson([sort |-> t.sort, tree |-> t, ok |-> mode = "done",
     pts |-> IF mode = "rejected" THEN <<>>
             ELSE [i \in DOMAIN pts |-> [x |-> pts[i],
                    d |-> IF t.dens THEN <<Dens(t, AsTerm(t.sort, pts[i]))>> ELSE <<>>,
                    l |-> IF t.dens /\ t.rat THEN <<DensL(t, pts[i])>> ELSE <<>>,
                    s |-> Supp(t, AsTerm(t.sort, pts[i]))]]]))
=============================================================================
