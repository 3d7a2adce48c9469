---------------------------- MODULE LawSession ----------------------------
(***************************************************************************)
(* A client constructs one distribution (or coefficient measure) and then  *)
(* queries points.  Construct is the constructor call: it succeeds exactly *)
(* on the documented parameter set.  Query is one log-density question.    *)
(* Every reachable state is an obligation for the implementation: Emit     *)
(* prints it, the harness replays it.  The invariants check the written    *)
(* laws against independent characterisations (normalisation, recurrences, *)
(* family inclusions, moments, exponential-family identity).               *)
(***************************************************************************)
EXTENDS Laws, Json

CONSTANTS Seed, Deep, Families

VARIABLES d, st, pt       \* the distribution, "none" / "ok" / "rejected", the queried point
vars == <<d, st, pt>>
NoPt == <<>>

S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
RN(i) == Dy(1 + (S(i) % 61), -(S(i + 50) % 6))            \* random positive dyadic
RP(i) == Dy(1 + 2 * (S(i) % 32), -6)                    \* random odd/64 in (0,1)
RI(i, m) == I(S(i) % m)
N == IF Deep THEN 12 ELSE 3
RandN == {RN(i) : i \in 1..N}
RandP == {RP(i) : i \in 1..N}

PosScale == {One, Half, I(3), Dy(1, -10), Dy(1, 10), Q(1, 3), Dy(5, -2)} \cup RandN
BadPos == {Zero, I(-1), Dy(-1, -30), I(-1000)}
Probs == {Half, Dy(1, -2), Dy(7, -3), Q(1, 3), Dy(1, -30), Dy(1048575, -20), Dy(1073741823, -30), Dy(1, -10), Dy(1023, -10)} \cup RandP
BadProb == {Dy(-1, -20), I(-1), Dy(1048577, -20), Two, I(100)}
Shapes == {One, Half, Two, I(3), I(4), I(5), Dy(3, -1), Dy(5, -1), Dy(1, -5), I(10), I(30), I(50), Dy(201, -1), I(150), I(200), I(1000), Q(4, 3), I(12345), Dy(1, 20)} \cup RandN
Locs == {Zero, One, I(-3), Half, Dy(1, 20), Dy(-1, -20), I(1000), Dy(-7, -2)}
Sizes == {Zero, One, Two, I(3), I(4), I(5), I(20), I(21), I(33), I(64), I(170), I(171), I(256), I(1000), I(65536), Dy(1, 30)} \cup {RI(i, 300) : i \in 20..(20 + N)}
CatVs == { <<One>>, <<Half, Half>>, <<Zero, One>>, <<One, Zero>>, <<Dy(1, -2), Zero, Dy(3, -2)>>,
           <<Dy(1, -3), Dy(3, -3), Half>>, <<Dy(1, -20), Dy(1048575, -20)>>, [i \in 1..29 |-> IF i = 1 THEN Dy(1, -28) ELSE Dy(1, i - 30)], <<Zero, Half, Zero, Half>>,
           <<Dy(1, -2), Dy(1, -2), Dy(1, -2), Dy(1, -2)>>,
           [i \in 1..16 |-> Dy(1, -4)], [i \in 1..64 |-> Dy(1, -6)],
           [i \in 1..300 |-> CASE i = 1 -> Dy(1, -2) [] i \in {257, 258} -> Dy(1, -3) [] i = 300 -> Half [] OTHER -> Zero], [i \in 1..40 |-> IF i = 40 THEN Dy(268435455, -28) ELSE IF i = 39 THEN Dy(1, -28) ELSE Zero], <<Half, Zero, Half>>, <<Q(1, 3), Q(1, 3), Q(1, 3)>> }
BadCats == { <<>>, <<Half>>, <<Half, Dy(1, -2)>>, <<One, One>>, <<Dy(3, -1), Dy(-1, -1)>>, <<Zero>>,
             <<Half, Dy(1025, -11)>>, <<Half, Dy(1023, -11)>>, <<I(-1), Two>> }

(* scales whose square leaves the number range although the density does not *)
VeryScales == {Dy(1, -600), Dy(5, -1000), Dy(1, 600), Dy(3, 1000)}
Very(e) == e.f = "normal" /\ e.p[2][3] \notin -500..500
Params(f) ==
  CASE f \in {"normal", "cauchy"} -> (Locs \X (PosScale \cup {Dy(1, -300), Dy(1, 300)})) \cup ({Zero, One} \X BadPos)
                                    \cup (IF f = "normal" THEN {Zero, One} \X VeryScales ELSE {})
    [] f \in {"studentt", "chisq"} -> {<<a>> : a \in Shapes \cup BadPos}
    [] f \in {"exponential", "poisson"} -> {<<a>> : a \in PosScale \cup BadPos \cup {Dy(1, -20), I(10), I(30), I(100), I(700), I(800), I(1000), I(12345), Dy(1, 20), Dy(1, -100)}}
    [] f \in {"gamma", "beta"} -> (Shapes \X (PosScale \ {Dy(1, 10)})) \cup (BadPos \X {One}) \cup ({One} \X BadPos)
    [] f = "bernoulli" -> {<<p>> : p \in Probs \cup BadProb \cup {Zero, One}}
    [] f = "geometric" -> {<<p>> : p \in Probs \cup BadProb \cup {Zero, One}}
    [] f = "binomial" -> (Sizes \X (Probs \cup {Zero, One})) \cup ({I(3)} \X BadProb)
    [] f = "negbin" -> ((Sizes \ {Zero}) \X Probs) \cup ({I(3)} \X (BadProb \cup {Zero, One})) \cup {<<Zero, Half>>}
    [] f = "categorical" -> CatVs \cup BadCats
    [] f = "bincoef" -> {<<n>> : n \in Sizes \cup {I(100000), Dy(1, 29)} \cup {I(i) : i \in 0..(IF Deep THEN 40 ELSE 24)}}
    [] f = "nbcoef" -> {<<n>> : n \in (Sizes \ {Zero}) \cup {I(100000), Dy(1, 29)} \cup {I(i) : i \in 1..(IF Deep THEN 40 ELSE 24)}}
    [] OTHER -> {<<>>}

RealPts == {Zero, One, I(-1), Half, I(3), Dy(-7, -1), Dy(1, -30), Dy(-1, -30), Dy(1, 20), Dy(-1, 20),
            Q(1, 3), I(5), I(8), I(-8), I(10), I(30), I(-38), I(40), I(100), I(-100), I(1000), Dy(-5, -2), Dy(3, -1), Dy(1, -200), Dy(-1, 200), Dy(1, 400),
            Dy(1, 70), Dy(-1, 120), Dy(1, 700), Dy(-1, 1000)}
           \cup RandN \cup {NNeg(RN(i + 100)) : i \in 1..N}
UnitPts == {Zero, One, I(-1), Half, I(3), Dy(1, -10), Dy(1023, -10), Q(1, 3), Dy(-1, -30), Two, Dy(1025, -10), Dy(1, -200)} \cup RandP
CountPts == {I(i) : i \in {0, 1, 2, 3, 4, 5, 7, 10, 12, 19, 20, 21, 22, 33, 34, 63, 64, 65, 99, 100, 101, 127, 128, 169, 170, 171, 255, 256, 257, 500, 999, 1000, 1001, 4096, 65535, 65536, 100000, 1000000}} \cup {RI(i, 1000) : i \in 60..(60 + N)}
SmallBelow(n) == IF n[3] > 20 \/ NInt(n) < 4 THEN {} ELSE {RI(i, NInt(n)) : i \in 70..(70 + N)}
BinPts(n) == {x \in {Zero, One, Two, I(3), I(4), I(5), I(10), I(20), I(21), NSub(n, One), NSub(n, Two), n, NAdd(n, One), NAdd(n, I(7)),
                     IF n[3] > 20 THEN Dy(1, n[3] - 1) ELSE I(NInt(n) \div 2)} \cup SmallBelow(n) : NSgn(x) >= 0}
Points(e) ==
  IF e.f = "normal" /\ e.p \in {Zero, One} \X VeryScales
  THEN (IF e.p[2][3] > 0 THEN RealPts \cup {e.p[2], NMul(I(-5), e.p[2])}
        ELSE IF e.p[1] = Zero THEN {Zero, e.p[2], NMul(I(-3), e.p[2]), Dy(7, e.p[2][3] + 20)} ELSE {e.p[1]})
  ELSE
  CASE e.f \in {"normal", "cauchy", "studentt", "stdnormal"} -> RealPts \cup {p \in {IF e.p = <<>> THEN Zero ELSE e.p[1]} : TRUE}
    [] e.f \in {"exponential", "gamma", "chisq"} -> RealPts
    [] e.f = "beta" -> UnitPts
    [] e.f = "bernoulli" -> {Zero, One, Two, I(3), I(7), I(255)}
    [] e.f \in {"binomial"} -> BinPts(e.p[1])
    [] e.f = "bincoef" -> IF e.p[1][3] <= 20 /\ NInt(e.p[1]) <= 40 THEN {I(i) : i \in 0..(NInt(e.p[1]) + 2)} ELSE BinPts(e.p[1])
    [] e.f = "nbcoef" -> CountPts \cup {Dy(1, 40)}
    [] e.f = "factorial" -> {I(i) : i \in 0..(IF Deep THEN 400 ELSE 60)} \cup CountPts \cup {I(1000), I(100000), Dy(1, 31), Dy(1, 40), Dy(1, 53)}
    [] e.f = "categorical" -> {I(i) : i \in IF Len(e.p) > 50 THEN {0, 1, 7, 31, 32, 33, 62, 63, 64, 65, 255, 256, 257, 299, 300, 301, 555, 556} ELSE 0..(Len(e.p) + 2)} \cup {Dy(1, 40)}
    [] OTHER -> CountPts

Init == d = [f |-> "none", p |-> <<>>] /\ st = "none" /\ pt = NoPt
Construct(f, p) == /\ st = "none"
                   /\ d' = D(f, p)
                   /\ st' = IF Valid(D(f, p)) THEN "ok" ELSE "rejected"
                   /\ pt' = pt
Query(x) == st = "ok" /\ pt = NoPt /\ pt' = x /\ UNCHANGED <<d, st>>
Next == \/ \E f \in Families : \E p \in Params(f) : Construct(f, p)
        \/ st = "ok" /\ \E x \in Points(d) : Query(x)
Spec == Init /\ [][Next]_vars

Asking == pt # NoPt

(* --------------------- consistency of the written laws ------------------- *)
RECURSIVE Pascal(_, _)
Pascal(n, k) == IF k = 0 \/ k = n THEN 1 ELSE IF k > n THEN 0 ELSE Pascal(n - 1, k - 1) + Pascal(n - 1, k)
Small(q) == NIsInt(q) /\ q[3] < 5 /\ NInt(q) <= 12

PmfQ(e, k) ==     \* exact probability, finite-support families
  CASE e.f = "bernoulli" -> IF k = 1 THEN e.p[1] ELSE OneMinus(e.p[1])
    [] e.f = "binomial" -> LET n == NInt(e.p[1]) IN
         NMul(I(Pascal(n, k)), NMul(NPow(e.p[2], k), NPow(OneMinus(e.p[2]), n - k)))
    [] e.f = "categorical" -> e.p[k + 1]
SuppMax(e) == CASE e.f = "bernoulli" -> 1 [] e.f = "binomial" -> NInt(e.p[1]) [] e.f = "categorical" -> Len(e.p) - 1
Small6(q) == Abs(q[1]) < 70 /\ q[2] = 1 /\ Abs(q[3]) <= 6
FiniteExact(e) == /\ e.f \in {"bernoulli", "binomial", "categorical"}
                  /\ e.f = "binomial" => e.p[1] \in {Zero, One, Two} /\ Small6(e.p[2])
                  /\ e.f = "bernoulli" => Small6(e.p[1])
                  /\ e.f = "categorical" => \A i \in DOMAIN e.p : Small6(e.p[i])

InvNormalised == st = "ok" /\ pt = NoPt /\ FiniteExact(d)
                   => NSum([k \in 1..(SuppMax(d) + 1) |-> PmfQ(d, k - 1)]) = One
InvPmf == Asking /\ FiniteExact(d) /\ InSupport(d, pt)
            => LET q == PmfQ(d, NInt(pt)) IN LEq(Law(d, pt), IF NIsZero(q) THEN NegInf ELSE LLn(One, q))
MomOf(e, name) == LET s == SelectSeq(Moments(e), LAMBDA r : r[1] = name) IN SPValue(s[1][3])
InvMoments == st = "ok" /\ pt = NoPt /\ FiniteExact(d)
   => LET ks == [k \in 1..(SuppMax(d) + 1) |-> k - 1]
          mean == NSum([i \in DOMAIN ks |-> NMul(I(ks[i]), PmfQ(d, ks[i]))])
          m2 == NSum([i \in DOMAIN ks |-> NMul(I(ks[i] * ks[i]), PmfQ(d, ks[i]))])
      IN MomOf(d, "mean") = mean /\ MomOf(d, "variance") = NSub(m2, NSq(mean))
InvPascal == Asking /\ d.f = "bincoef" /\ Small(d.p[1]) /\ InSupport(d, pt)
   => LEq(Law(d, pt), LLn(One, I(Pascal(NInt(d.p[1]), NInt(pt)))))
InvSymmetric == Asking /\ d.f = "bincoef" /\ Small(d.p[1]) /\ InSupport(d, pt)
   => LEq(Law(d, pt), Law(d, NSub(d.p[1], pt)))
InvNBCoef == Asking /\ d.f = "nbcoef" /\ Small(d.p[1]) /\ NIsInt(pt) /\ pt[3] < 4 /\ NInt(pt) <= 7
   => LEq(Law(d, pt), LLn(One, I(Pascal(NInt(d.p[1]) + NInt(pt) - 1, NInt(pt)))))
(* recurrences p(k+1)/p(k) that characterise the infinite discrete laws together with normalisation *)
CanStep == Asking /\ NIsInt(pt) /\ pt[3] < 5 /\ NInt(pt) < 25 /\ (\A i \in DOMAIN d.p : CanonicalArg(d.p[i]))
InvRecurrence ==
  /\ CanStep /\ d.f = "poisson" => LEq(LSub(Law(d, NAdd(pt, One)), Law(d, pt)),
                                      LSub(LLn(One, d.p[1]), LLn(One, NAdd(pt, One))))
  /\ CanStep /\ d.f = "negbin" /\ Small(d.p[1]) => LEq(LSub(Law(d, NAdd(pt, One)), Law(d, pt)),
                                     LAdd(LLn(One, d.p[2]), LSub(LLn(One, NAdd(pt, d.p[1])), LLn(One, NAdd(pt, One)))))
  /\ CanStep /\ d.f = "geometric" /\ InSupport(d, pt) /\ Interior(d)
       => LEq(LSub(Law(d, NAdd(pt, One)), Law(d, pt)), LLn(One, OneMinus(d.p[1])))
(* family inclusions *)
SmallX == Asking /\ CanonicalArg(pt) /\ Abs(pt[1]) < 70 /\ \A i \in DOMAIN d.p : CanonicalArg(d.p[i]) /\ Small6(d.p[i])
HalfInt(q) == q[2] = 1 /\ q[3] >= -1 /\ q[3] < 5 /\ NSgn(q) > 0
InvInclusion ==
  /\ SmallX /\ d.f = "chisq" /\ HalfInt(NMul(d.p[1], Half)) => LEq(Law(d, pt), Law(D("gamma", <<NMul(d.p[1], Half), Half>>), pt))
  /\ SmallX /\ d.f = "gamma" /\ d.p[1] = One /\ pt # Zero => LEq(Law(d, pt), Law(D("exponential", <<d.p[2]>>), pt))
  /\ SmallX /\ d.f = "studentt" /\ d.p[1] = One => LEq(Law(d, pt), Law(D("cauchy", <<Zero, One>>), pt))
  /\ SmallX /\ d.f = "normal" /\ d.p = <<Zero, One>> => LEq(Law(d, pt), Law(D("stdnormal", <<>>), pt))
  /\ SmallX /\ d.f = "beta" /\ d.p = <<One, One>> /\ InSupport(d, pt) => LEq(Law(d, pt), LL0)
  /\ Asking /\ d.f = "bernoulli" /\ Small6(d.p[1]) => LEq(Law(d, pt), Law(D("binomial", <<One, d.p[1]>>), pt))
(* the exponential-family identity *)
CanonArgs == \A i \in DOMAIN d.p : CanonicalArg(d.p[i])
GammaArgs == d.f \in {"gamma", "beta"} => \A i \in DOMAIN d.p : HalfInt(d.p[i])
ChiArgs == d.f = "chisq" => HalfInt(NMul(Half, d.p[1]))
InvExpFam == Asking /\ d.f \in ExpFam /\ Interior(d) /\ InSupport(d, pt) /\ CanonArgs /\ CanonicalArg(pt)
               /\ Abs(pt[1]) < 1000 /\ GammaArgs /\ ChiArgs /\ (d.f \in {"normal", "stdnormal", "gamma", "beta", "chisq", "exponential"} => SmallX)
             => LEq(EFForm(d, pt), Law(d, pt))
InvOffSupport == Asking /\ ~InSupport(d, pt) => Law(d, pt).ni

(* ------------------------------ obligations ----------------------------- *)
EFOk == d.f \in ExpFam /\ Interior(d) /\ ~Very(d)
Emit ==
  IF st = "none" THEN TRUE
  ELSE IF ~Asking
  THEN PrintT("@@" \o ToJson([k |-> "new", f |-> d.f, p |-> d.p, ok |-> st = "ok",
                              mom |-> IF st = "ok" /\ ~Very(d) THEN Moments(d) ELSE <<>>,
                              ef |-> IF st = "ok" /\ EFOk THEN <<EFA(d)>> ELSE <<>>]))
  ELSE PrintT("@@" \o ToJson([k |-> "at", f |-> d.f, p |-> d.p, x |-> pt, in |-> InSupport(d, pt), law |-> Law(d, pt),
                              ef |-> IF EFOk /\ InSupport(d, pt) THEN <<EFForm(d, pt)>> ELSE <<>>,
                              h |-> IF EFOk /\ InSupport(d, pt) THEN <<EFH(d, pt)>> ELSE <<>>,
                              dev |-> IF EFOk /\ d.f = "negbin" THEN <<EFDeviant(d, pt)>> ELSE <<>>]))
=============================================================================
