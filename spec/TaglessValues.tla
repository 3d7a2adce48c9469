---------------------------- MODULE TaglessValues ----------------------------
(***************************************************************************)
(* Helpers of the tagless layers that work on plain numbers: polynomials   *)
(* in whole-number types, and the densities, dot products and sums that    *)
(* the specialised interpreters offer directly.                            *)
(***************************************************************************)
EXTENDS LogLin, Terms, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANT Seed
VARIABLE b
S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
RN(i) == Dy(1 + (S(i) % 61), -(S(i + 50) % 6))
RS(i) == IF S(i + 99) % 2 = 0 THEN RN(i) ELSE NNeg(RN(i))
B(k, p, q, want) == [k |-> k, p |-> p, q |-> q, want |-> want]
LL(v) == TLL(v)

(* whole numbers: exact *)
Whole == <<<<>>, <<I(7)>>, <<I(0), I(1)>>, <<I(3), I(-2)>>, <<I(5), I(0), I(-3)>>, <<I(1), I(1), I(1), I(1)>>, <<I(-2), I(4), I(0), I(0), I(9)>>, <<I(0), I(0), I(0), I(0), I(0), I(1)>>,
           <<I(1 + (S(1) % 9)), I((S(2) % 9)), I((S(3) % 9) - 4), I(S(4) % 9)>>>>
PSum(cs, x) == NSum([i \in DOMAIN cs |-> NMul(cs[i], NPow(x, i - 1))])
DSum(cs, x) == NSum([i \in 1 .. Len(cs) - 1 |-> NMul(NMul(I(i), cs[i + 1]), NPow(x, i - 1))])
RECURSIVE Prod(_, _)
Prod(rs, x) == IF rs = <<>> THEN One ELSE NMul(NSub(x, Head(rs)), Prod(Tail(rs), x))
IntItem(i, j, k) == LET x == I((<<0, 1, -1, 2, -3>>)[j]) c == Whole[i] IN
   CASE k = 1 -> B("poly", c, <<x>>, TQ(PSum(c, x))) [] k = 2 -> B("dpoly", c, <<x>>, TQ(DSum(c, x)))
     [] k = 3 -> B("roots", c, <<x>>, TQ(Prod(c, x))) [] k = 4 -> B("polyx", c, <<x>>, TQ(PSum(c, x)))

(* many coefficients, mostly zeros, at points where no power grows; the roots all a unit away *)
LongLens == <<17, 33, 65, 129, 131, 257, 301, 520>>
LongCs(n) == [i \in 1 .. n |-> IF i = n \/ i % 64 = 1 \/ S(i + n) % 37 = 0 THEN I(1 + (S(i) % 9)) ELSE Zero]
LongRoots(n, x) == [i \in 1 .. n |-> I(x + (IF S(i + n) % 2 = 0 THEN 1 ELSE -1))]
LongItem(n, j, k) == LET xi == (<<0, 1, -1>>)[j] x == I(xi) c == LongCs(n) IN
   CASE k = 1 -> B("poly", c, <<x>>, TQ(PSum(c, x))) [] k = 2 -> B("dpoly", c, <<x>>, TQ(DSum(c, x)))
     [] k = 3 -> B("roots", LongRoots(n, xi), <<x>>, TQ(Prod(LongRoots(n, xi), x))) [] k = 4 -> B("polyx", c, <<x>>, TQ(PSum(c, x)))

(* densities offered on plain numbers *)
Half2Pi == LAdd(LLn(Half, Two), LPi(Half))
SqDev(x, mu, sd) == LET w == NDiv(NNeg(Half), NSq(sd)) IN LSum(<<LC(NMul(w, NSq(x))), LC(NMul(w, NMul(I(-2), NMul(x, mu)))), LC(NMul(w, NSq(mu)))>>)
Normal(x, mu, sd) == LL(LSum(<<LNegate(Half2Pi), LLn(I(-1), sd), SqDev(x, mu, sd)>>))
Expo(x, r) == IF NSgn(x) < 0 THEN TNInf ELSE LL(LAdd(LLn(One, r), LC(NNeg(NMul(r, x)))))
Gamma(x, a, r) == IF NSgn(x) <= 0 THEN TNInf
                  ELSE LL(LSum(<<LLn(a, r), LLg(I(-1), a), LLn(NSub(a, One), x), LC(NNeg(NMul(r, x)))>>))
Pts == <<Zero, One, I(-1), Half, I(3), RS(11), RN(12), Dy(1, -20), I(-40), I(100)>>
PosPar == <<One, Half, I(2), RN(13), I(12), I(13), Dy(25, -1), I(40), I(1000), Dy(1, -8)>>
DensItem(i, j, k) ==
   LET x == Pts[i] r == PosPar[j] m == Pts[1 + ((i + j) % Len(Pts))] a == PosPar[1 + ((i + 3 * j) % Len(PosPar))] IN
   CASE k = 1 -> B("normal", <<m, r>>, <<x>>, Normal(x, m, r)) [] k = 2 -> B("exponential", <<r>>, <<x>>, Expo(x, r))
     [] k = 3 -> B("gamma", <<a, r>>, <<x>>, Gamma(x, a, r)) [] k = 4 -> B("gamma", <<r, a>>, <<x>>, Gamma(x, r, a))
LgPts == PosPar \o <<I(3), I(11), Dy(49, -2), Dy(97, -3), I(20), I(170), I(171), I(172), I(100000), Dy(1, 40), Dy(1, -40), Dy(95, -3)>>
Lgs == [i \in DOMAIN LgPts |-> B("lgamma", <<>>, <<LgPts[i]>>, LL(LLg(One, LgPts[i])))]

(* vectors *)
Vec(n, k) == [i \in 1 .. n |-> RS(20 + 7 * k + i)]
Dots == [n \in 1 .. 7 |-> LET u == Vec(n - 1, 1) v == Vec(n - 1, 5) IN B("dotarr", u, v, TSum([i \in 1 .. n - 1 |-> TMul(TQ(u[i]), TQ(v[i]))]))]
(* every pattern of zeros among parameters and statistics *)
Trits == <<Zero, I(3), I(-2)>>
MaskVec(n, m, k) == [i \in 1 .. n |-> LET t == Trits[1 + ((m \div (3 ^ (i - 1))) % 3)] IN IF t = Zero THEN Zero ELSE NAdd(t, I(k * i))]
Masked(n, m, l) == LET u == MaskVec(n, m, 4) v == MaskVec(n, l, 7) IN B("dotarr", u, v, TSum([i \in 1 .. n |-> TMul(TQ(u[i]), TQ(v[i]))]))
(* the sums of n lists of d numbers, one item per component; p holds d and the component *)
SumItem(n, d, j) == LET v == Vec(n * d, n + d) IN B("sumarr", <<I(d), I(j - 1)>>, v, TSum([i \in 1 .. n |-> TQ(v[(i - 1) * d + j])]))
Init == \/ \E i \in DOMAIN Whole, j \in 1 .. 5, k \in 1 .. 4 : b = IntItem(i, j, k)
        \/ \E i \in DOMAIN LongLens, j \in 1 .. 3, k \in 1 .. 4 : b = LongItem(LongLens[i], j, k)
        \/ \E i \in DOMAIN Pts, j \in DOMAIN PosPar, k \in 1 .. 4 : b = DensItem(i, j, k)
        \/ \E i \in DOMAIN Lgs : b = Lgs[i]
        \/ \E i \in DOMAIN Dots : b = Dots[i]
        \/ \E n \in 1 .. 3 : \E m, l \in 0 .. 3 ^ n - 1 : b = Masked(n, m, l)
        \/ \E m \in 0 .. 242 : b = Masked(5, m, (7 * m + Seed) % 243)
        \/ \E n \in 1 .. 4, d \in 1 .. 3 : \E j \in 1 .. d : b = SumItem(n, d, j)
Spec == Init /\ [][FALSE]_b
It == b
TypeOK == It.want.o \in {"q", "ll", "ninf", "sum"}
(* a polynomial with roots vanishes at each of them *)
InvRoots == It.k = "roots" /\ Len(It.p) < 17 => \A i \in DOMAIN It.p : Prod(It.p, It.p[i]) = Zero
(* the derivative of a product of differences, by the product rule *)
InvSplit == It.k = "poly" /\ Len(It.p) > 0 => PSum(It.p, It.q[1]) = NAdd(It.p[1], NMul(It.q[1], PSum(Tail(It.p), It.q[1])))
(* unit rate: the gamma density of shape one is the exponential density *)
InvShape == It.k = "gamma" /\ It.p[1] = One /\ It.want.o = "ll" => Canon(It.want.a[1]) = Canon(Expo(It.q[1], It.p[2]).a[1])
Emit == PrintT("@@" \o ToJson(It))
=============================================================================
