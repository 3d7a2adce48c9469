------------------------------- MODULE Laws -------------------------------
(***************************************************************************)
(* The documented laws of the distributions and coefficient measures.      *)
(* A distribution is [f |-> family, p |-> tuple of Num]; points are Num.   *)
(* Integer-valued parameters (n, r) and points are Nums that are integers. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, LogLin

Continuous == {"normal", "cauchy", "studentt", "gamma", "beta", "chisq", "exponential", "stdnormal"}
Discrete == {"bernoulli", "binomial", "negbin", "geometric", "poisson", "categorical"}
Coefficient == {"factorial", "bincoef", "nbcoef"}
Primitive == {"counting", "lebesgue"}
ExpFam == {"normal", "gamma", "beta", "chisq", "exponential", "stdnormal"} \cup Discrete
RootOf(f) == IF f \in Continuous \cup {"lebesgue"} THEN "lebesgue" ELSE "counting"

D(f, p) == [f |-> f, p |-> p]
Pos(q) == NSgn(q) > 0
NonNegI(q) == NSgn(q) >= 0 /\ NIsInt(q)
OneMinus(q) == NSub(One, q)
InUnit(q) == NSgn(q) >= 0 /\ NLe(q, One)

(* documented parameter sets *)
Valid(d) ==
  CASE d.f \in {"normal", "cauchy"} -> Pos(d.p[2])
    [] d.f \in {"studentt", "chisq", "exponential", "poisson"} -> Pos(d.p[1])
    [] d.f \in {"gamma", "beta"} -> Pos(d.p[1]) /\ Pos(d.p[2])
    [] d.f = "bernoulli" -> InUnit(d.p[1])
    [] d.f = "binomial" -> NonNegI(d.p[1]) /\ InUnit(d.p[2])
    [] d.f = "negbin" -> NonNegI(d.p[1]) /\ Pos(d.p[1]) /\ Pos(d.p[2]) /\ NLt(d.p[2], One)
    [] d.f = "geometric" -> Pos(d.p[1]) /\ NLe(d.p[1], One)
    [] d.f = "categorical" -> /\ d.p # <<>>
                              /\ \A i \in DOMAIN d.p : NSgn(d.p[i]) >= 0
                              /\ NSum(d.p) = One
    [] OTHER -> TRUE

(* documented supports *)
InSupport(d, x) ==
  CASE d.f \in {"normal", "cauchy", "studentt", "stdnormal", "lebesgue"} -> TRUE
    [] d.f = "exponential" -> NSgn(x) >= 0
    [] d.f \in {"gamma", "chisq"} -> NSgn(x) > 0
    [] d.f = "beta" -> NSgn(x) > 0 /\ NLt(x, One)
    [] d.f = "bernoulli" -> x = Zero \/ x = One
    [] d.f \in {"binomial", "bincoef"} -> NSgn(x) >= 0 /\ NLe(x, d.p[1])
    [] d.f = "geometric" -> NLe(One, x)
    [] d.f = "categorical" -> NSgn(x) >= 0 /\ NLt(x, I(Len(d.p)))
    [] OTHER -> NSgn(x) >= 0        \* negbin, poisson, factorial, nbcoef, counting

LnFact(x) == LLgS(One, <<x, One>>)                         \* ln x!
LnBinom(n, k) == LSum(<<LnFact(n), LNegate(LnFact(k)), LLgS(NNeg(One), <<n, NNeg(k), One>>)>>)
LnNB(r, x) == LSum(<<LLgS(One, <<x, r>>), LNegate(LnFact(x)), LLg(NNeg(One), r)>>)

(* q*(x - mu)^2 / sigma^2 without aligning x and mu *)
SqDev(q, x, mu, sigma) ==
  LET w == NDiv(q, NSq(sigma))
  IN LSum(<<LC(NMul(w, NSq(x))), LC(NMul(w, NMul(I(-2), NMul(x, mu)))), LC(NMul(w, NSq(mu)))>>)

LawIn(d, x) ==     \* ln density at a point of the support
  LET p == d.p IN
  CASE d.f = "normal" -> LSum(<<LLn(NNeg(Half), Two), LPi(NNeg(Half)), LLn(I(-1), p[2]), SqDev(NNeg(Half), x, p[1], p[2])>>)
    [] d.f = "stdnormal" -> LSum(<<LLn(NNeg(Half), Two), LPi(NNeg(Half)), SqDev(NNeg(Half), x, Zero, One)>>)
    [] d.f = "cauchy" ->   \* -ln pi + ln s - ln(s^2 + (x-m)^2)
         LSum(<<LPi(I(-1)), LLn(One, p[2]),
                LLnS(I(-1), <<NSq(p[2]), NSq(x), NMul(I(-2), NMul(x, p[1])), NSq(p[1])>>)>>)
    [] d.f = "studentt" ->
         LET h == NMul(p[1], Half) IN
         LSum(<<LLgS(One, <<h, Half>>), LLg(I(-1), h), LLn(NNeg(Half), p[1]), LPi(NNeg(Half)),
                LScale(NNeg(Half), LAdd(LLnS(p[1], <<One, NDiv(NSq(x), p[1])>>), LLnS(One, <<One, NDiv(NSq(x), p[1])>>)))>>)
    [] d.f = "gamma" ->
         LSum(<<LLn(p[1], p[2]), LLg(I(-1), p[1]), LLn(p[1], x), LLn(I(-1), x), LC(NNeg(NMul(p[2], x)))>>)
    [] d.f = "chisq" ->
         LET a == NMul(p[1], Half) IN
         LSum(<<LLn(a, Half), LLg(I(-1), a), LLn(a, x), LLn(I(-1), x), LC(NNeg(NMul(Half, x)))>>)
    [] d.f = "exponential" -> LAdd(LLn(One, p[1]), LC(NNeg(NMul(p[1], x))))
    [] d.f = "beta" ->
         LSum(<<LLgS(One, <<p[1], p[2]>>), LLg(I(-1), p[1]), LLg(I(-1), p[2]),
                LLn(p[1], x), LLn(I(-1), x),
                LLnS(p[2], <<One, NNeg(x)>>), LLnS(I(-1), <<One, NNeg(x)>>)>>)
    [] d.f = "bernoulli" -> IF x = One THEN XLn(One, p[1]) ELSE XLn(One, OneMinus(p[1]))
    [] d.f = "binomial" ->
         LSum(<<LnBinom(p[1], x), XLn(x, p[2]), XLn(NSub(p[1], x), OneMinus(p[2]))>>)
    [] d.f = "negbin" ->
         LSum(<<LnNB(p[1], x), XLn(x, p[2]), XLn(p[1], OneMinus(p[2]))>>)
    [] d.f = "geometric" -> LAdd(XLn(NSub(x, One), OneMinus(p[1])), XLn(One, p[1]))
    [] d.f = "poisson" -> LSum(<<LLn(x, p[1]), LC(NNeg(p[1])), LNegate(LnFact(x))>>)
    [] d.f = "categorical" -> XLn(One, d.p[NInt(x) + 1])
    [] d.f = "factorial" -> LNegate(LnFact(x))
    [] d.f = "bincoef" -> LnBinom(p[1], x)
    [] d.f = "nbcoef" -> LnNB(p[1], x)
    [] OTHER -> LL0

Law(d, x) == IF InSupport(d, x) THEN LawIn(d, x) ELSE NegInf

(* derived quantities, by the name the library offers them under.  A quantity is either
   <<name, "ll", LL>> or <<name, "sp", sum of products>>, a product being a sequence of
   <<base, integer exponent>>; kept factored so that no intermediate exceeds 32 bits *)
SP1(ps) == <<ps>>
SPValue(sp) == NSum([i \in DOMAIN sp |->
                 FoldSeq(LAMBDA f, acc : NMul(acc, NPow(f[1], f[2])), One, sp[i])])
M(name, ps) == <<name, "sp", SP1(ps)>>
F(q, e) == <<q, e>>
LogOdds(p) == LSub(LLn(One, p), LLn(One, OneMinus(p)))
Odds(p) == IF p \in {Zero, One} THEN <<>> ELSE << <<"log_odds", "ll", LogOdds(p)>> >>
Pairs(ps) == LET S == {i \in DOMAIN ps : ps[i] # Zero} IN SetToSeq({<<i, j>> \in S \X S : i < j})
Moments(d) ==
  LET p == d.p IN
  CASE d.f = "normal" -> << M("variance", <<F(p[2], 2)>>) >>
    [] d.f = "gamma" -> << M("mean", <<F(p[1], 1), F(p[2], -1)>>), M("variance", <<F(p[1], 1), F(p[2], -2)>>),
                           M("scale", <<F(p[2], -1)>>) >>
    [] d.f = "chisq" -> << M("mean", <<F(p[1], 1)>>), M("variance", <<F(Two, 1), F(p[1], 1)>>),
                           M("shape", <<F(Half, 1), F(p[1], 1)>>), M("rate", <<F(Half, 1)>>) >>
    [] d.f = "exponential" -> << M("mean", <<F(p[1], -1)>>), M("variance", <<F(p[1], -2)>>) >>
    [] d.f = "beta" ->
         LET s == NAdd(p[1], p[2]) IN
         << M("mean", <<F(p[1], 1), F(s, -1)>>),
            M("variance", <<F(p[1], 1), F(p[2], 1), F(s, -2), F(NAdd(s, One), -1)>>) >>
    [] d.f = "bernoulli" -> << M("mean", <<F(p[1], 1)>>), M("variance", <<F(p[1], 1), F(OneMinus(p[1]), 1)>>) >> \o Odds(p[1])
    [] d.f = "binomial" ->
         << M("mean", <<F(p[1], 1), F(p[2], 1)>>),
            M("variance", <<F(p[1], 1), F(p[2], 1), F(OneMinus(p[2]), 1)>>) >> \o Odds(p[2])
    [] d.f = "negbin" ->
         << M("mean", <<F(p[1], 1), F(p[2], 1), F(OneMinus(p[2]), -1)>>),
            M("variance", <<F(p[1], 1), F(p[2], 1), F(OneMinus(p[2]), -2)>>),
            M("failure_prob", <<F(OneMinus(p[2]), 1)>>) >> \o Odds(p[2])
    [] d.f = "geometric" ->
         << M("mean", <<F(p[1], -1)>>), M("variance", <<F(OneMinus(p[1]), 1), F(p[1], -2)>>),
            M("failure_prob", <<F(OneMinus(p[1]), 1)>>) >>
    [] d.f = "categorical" ->
         << <<"mean", "sp", [i \in DOMAIN p |-> <<F(I(i - 1), 1), F(p[i], 1)>>]>>,
            <<"variance", "sp", LET ps == Pairs(p) IN
                 [k \in DOMAIN ps |-> <<F(p[ps[k][1]], 1), F(p[ps[k][2]], 1), F(I(ps[k][2] - ps[k][1]), 2)>>]>>,
            M("num_categories", <<F(I(Len(p)), 1)>>) >>
    [] OTHER -> <<>>

(* documented defaults *)
Default(f) ==
  CASE f \in {"normal", "cauchy"} -> <<Zero, One>>
    [] f \in {"studentt", "chisq", "exponential", "poisson"} -> <<One>>
    [] f \in {"gamma", "beta"} -> <<One, One>>
    [] f \in {"bernoulli", "geometric"} -> <<Half>>

(* ----- exponential-family form: eta.T(x) - A + ln h(x); defined in the interior ----- *)
Interior(d) ==
  CASE d.f \in {"bernoulli", "geometric"} -> Pos(d.p[1]) /\ NLt(d.p[1], One)
    [] d.f = "binomial" -> Pos(d.p[2]) /\ NLt(d.p[2], One)
    [] d.f = "categorical" -> \A i \in DOMAIN d.p : Pos(d.p[i])
    [] OTHER -> TRUE

EFDot(d, x) ==     \* eta . T(x); also meaningful for x outside the support when T is polynomial
  LET p == d.p IN
  CASE d.f = "normal" -> LAdd(LC(NDiv(NMul(p[1], x), NSq(p[2]))), LC(NDiv(NMul(NNeg(Half), NSq(x)), NSq(p[2]))))
    [] d.f = "stdnormal" -> LC(NMul(NNeg(Half), NSq(x)))
    [] d.f = "gamma" -> LSum(<<LLn(p[1], x), LLn(I(-1), x), LC(NNeg(NMul(p[2], x)))>>)
    [] d.f = "chisq" -> LSum(<<LLn(NMul(Half, p[1]), x), LLn(I(-1), x), LC(NNeg(NMul(Half, x)))>>)
    [] d.f = "beta" -> LSum(<<LLn(p[1], x), LLn(I(-1), x), LLnS(p[2], <<One, NNeg(x)>>), LLnS(I(-1), <<One, NNeg(x)>>)>>)
    [] d.f = "exponential" -> LC(NNeg(NMul(p[1], x)))
    [] d.f = "bernoulli" -> LScale(x, LogOdds(p[1]))
    [] d.f = "binomial" -> LScale(x, LogOdds(p[2]))
    [] d.f = "negbin" -> LLn(x, p[2])
    [] d.f = "geometric" -> LLn(x, OneMinus(p[1]))
    [] d.f = "poisson" -> LLn(x, p[1])
    [] d.f = "categorical" -> LET k == Len(p) IN
         IF NInt(x) < k - 1 THEN LSub(LLn(One, p[NInt(x) + 1]), LLn(One, p[k])) ELSE LL0
EFA(d) ==
  LET p == d.p IN
  CASE d.f = "normal" -> LSum(<<LLn(Half, Two), LPi(Half), LLn(One, p[2]), LC(NDiv(NMul(Half, NSq(p[1])), NSq(p[2])))>>)
    [] d.f = "stdnormal" -> LSum(<<LLn(Half, Two), LPi(Half)>>)
    [] d.f = "gamma" -> LSub(LLg(One, p[1]), LLn(p[1], p[2]))
    [] d.f = "chisq" -> LET a == NMul(Half, p[1]) IN LAdd(LLg(One, a), LLn(a, Two))
    [] d.f = "beta" -> LSum(<<LLg(One, p[1]), LLg(One, p[2]), LLgS(I(-1), <<p[1], p[2]>>)>>)
    [] d.f = "exponential" -> LLn(I(-1), p[1])
    [] d.f = "bernoulli" -> LLn(I(-1), OneMinus(p[1]))
    [] d.f = "binomial" -> LLn(NNeg(p[1]), OneMinus(p[2]))
    [] d.f = "negbin" -> LLn(NNeg(p[1]), OneMinus(p[2]))
    [] d.f = "geometric" -> LSub(LLn(One, OneMinus(p[1])), LLn(One, p[1]))
    [] d.f = "poisson" -> LC(p[1])
    [] d.f = "categorical" -> LLn(I(-1), p[Len(p)])
EFH(d, x) ==
  CASE d.f = "binomial" -> IF InSupport(d, x) THEN LnBinom(d.p[1], x) ELSE NegInf
    [] d.f = "negbin" -> LnNB(d.p[1], x)
    [] d.f = "poisson" -> LNegate(LnFact(x))
    [] OTHER -> LL0
EFForm(d, x) == LSum(<<EFDot(d, x), LNegate(EFA(d)), EFH(d, x)>>)

(* Known deviations of the code from its documented law (see known_findings.txt):
   the negative binomial's exponential-family form uses the log-odds as natural
   parameter, which gives p^k (1-p)^(r-k) C(k+r-1,k). *)
EFDeviant(d, x) ==
  IF d.f = "negbin"
  THEN LSum(<<LScale(x, LogOdds(d.p[2])), LLn(d.p[1], OneMinus(d.p[2])), LnNB(d.p[1], x)>>)
  ELSE NegInf
(* the formal value eta.T(x) - A + ln h(x) outside the support; "nan" where it involves the
   logarithm of a negative number *)
FormalOutside(d, x) ==
  IF d.f \in {"gamma", "chisq", "beta"} THEN "nan"
  ELSE IF d.f \in {"exponential", "bernoulli", "geometric"} THEN "value"
  ELSE "law"
=============================================================================
