------------------------------ MODULE LawPairs ------------------------------
(***************************************************************************)
(* A distribution of an exponential family relative to any measure of the  *)
(* same space: the value a precomputed evaluator made for the pair has to  *)
(* return at every point of the distribution's support.  Where the other   *)
(* measure has density zero the relative log-density is plus infinity.     *)
(***************************************************************************)
EXTENDS Laws, Json
CONSTANTS Seed, Deep
VARIABLES pair
S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
RN(i) == Dy(1 + (S(i) % 61), -(S(i + 50) % 6))
RP(i) == Dy(1 + 2 * (S(i) % 32), -6)
RI(i, m) == I(S(i) % m)
Fams == [C |-> << D("binomial", <<I(4), Dy(1, -2)>>), D("negbin", <<I(3), Half>>), D("geometric", <<Half>>), D("poisson", <<Two>>),
                  D("binomial", <<NAdd(I(3), RI(1, 30)), RP(2)>>), D("poisson", <<RN(3)>>), D("geometric", <<RP(4)>>), D("negbin", <<NAdd(One, RI(5, 20)), RP(6)>>), D("binomial", <<Zero, Half>>) >>,
         R |-> << D("normal", <<Zero, One>>), D("stdnormal", <<>>), D("gamma", <<Two, I(3)>>), D("beta", <<Two, I(3)>>), D("chisq", <<I(3)>>), D("exponential", <<Two>>),
                  D("normal", <<RN(7), RN(8)>>), D("normal", <<I(1000), Dy(1, -10)>>), D("gamma", <<RN(9), RN(10)>>), D("beta", <<RN(11), RN(12)>>), D("exponential", <<RN(13)>>), D("chisq", <<RN(14)>>) >>,
         B |-> << D("bernoulli", <<Half>>), D("bernoulli", <<RP(15)>>), D("bernoulli", <<Dy(1, -30)>>) >>,
         K |-> << D("categorical", <<Half, Half>>), D("categorical", <<Dy(1, -2), Half, Dy(1, -2)>>), D("categorical", <<Dy(1, -3), Dy(1, -3), Dy(1, -2), Half>>), D("categorical", <<One>>) >>]
Others == [C |-> << D("factorial", <<>>), D("bincoef", <<I(5)>>), D("nbcoef", <<I(3)>>), D("counting", <<>>), D("kcounting", <<>>), D("geometric", <<One>>) >>,
           R |-> << D("cauchy", <<Zero, One>>), D("studentt", <<I(3)>>), D("lebesgue", <<>>), D("klebesgue", <<>>), D("cauchy", <<NNeg(RN(16)), RN(17)>>) >>,
           B |-> << D("counting", <<>>), D("bernoulli", <<Zero>>), D("bernoulli", <<One>>) >>,
           K |-> << D("counting", <<>>), D("categorical", <<Zero, One>>), D("categorical", <<Half, Zero, Zero, Half>>) >>]
Spaces == {"C", "R", "B", "K"}
IsRef(d) == d.f \in {"kcounting", "klebesgue"}
NoLaw(d) == d.f = "stdnormal"       \* offers its exponential-family form only
Bases(s) == SelectSeq(Fams[s], LAMBDA d : ~NoLaw(d)) \o Others[s]
Pts(s) == SetToSeq(CASE s = "C" -> {Zero, One, Two, I(3), I(4), I(5), I(21), RI(18, 40)}
                     [] s = "R" -> {Zero, Half, I(-1), Two, RN(19), NNeg(RN(20)), Dy(1, -3), Dy(31, -5), I(1000), Dy(1, -30)}
                     [] s = "B" -> {Zero, One} [] OTHER -> {Zero, One, Two, I(3), I(4)})
L(d, x) == IF IsRef(d) THEN LL0 ELSE Law(d, x)
V(k, v) == [k |-> k, ll |-> v]
Rel(a, b) == IF b.ni THEN V("pinf", LL0) ELSE V("fin", LSub(a, b))
Init == pair \in UNION {{s} \X (1..Len(Fams[s])) \X (1..Len(Bases(s))) : s \in Spaces}
Next == FALSE /\ UNCHANGED pair
Spec == Init /\ [][Next]_pair
M1 == Fams[pair[1]][pair[2]]
B1 == Bases(pair[1])[pair[3]]
In == SelectSeq(Pts(pair[1]), LAMBDA x : InSupport(M1, x))
TypeOK == M1.f \in ExpFam /\ Interior(M1)
InvFinite == \A i \in DOMAIN In : ~Law(M1, In[i]).ni
\* a family relative to itself is zero
InvSelf == M1 = B1 => \A i \in DOMAIN In : Rel(Law(M1, In[i]), Law(B1, In[i])).k = "fin"
Emit == PrintT("@@" \o ToJson([dom |-> pair[1], m |-> M1, b |-> B1,
          pts |-> [i \in DOMAIN In |-> LET x == In[i] IN
             [x |-> x, rel |-> Rel(EFForm(M1, x), L(B1, x)), law |-> Law(M1, x),
              dev |-> IF M1.f = "negbin" THEN <<Rel(EFDeviant(M1, x), L(B1, x))>> ELSE <<>>]]]))
=============================================================================
