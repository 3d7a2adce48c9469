-------------------------- MODULE DensityPairs --------------------------
(***************************************************************************)
(* Every ordered pair of concrete measures of one space: the log-density   *)
(* of the first relative to the second, the reverse, the return to the     *)
(* root and the measure against itself, at the points of the space.        *)
(***************************************************************************)
EXTENDS Laws, Json
CONSTANTS Seed, Deep
VARIABLES pair
S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
RN(i) == Dy(1 + (S(i) % 61), -(S(i + 50) % 6))
RP(i) == Dy(1 + 2 * (S(i) % 32), -6)
RI(i, m) == I(S(i) % m)
CountMs == << D("binomial", <<I(4), Dy(1, -2)>>), D("negbin", <<I(3), Half>>), D("geometric", <<Half>>), D("poisson", <<Two>>),
              D("factorial", <<>>), D("bincoef", <<I(5)>>), D("nbcoef", <<I(3)>>), D("counting", <<>>), D("kcounting", <<>>),
              D("binomial", <<RI(1, 30), RP(2)>>), D("poisson", <<RN(3)>>), D("geometric", <<RP(4)>>) >>
RealMs == << D("normal", <<Zero, One>>), D("cauchy", <<Zero, One>>), D("studentt", <<I(3)>>), D("gamma", <<Two, I(3)>>),
             D("beta", <<Two, I(3)>>), D("chisq", <<I(3)>>), D("exponential", <<Two>>), D("lebesgue", <<>>), D("klebesgue", <<>>),
             D("normal", <<RN(5), RN(6)>>), D("gamma", <<RN(7), RN(8)>>), D("cauchy", <<NNeg(RN(9)), RN(10)>>) >>
CPts == {Zero, One, Two, I(5), I(21), RI(11, 40)}
RPts == {Zero, Half, I(-1), Two, RN(12), Dy(1, -3)}
L(d, x) == IF d.f \in {"kcounting", "klebesgue"} THEN LL0 ELSE Law(d, x)
V(k, v) == [k |-> k, ll |-> v]
Diff(a, b) == IF a.ni /\ b.ni THEN V("undef", LL0) ELSE IF a.ni THEN V("ninf", LL0)
              ELSE IF b.ni THEN V("pinf", LL0) ELSE V("fin", LSub(a, b))
Init == pair \in ({"C"} \X (DOMAIN CountMs) \X (DOMAIN CountMs)) \cup ({"R"} \X (DOMAIN RealMs) \X (DOMAIN RealMs))
Next == FALSE /\ UNCHANGED pair
Spec == Init /\ [][Next]_pair
Ms == IF pair[1] = "C" THEN CountMs ELSE RealMs
Pts == SetToSeq(IF pair[1] = "C" THEN CPts ELSE RPts)
M1 == Ms[pair[2]]
B1 == Ms[pair[3]]
InvAnti == \A i \in DOMAIN Pts : LET r == Diff(L(M1, Pts[i]), L(B1, Pts[i]))
                                     q == Diff(L(B1, Pts[i]), L(M1, Pts[i]))
                                 IN (r.k = "fin") = (q.k = "fin") /\ (r.k = "ninf") = (q.k = "pinf")
Emit == PrintT("@@" \o ToJson([dom |-> pair[1], m |-> M1, b |-> B1,
          pts |-> [i \in DOMAIN Pts |-> LET x == Pts[i] IN
             [x |-> x, rel |-> Diff(L(M1, x), L(B1, x)), rev |-> Diff(L(B1, x), L(M1, x)),
              root |-> Diff(L(M1, x), LL0), self |-> Diff(L(M1, x), L(M1, x))]]]))
=============================================================================
