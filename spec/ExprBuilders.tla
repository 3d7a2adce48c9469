---------------------------- MODULE ExprBuilders ----------------------------
(* what the expression-building helpers denote *)
EXTENDS Expr, Json
CONSTANT Seed
VARIABLE b
S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
RN(i) == Dy(1 + (S(i) % 61), -(S(i + 50) % 6))
RS(i) == IF S(i + 99) % 2 = 0 THEN RN(i) ELSE NNeg(RN(i))
x == XV("x")
y == XV("y")
s == XV("s")
Half1 == TQ(Half)
LnTwoPi == TLL(LAdd(LLn(One, Two), LPi(One)))
Sq(t) == TMul(t, t)
Quad(u, m, sd) == TMul(Half1, Sq(TDiv(TSub(u, m), sd)))
Poly(c, u) == TSum([i \in DOMAIN c |-> TMul(TQ(c[i]), TPow(u, TQ(I(i - 1))))])
B(name, p, es, want) == [name |-> name, p |-> p, es |-> es, want |-> want]
Args == <<<<x, y, s>>, <<x, XC(RS(1)), XC(RN(2))>>, <<X2("mul", x, y), X1("neg", y), s>>, <<XC(Half), x, s>>, <<X2("add", x, XC(One)), XC(Zero), XC(Two)>>>>
Subs == <<x, X2("add", x, y), X1("neg", x), XC(RS(3)), X2("sub", XC(Half), x)>>
Coefs == <<<<>>, <<RS(4)>>, <<Zero, One>>, <<RS(5), RS(6), RS(7)>>, <<One, Zero, Zero, I(-2)>>, <<RS(8), RS(9), RS(10), RS(11), RS(12), RS(13)>>>>
For(seq, F(_)) == [i \in DOMAIN seq |-> F(seq[i])]
vx == T("v", <<"x">>)
LogNorm(n) == B("log_normal_constant", <<n>>, <<>>, TSub(TNeg(TMul(Half1, LnTwoPi)), TLn(TQ(n))))
NormPdf(a) == B("normal_log_pdf", <<>>, a, TSub(TNeg(TAdd(TMul(Half1, LnTwoPi), TLn(Val(a[3])))), Quad(Val(a[1]), Val(a[2]), Val(a[3]))))
Kernel(a) == B("gaussian_kernel", <<>>, a, TExp(TNeg(Quad(Val(a[1]), Val(a[2]), Val(a[3])))))
Logistic(u) == B("logistic", <<>>, <<u>>, TDiv(TOne, TAdd(TOne, TExp(TNeg(Val(u))))))
Softplus(u) == B("softplus", <<>>, <<u>>, TLn(TAdd(TOne, TExp(Val(u)))))
Square(u) == B("square", <<>>, <<u>>, Sq(Val(u)))
Cube(u) == B("cube", <<>>, <<u>>, TMul(Sq(Val(u)), Val(u)))
AbsOf(u) == B("abs", <<>>, <<u>>, TAbs(Val(u)))
Pol(k) == LET u == Subs[1 + (k % Len(Subs))] c == Coefs[1 + (k % Len(Coefs))] IN B("polynomial", c, <<u>>, Poly(c, Val(u)))
Items == <<B("quadratic_term", <<RS(14), RN(15)>>, <<>>, TNeg(Quad(vx, TQ(RS(14)), TQ(RN(15))))),
           B("quadratic_term", <<Zero, Half>>, <<>>, TNeg(Quad(vx, TZero, Half1))),
           B("linear_term", <<RS(16)>>, <<>>, TMul(TQ(RS(16)), vx)), B("linear_term", <<Zero>>, <<>>, TMul(TZero, vx))>>
   \o For(<<One, RN(17), Dy(1, -10)>>, LogNorm) \o For(Args, NormPdf) \o For(Args, Kernel) \o [k \in 1 .. 30 |-> Pol(k)]
   \o For(Subs, Logistic) \o For(Subs, Softplus) \o For(Subs, Square) \o For(Subs, Cube) \o For(Subs, AbsOf)
Envs == <<[x |-> Half, y |-> I(-1), s |-> Two], [x |-> I(-3), y |-> RS(20), s |-> RN(21)], [x |-> Zero, y |-> Zero, s |-> One], [x |-> RS(22), y |-> Half, s |-> Dy(1, -3)]>>
Init == b \in DOMAIN Items
Spec == Init /\ [][FALSE]_b
(* a helper mentions no variable its arguments do not mention *)
TypeOK == b \in DOMAIN Items
Emit == PrintT("@@" \o ToJson([b |-> Items[b], envs |-> Envs]))
=============================================================================
