------------------------------- MODULE Tagless -------------------------------
(***************************************************************************)
(* Programs of the final-tagless algebra and what they denote.             *)
(*                                                                         *)
(* A program is an expression of Expr.tla in which calls of the helpers    *)
(* written on top of the algebra may occur as well: [k |-> helper,         *)
(* a |-> <<cs, es>>] with numbers cs and argument programs es.             *)
(*   poly, roots, dpoly   polynomial by coefficients, by roots, derivative *)
(*   polyx                coefficients are programs, the last one is x     *)
(*   logistic softplus slogistic ssoftplus sigmoid                         *)
(*   dot sums lse efld iid                exponential-family helpers       *)
(*   e.* and d.*                          density patterns                 *)
(* Denote gives a program its meaning independently of how a helper is     *)
(* written: a polynomial is its sum of powers, a derivative is the sum of  *)
(* i c_i x^(i-1), and so on.  Every interpreter has to agree with it.      *)
(***************************************************************************)
EXTENDS Expr, Json, SequencesExt

CONSTANTS Seed, Mode, MaxOps
VARIABLES stack, ops, helps, lang, done
vars == <<stack, ops, helps, lang, done>>

S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
RN(i) == Dy(1 + (S(i) % 61), -(S(i + 50) % 6))
RS(i) == IF S(i + 99) % 2 = 0 THEN RN(i) ELSE NNeg(RN(i))

PolyK == {"poly", "roots", "dpoly", "polyx"}
StatK == {"slogistic", "ssoftplus", "sigmoid"}
FamK == {"logistic", "softplus", "dot", "sums", "lse", "efld", "iid"}
PatK == {"e.stdnormal", "e.normal", "e.poisson", "e.exponential", "d.stdnormal", "d.normal", "d.exponential", "d.cauchy"}
Helper == PolyK \cup StatK \cup FamK \cup PatK
H(k, cs, es) == X(k, <<cs, es>>)
Cs(p) == p.a[1]
Es(p) == p.a[2]

RECURSIVE HVars(_), HSize(_)
UnionOver(sq, F(_)) == UNION {F(sq[i]) : i \in DOMAIN sq}
RECURSIVE Total(_)
Total(sq) == IF sq = <<>> THEN 0 ELSE Head(sq) + Total(Tail(sq))
HVars(p) == CASE p.k = "v" -> {p.a[1]}
              [] p.k \in {"c", "b"} -> {}
              [] p.k \in Helper -> UnionOver(Es(p), HVars)
              [] OTHER -> UnionOver(p.a, HVars)
HSize(p) == CASE IsLeaf(p) -> 1
              [] p.k \in Helper -> 1 + Len(Cs(p)) + Total([i \in DOMAIN Es(p) |-> HSize(Es(p)[i])])
              [] OTHER -> 1 + Total([i \in DOMAIN p.a |-> HSize(p.a[i])])
(* in which of the two libraries can it be written? *)
RECURSIVE Langs(_)
Langs(p) == CASE IsLeaf(p) -> {"s", "m"}
              [] p.k \in Helper -> (CASE p.k \in PolyK -> {"m"} [] p.k \in StatK -> {"s", "m"} [] OTHER -> {"s"}) \cap (IF Es(p) = <<>> THEN {"s", "m"} ELSE {l \in {"s", "m"} : \A i \in DOMAIN Es(p) : l \in Langs(Es(p)[i])})
              [] OTHER -> {l \in {"s", "m"} : \A i \in DOMAIN p.a : l \in Langs(p.a[i])}

(* -------------------------------- meaning -------------------------------- *)
TPowN(u, n) == IF n = 0 THEN TOne ELSE IF n = 1 THEN u ELSE TPow(u, TQ(I(n)))
PowerSum(cs, u) == TSum([i \in DOMAIN cs |-> IF i = 1 THEN TQ(cs[1]) ELSE TMul(TQ(cs[i]), TPowN(u, i - 1))])
DerivSum(cs, u) == TSum([i \in 1 .. Len(cs) - 1 |-> TMul(TQ(NMul(I(i), cs[i + 1])), TPowN(u, i - 1))])
RECURSIVE TProd(_)
TProd(ts) == IF ts = <<>> THEN TOne ELSE IF Len(ts) = 1 THEN ts[1] ELSE TMul(TProd(SubSeq(ts, 1, Len(ts) - 1)), ts[Len(ts)])
TDot(us, vs) == TSum([i \in DOMAIN us |-> TMul(us[i], vs[i])])
HalfLnTwoPi == TLL(LAdd(LLn(Half, Two), LPi(Half)))
TNormal(x, mu, sd) == TSub(TNeg(TAdd(HalfLnTwoPi, TLn(sd))), TMul(TQ(Half), TSq(TDiv(TSub(x, mu), sd))))
LnFactorial(k) == TLL(LLgS(One, <<k, One>>))
(* wide: also where an exponential on the way leaves the range of the numbers *)
Touched(us, t, wide) == IF wide \/ us = <<>> THEN t ELSE TTouch(TSum([i \in DOMAIN us |-> TExp(us[i])]), t)
Softplus(u, wide) == Touched(<<u>>, TLse(<<TZero, u>>), wide)
Logistic(u) == TExp(TNeg(TLse(<<TZero, TNeg(u)>>)))

Meaning(k, cs, u, es, wide) ==      \* u: meanings of the arguments es
  CASE k = "poly" -> PowerSum(cs, u[1])
    [] k = "dpoly" -> DerivSum(cs, u[1])
    [] k = "roots" -> TProd([i \in DOMAIN cs |-> TSub(u[1], TQ(cs[i]))])
    [] k = "polyx" -> TSum([i \in 1 .. Len(u) - 1 |-> IF i = 1 THEN u[1] ELSE TMul(u[i], TPowN(u[Len(u)], i - 1))])
    [] k \in {"logistic", "slogistic", "sigmoid"} -> Logistic(u[1])
    [] k \in {"softplus", "ssoftplus"} -> Softplus(u[1], wide)
    [] k = "dot" -> LET n == Len(u) \div 2 IN TDot(SubSeq(u, 1, n), SubSeq(u, n + 1, 2 * n))
    [] k = "sums" -> LET d == cs[1][1] * Pow2(cs[1][3]) j == cs[2][1] * Pow2(cs[2][3]) IN TSum([i \in 1 .. Len(u) \div d |-> u[(i - 1) * d + j + 1]])
    [] k = "lse" -> IF Len(u) = 1 THEN u[1] ELSE Touched(u, TLse(u), wide)
    [] k = "efld" -> LET n == (Len(u) - 2) \div 2 IN TSum(<<TDot(SubSeq(u, 1, n), SubSeq(u, n + 1, 2 * n)), TNeg(u[2 * n + 1]), u[2 * n + 2]>>)
    [] k = "iid" -> LET n == (Len(u) - 3) \div 2 IN
                    TSum(<<TDot(SubSeq(u, 1, n), SubSeq(u, n + 1, 2 * n)), TNeg(TMul(u[2 * n + 2], u[2 * n + 1])), u[2 * n + 3]>>)
    [] k \in {"e.stdnormal", "d.stdnormal"} -> TNormal(u[1], TZero, TOne)
    [] k \in {"e.normal", "d.normal"} -> TNormal(u[1], u[2], u[3])
    [] k \in {"e.exponential", "d.exponential"} -> TSub(TLn(u[2]), TMul(u[2], u[1]))
    [] k = "e.poisson" -> TSub(TSub(TMul(u[1], TLn(u[2])), u[2]), LnFactorial(es[1].a[1]))
    [] k = "d.cauchy" -> TSub(TNeg(TAdd(TLL(LPi(One)), TLn(u[3]))), TLn(TAdd(TOne, TSq(TDiv(TSub(u[1], u[2]), u[3])))))

RECURSIVE Denote(_, _)
Denote(p, wide) ==
  CASE p.k = "c" -> TQ(p.a[1])
    [] p.k = "v" -> T("v", p.a)
    [] p.k = "pow" -> TPow(Denote(p.a[1], wide), Denote(p.a[2], wide))
    [] p.k = "add" -> TAdd(Denote(p.a[1], wide), Denote(p.a[2], wide))
    [] p.k = "sub" -> TSub(Denote(p.a[1], wide), Denote(p.a[2], wide))
    [] p.k = "mul" -> TMul(Denote(p.a[1], wide), Denote(p.a[2], wide))
    [] p.k = "div" -> TDiv(Denote(p.a[1], wide), Denote(p.a[2], wide))
    [] p.k \in Unary -> T(p.k, <<Denote(p.a[1], wide)>>)
    [] OTHER -> Meaning(p.k, Cs(p), [i \in DOMAIN Es(p) |-> Denote(Es(p)[i], wide)], Es(p), wide)

(* ------------- the helpers over exact rationals, two ways each ------------- *)
RECURSIVE Horner(_, _), DualHorner(_, _), FromRoots(_, _), Conv(_)
Horner(cs, x) == IF cs = <<>> THEN Zero ELSE NAdd(Head(cs), NMul(x, Horner(Tail(cs), x)))
PSum(cs, x) == NSum([i \in DOMAIN cs |-> NMul(cs[i], NPow(x, i - 1))])
DSum(cs, x) == NSum([i \in 1 .. Len(cs) - 1 |-> NMul(NMul(I(i), cs[i + 1]), NPow(x, i - 1))])
(* Horner on dual numbers <<value, derivative>> *)
DualHorner(cs, x) == IF cs = <<>> THEN <<Zero, Zero>>
                     ELSE LET r == DualHorner(Tail(cs), x) IN <<NAdd(Head(cs), NMul(x, r[1])), NAdd(r[1], NMul(x, r[2]))>>
FromRoots(rs, x) == IF rs = <<>> THEN One ELSE NMul(NSub(x, Head(rs)), FromRoots(Tail(rs), x))
At0(cs, i) == IF i \in DOMAIN cs THEN cs[i] ELSE Zero
(* coefficients of the product of (x - r) over the roots *)
Conv(rs) == IF rs = <<>> THEN <<One>>
            ELSE LET q == Conv(Tail(rs)) IN [i \in 1 .. Len(q) + 1 |-> NSub(At0(q, i - 1), NMul(Head(rs), At0(q, i)))]

(* ------------------------------- catalogues ------------------------------- *)
x == XV("x")
y == XV("y")
s == XV("s")
C(n) == XC(n)
Coefs == <<<<>>, <<RS(1)>>, <<Zero, One>>, <<One, I(-2)>>, <<RS(2), RS(3), RS(4)>>, <<Zero, Zero, Zero, I(2)>>, <<One, Zero, Zero, I(-2)>>, <<RS(5), Zero, RS(6), Zero>>,
           <<I(2), I(-3), I(5), I(-7), I(11)>>, <<One, One, One, One, One, One, One>>, <<RS(7), RS(8), RS(9), RS(10), RS(11), RS(12), RS(13), RS(14)>>>>
Small4 == <<<<>>, <<I(3)>>, <<Zero, One>>, <<One, I(-2)>>, <<I(-1), I(4), Half>>, <<Zero, Zero, Zero, I(2)>>, <<One, Zero, Zero, I(-2)>>, <<I(2), I(-3), I(5), I(-7), I(11)>>,
            <<One, One, One, One, One, One, One>>, <<I(3), I(3), I(-3)>>>>
Subs == <<x, X2("add", x, y), X1("neg", x), C(RS(15)), X2("sub", C(Half), x), X2("mul", y, s), X1("exp", y), C(Zero), X1("sin", x)>>
SubAt(k) == Subs[1 + (k % Len(Subs))]

Args(n, k) == [i \in 1 .. n |-> SubAt(k + i * (1 + (k % 3)))]

PolyItem(c, u) == <<H("poly", c, <<u>>), H("roots", c, <<u>>), H("dpoly", c, <<u>>)>>
Items == FlattenSeq(FlattenSeq([i \in DOMAIN Coefs |-> [j \in 1 .. 3 |-> PolyItem(Coefs[i], SubAt(i + j))]]))
   \o [k \in 1 .. 12 |-> H("polyx", <<>>, Args(1 + (k % 6), k))]
   \o FlattenSeq([k \in DOMAIN Subs |-> <<H("logistic", <<>>, <<Subs[k]>>), H("softplus", <<>>, <<Subs[k]>>), H("slogistic", <<>>, <<Subs[k]>>), H("ssoftplus", <<>>, <<Subs[k]>>), H("sigmoid", <<>>, <<Subs[k]>>)>>])
   \o [k \in 1 .. 12 |-> H("dot", <<>>, Args(2 * (k % 5), k))]
   \o FlattenSeq([k \in 1 .. 10 |-> LET d == 1 + (k % 3) n == 1 + (k % 4) IN [j \in 1 .. d |-> H("sums", <<I(d), I(j - 1)>>, Args(d * n, k))]])
   \o <<H("lse", <<>>, <<>>)>> \o [k \in 1 .. 12 |-> H("lse", <<>>, Args(1 + (k % 5), k))]
   \o [k \in 1 .. 10 |-> H("efld", <<>>, Args(2 * (k % 4) + 2, k))]
   \o [k \in 1 .. 10 |-> H("iid", <<>>, Args(2 * (k % 4) + 3, k))]
   \o FlattenSeq([k \in DOMAIN Subs |-> <<H("e.stdnormal", <<>>, <<Subs[k]>>), H("d.stdnormal", <<>>, <<Subs[k]>>),
                    H("e.normal", <<>>, <<Subs[k], y, s>>), H("d.normal", <<>>, <<Subs[k], SubAt(k), s>>), H("e.normal", <<>>, <<y, Subs[k], C(RN(16))>>), H("d.normal", <<>>, <<x, y, Subs[k]>>),
                    H("e.exponential", <<>>, <<Subs[k], s>>), H("d.exponential", <<>>, <<Subs[k], s>>), H("e.exponential", <<>>, <<y, Subs[k]>>), H("d.exponential", <<>>, <<C(RN(17)), Subs[k]>>),
                    H("d.cauchy", <<>>, <<Subs[k], y, s>>), H("d.cauchy", <<>>, <<y, Subs[k], C(RN(18))>>)>>])
   \o FlattenSeq([k \in 1 .. 7 |-> LET n == C(I(<<0, 1, 2, 3, 5, 20, 170>>[k])) IN <<H("e.poisson", <<>>, <<n, s>>), H("e.poisson", <<>>, <<n, X1("exp", y)>>)>>])
(* arguments whose exponentials leave the range *)
Big == <<I(1000), I(-1000), I(700), I(-700), I(80), I(-80), I(100), I(-100), I(-740), I(720)>>
WideItems == FlattenSeq([i \in DOMAIN Big |-> <<H("softplus", <<>>, <<C(Big[i])>>), H("ssoftplus", <<>>, <<C(Big[i])>>), H("logistic", <<>>, <<C(Big[i])>>), H("slogistic", <<>>, <<C(Big[i])>>),
                 H("sigmoid", <<>>, <<C(Big[i])>>), H("lse", <<>>, <<C(Big[i]), C(NSub(Big[i], One))>>), H("lse", <<>>, <<C(Zero), C(Big[i])>>), H("lse", <<>>, <<C(Big[i])>>)>>])
(* one program for each operator of the algebra, over each pair of leaves *)
OpLeaves == <<x, y, s, C(Zero), C(One), C(I(-2)), C(Half), C(RS(19))>>
OpItems == FlattenSeq([i \in DOMAIN OpLeaves |-> [k \in 1 .. 6 |-> X1(<<"ln", "exp", "sqrt", "sin", "cos", "neg">>[k], OpLeaves[i])]])
   \o FlattenSeq(FlattenSeq([i \in DOMAIN OpLeaves |-> [j \in DOMAIN OpLeaves |-> [k \in 1 .. 5 |-> X2(<<"add", "sub", "mul", "div", "pow">>[k], OpLeaves[i], OpLeaves[j])]]]))
   \o OpLeaves
(* operands of every magnitude on either side of every operator, at points of every magnitude *)
Mags == <<Zero, One, I(-1), Two, I(-2), Half, Dy(-1, -1), I(3), I(-3), I(4), I(5), I(-5), I(7), I(8), I(16), I(-17), I(64), I(128), I(255), I(256), I(257), I(-300), I(1000), I(65536), Dy(1, 31), Dy(-1, 32),
          Dy(3, -1), Dy(-5, -1), Dy(1, -2), Dy(-1, -2), Dy(1048577, -20), Dy(1, -20), Dy(-1, -30), Dy(1, 100), Dy(-1, 300), Dy(1, 1000), Dy(1, -100), Dy(1, -300), Dy(1, -1000), Dy(1, -1050), Dy(-3, -1060)>>
MagXs == <<Zero, One, I(-1), Two, Half, I(-3), I(5), Dy(3, -1), Dy(-5, -1), Dy(1048577, -20), Dy(1, -20), Dy(-1, -30), I(1000), I(-65537), Dy(1, 40), Dy(-1, 100), Dy(1, -100), Dy(1, 600), Dy(-1, -600), Dy(1, -1000), Dy(5, -1050), I(80), I(-85), I(700)>>
MagItems == FlattenSeq([i \in DOMAIN Mags |-> [k \in 1 .. 5 |-> X2(<<"add", "sub", "mul", "div", "pow">>[k], x, C(Mags[i]))] \o [k \in 1 .. 5 |-> X2(<<"add", "sub", "mul", "div", "pow">>[k], C(Mags[i]), x)]
                                     \o [k \in 1 .. 6 |-> X1(<<"ln", "exp", "sqrt", "sin", "cos", "neg">>[k], C(Mags[i]))]])
            \o [k \in 1 .. 6 |-> X1(<<"ln", "exp", "sqrt", "sin", "cos", "neg">>[k], x)] \o [k \in 1 .. 6 |-> X2("pow", X1(<<"ln", "exp", "sqrt", "sin", "cos", "neg">>[k], x), C(Mags[1 + (S(k) % Len(Mags))]))]
            \o FlattenSeq([n \in 1 .. 30 |-> LET c == Mags[1 + (S(n) % Len(Mags))] d == Mags[1 + (S(n + 300) % Len(Mags))] f == <<"add", "sub", "mul", "div", "pow">>[1 + (n % 5)] IN
                              [k \in 1 .. 5 |-> X2(f, X2(<<"add", "sub", "mul", "div", "pow">>[k], x, C(c)), C(d))]])
Catalogue == CASE Mode = "helpers" -> Items [] Mode = "wide" -> WideItems [] Mode = "ops" -> OpItems [] Mode = "mags" -> MagItems [] OTHER -> <<>>

(* ------------------------------ random programs ------------------------------ *)
Leaf(i) == CASE i <= 4 -> x [] i <= 6 -> y [] i <= 8 -> s [] i = 9 -> C(Zero) [] i = 10 -> C(One) [] i = 11 -> C(I(-2)) [] i = 12 -> C(Half) [] i = 13 -> C(RS(20))
             [] i = 14 -> C(RS(21)) [] i = 15 -> C(I(3)) [] i = 16 -> C(Dy(1234567, -4)) [] i = 17 -> C(Dy(-1, -20)) [] OTHER -> C(RN(22))
Top == stack[Len(stack)]
Rest(n) == SubSeq(stack, 1, Len(stack) - n)
Need == Len(stack) - 1
MaxStack == 4
Can(a) == CASE a = "push" -> Len(stack) < MaxStack /\ ops + Need + 1 <= MaxOps
            [] a = "un" -> Len(stack) > 0 /\ ops + Need + 1 <= MaxOps
            [] a = "help" -> Len(stack) > 0 /\ ops + Need + 1 <= MaxOps /\ helps < 3 /\ HSize(Top) <= 12
            [] a = "bin" -> Len(stack) > 1
            [] a = "stop" -> Len(stack) = 1 /\ ops >= 2
HelpKinds == IF lang = "m" THEN {"poly", "roots", "dpoly", "polyx", "slogistic", "ssoftplus", "sigmoid"}
             ELSE {"logistic", "softplus", "slogistic", "ssoftplus", "sigmoid", "dot", "sums", "lse", "efld", "iid", "e.stdnormal", "e.normal", "e.exponential", "d.stdnormal", "d.normal", "d.exponential", "d.cauchy"}
Small == Subs \o <<y, s, C(One)>>
Draw(n) == TLCEval([i \in 1 .. n |-> Small[RandomElement(DOMAIN Small)]])
Fill(n) == TLCEval([Draw(n) EXCEPT ![RandomElement(1 .. n)] = Top])
Help(k) == CASE k \in {"poly", "roots", "dpoly"} -> H(k, Coefs[RandomElement(DOMAIN Coefs)], <<Top>>)
             [] k = "polyx" -> H(k, <<>>, Fill(RandomElement(1 .. 4)))
             [] k = "dot" -> H(k, <<>>, Fill(2 * RandomElement(1 .. 3)))
             [] k = "sums" -> CHOOSE h \in {H(k, <<I(d), I(d - 1)>>, Fill(d * RandomElement(1 .. 3))) : d \in {RandomElement(1 .. 2)}} : TRUE
             [] k = "lse" -> H(k, <<>>, Fill(RandomElement(1 .. 4)))
             [] k = "efld" -> H(k, <<>>, Fill(2 * RandomElement(0 .. 2) + 2))
             [] k = "iid" -> H(k, <<>>, Fill(2 * RandomElement(0 .. 2) + 3))
             [] k \in {"e.normal", "d.normal", "d.cauchy"} -> H(k, <<>>, Fill(3))
             [] k \in {"e.exponential", "d.exponential"} -> H(k, <<>>, Fill(2))
             [] OTHER -> H(k, <<>>, <<Top>>)
Act(a) == CASE a = "push" -> /\ stack' = Append(stack, Leaf(RandomElement(1 .. 18))) /\ ops' = ops /\ helps' = helps /\ done' = FALSE
            [] a = "un" -> /\ stack' = Append(Rest(1), X1(RandomElement(Unary), Top)) /\ ops' = ops + 1 /\ helps' = helps /\ done' = FALSE
            [] a = "bin" -> /\ stack' = Append(Rest(2), X2(RandomElement(Binary), stack[Len(stack) - 1], Top)) /\ ops' = ops + 1 /\ helps' = helps /\ done' = FALSE
            [] a = "help" -> /\ stack' = Append(Rest(1), TLCEval(CHOOSE h \in {Help(k) : k \in {RandomElement(HelpKinds)}} : TRUE)) /\ ops' = ops + 1 /\ helps' = helps + 1 /\ done' = FALSE
            [] a = "stop" -> /\ stack' = stack /\ ops' = ops /\ helps' = helps /\ done' = TRUE
Actions == {"push", "un", "bin", "help", "stop"}
Random == /\ ~done /\ Mode = "prog"
          /\ LET en == {a \in Actions : Can(a)} IN en # {} /\ \E a \in {RandomElement(en)} : Act(a)
          /\ lang' = lang

Init == IF Mode = "prog" THEN stack = <<>> /\ ops = 0 /\ helps = 0 /\ lang \in {"s", "m"} /\ done = FALSE
        ELSE LET its == TLCEval(Catalogue) IN \E i \in DOMAIN its : stack = <<its[i]>> /\ ops = i /\ helps = 0 /\ lang = "s" /\ done = TRUE
Next == Random
Spec == Init /\ [][Next]_vars

P == stack[1]
(* ------------------------------ test points ------------------------------ *)
Grid == <<Half, I(-2), Zero, One, I(3), Dy(-1, -1), Dy(9, -2), RS(31), RN(32), Dy(1, -4), I(-1), I(2)>>
PosGrid == <<One, Half, I(2), Dy(5, -2), RN(33), I(3)>>
Salt == HSize(P) * 7 + ops * 3 + Seed
Pick(k) == Grid[1 + ((Salt + k * 5) % Len(Grid))]
Xs == IF Mode = "mags" THEN MagXs ELSE <<Pick(0), Pick(1), Pick(2)>>
Ps == IF Mode = "mags" THEN <<<<One, One>>>> ELSE <<<<Pick(3), PosGrid[1 + (Salt % Len(PosGrid))]>>, <<Pick(4), PosGrid[1 + ((Salt + 2) % Len(PosGrid))]>>>>

(* ------------------------------ the model itself ------------------------------ *)
TypeOK == /\ Len(stack) <= MaxStack
          /\ done => HVars(P) \subseteq {"x", "y", "s"} /\ Langs(P) # {}
          /\ (done /\ Mode = "prog") => lang \in Langs(P)
Points == {I(-2), I(-1), Zero, Half, One, I(3)}
InvHorner == (Mode = "helpers" /\ ops = 1) => \A i \in DOMAIN Small4 : \A t \in Points :
                /\ Horner(Small4[i], t) = PSum(Small4[i], t)
                /\ DualHorner(Small4[i], t) = <<PSum(Small4[i], t), DSum(Small4[i], t)>>
InvRoots == (Mode = "helpers" /\ ops = 1) => \A i \in DOMAIN Small4 :
                /\ \A j \in DOMAIN Small4[i] : FromRoots(Small4[i], Small4[i][j]) = Zero
                /\ \A t \in {Zero, One, I(-1)} : Len(Small4[i]) < 6 => FromRoots(Small4[i], t) = PSum(Conv(Small4[i]), t)
(* a program without helpers means what it means as an expression *)
RECURSIVE Plain(_)
Plain(p) == p.k \notin Helper /\ (IsLeaf(p) \/ \A i \in DOMAIN p.a : Plain(p.a[i]))
InvPlain == (done /\ Plain(P)) => Denote(P, FALSE) = Val(P)

Emit == done => PrintT("@@" \o ToJson([e |-> P, langs |-> SetToSeq(Langs(P)), val |-> Denote(P, Mode = "wide"), vars |-> SetToSeq(HVars(P)), plain |-> Plain(P), xs |-> Xs, ps |-> Ps]))
=============================================================================
