------------------------------ MODULE Saturation ------------------------------
(***************************************************************************)
(* Optimisation by equality saturation.                                    *)
(*                                                                         *)
(* Rules is the catalogue of identities the optimiser may use, as pairs of *)
(* patterns over the metavariables p q r s (constants: m n).  A rule is    *)
(* admissible when, wherever the left side and all its parts have a value, *)
(* so do the right side and all its parts, and the two sides agree: this   *)
(* is exactly what keeps every term of an e-graph that started with one    *)
(* expression equal to it wherever that expression is defined.  InvSound   *)
(* checks the catalogue on the rational fragment; the entries of Wrong are *)
(* not admissible, and InvWrong exhibits why.                              *)
(*                                                                         *)
(* The optimiser itself is a machine with a history of requests; an        *)
(* optimiser is a function: the answer to a request is the one a fresh     *)
(* optimiser gives, whatever it was asked before.                          *)
(* Modes: "rules" one request, an instance of each identity in a context;  *)
(* "session" random histories; "pairs" all short histories over requests   *)
(* that would disturb one another.                                         *)
(***************************************************************************)
EXTENDS Expr, Json, SequencesExt

CONSTANTS Seed, Mode, MaxHist

VARIABLES hist, done
vars == <<hist, done>>

Sd(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
RN(i) == Dy(1 + (Sd(i) % 61), -(Sd(i + 50) % 6))
RS(i) == IF Sd(i + 99) % 2 = 0 THEN RN(i) ELSE NNeg(RN(i))

p == XV("?p")
q == XV("?q")
r == XV("?r")
s == XV("?s")
m == XV("?m")
n == XV("?n")
IsMeta(v) == v \in {"?p", "?q", "?r", "?s"}
IsNum(v) == v \in {"?m", "?n"}
C(k) == XC(I(k))
Cz == C(0)
C1 == C(1)
C2 == C(2)
Ch == XC(Half)
A(e, f) == X2("add", e, f)
S(e, f) == X2("sub", e, f)
M(e, f) == X2("mul", e, f)
D(e, f) == X2("div", e, f)
P(e, f) == X2("pow", e, f)
L(e) == X1("ln", e)
E(e) == X1("exp", e)
R2(e) == X1("sqrt", e)
Si(e) == X1("sin", e)
Co(e) == X1("cos", e)
Ng(e) == X1("neg", e)

(* folding of constants is written with the arithmetic of Num, see Fold *)
Rules == <<
  <<A(p, Cz), p>>, <<A(Cz, p), p>>, <<S(p, Cz), p>>, <<S(p, p), Cz>>, <<M(p, C1), p>>, <<M(C1, p), p>>, <<M(p, Cz), Cz>>, <<M(Cz, p), Cz>>,
  <<D(p, C1), p>>, <<D(Cz, p), Cz>>, <<P(p, C1), p>>, <<P(p, Cz), C1>>, <<P(C1, p), C1>>, <<L(E(p)), p>>, <<E(L(p)), p>>, <<L(C1), Cz>>, <<E(Cz), C1>>,
  <<P(p, C2), M(p, p)>>, <<R2(p), P(p, Ch)>>, <<Ng(Ng(p)), p>>, <<Ng(Cz), Cz>>, <<A(p, Ng(p)), Cz>>, <<S(p, q), A(p, Ng(q))>>,
  <<A(M(p, q), M(r, q)), M(A(p, r), q)>>, <<A(M(p, q), M(p, r)), M(p, A(q, r))>>, <<A(L(p), L(q)), L(M(p, q))>>, <<S(L(p), L(q)), L(D(p, q))>>,
  <<M(m, L(p)), L(P(p, m))>>, <<M(E(p), E(q)), E(A(p, q))>>, <<D(E(p), E(q)), E(S(p, q))>>, <<P(E(p), m), E(M(m, p))>>,
  <<A(P(Si(p), C2), P(Co(p), C2)), C1>>, <<A(M(Si(p), Si(p)), M(Co(p), Co(p))), C1>>,
  <<A(A(p, q), r), A(p, A(q, r))>>, <<M(M(p, q), r), M(p, M(q, r))>>, <<A(p, q), A(q, p)>>, <<M(p, q), M(q, p)>>,
  <<M(P(p, q), P(p, r)), P(p, A(q, r))>>, <<D(P(p, q), P(p, r)), P(p, S(q, r))>>, <<P(P(p, q), m), P(p, M(q, m))>>,
  <<A(m, n), A(n, m)>>, <<M(m, n), M(n, m)>>, <<S(m, n), A(m, Ng(n))>>, <<D(m, n), M(m, P(n, C(-1)))>>,
  <<A(p, p), M(C2, p)>>, <<A(M(m, p), M(n, p)), M(A(m, n), p)>>, <<A(M(m, p), p), M(A(m, C1), p)>>, <<A(p, M(m, p)), M(A(C1, m), p)>>,
  <<D(p, p), C1>>, <<M(D(p, q), D(r, s)), D(M(p, r), M(q, s))>>, <<D(D(p, q), r), D(p, M(q, r))>>,
  <<M(A(p, q), S(p, q)), S(M(p, p), M(q, q))>>, <<L(P(p, m)), M(m, L(p))>>, <<E(M(q, L(p))), P(p, q)>>, <<L(R2(p)), M(Ch, L(p))>>,
  <<Si(Ng(p)), Ng(Si(p))>>, <<Co(Ng(p)), Co(p)>>, <<Si(Cz), Cz>>, <<Co(Cz), C1>> >>
(* side conditions on the constants *)
IntN(x) == x[2] = 1 /\ x[3] >= 0
EvenN(x) == IntN(x) /\ (x[1] = 0 \/ x[3] >= 1)
Guard(rule, b) == CASE rule[1] = P(P(p, q), m) -> IntN(b["?m"])
                    [] rule[1] = L(P(p, m)) -> ~EvenN(b["?m"])
                    [] OTHER -> TRUE
(* look-alikes that do not hold everywhere *)
Wrong == << <<P(P(p, q), m), P(p, M(q, m))>>, <<L(P(p, m)), M(m, L(p))>>, <<R2(M(p, p)), p>>, <<S(p, q), S(q, p)>>, <<P(p, q), P(q, p)>>, <<M(Cz, p), p>>,
            <<D(D(p, q), r), M(p, D(q, r))>>, <<D(p, q), P(q, p)>> >>

RECURSIVE Inst(_, _)
Inst(e, b) == CASE e.k = "v" -> IF e.a[1] \in DOMAIN b THEN b[e.a[1]] ELSE e
                [] e.k = "c" -> e
                [] OTHER -> X(e.k, [i \in DOMAIN e.a |-> Inst(e.a[i], b)])

(* ------------------------- the catalogue is sound ------------------------- *)
Values == <<Zero, One, I(-1), Two, I(-2), Half, I(3), Dy(-3, -1)>>
RECURSIVE Defined(_, _)
Defined(e, b) == /\ Ex(e, b).ok
                 /\ IsLeaf(e) \/ \A i \in DOMAIN e.a : Defined(e.a[i], b)
HasVars(e, ns) == Vars(e) \cap ns
Binds(l) == [Vars(l) -> {Values[i] : i \in DOMAIN Values}]
FewBinds(l) == IF Cardinality(Vars(l)) <= 2 THEN Binds(l)
               ELSE [Vars(l) -> {Zero, One, I(-1), Two, Half}]
(* parts that the rational fragment cannot follow are not decided here *)
RECURSIVE Decided(_, _)
Decided(e, b) == CASE e.k \in {"c", "v"} -> TRUE
                   [] e.k = "sqrt" -> Decided(e.a[1], b) /\ LET u == Ex(e.a[1], b) IN u.ok /\ (u.n \in {Zero, One, I(4), Dy(1, -2)} \/ NLt(u.n, Zero))
                   [] e.k = "ln" -> Decided(e.a[1], b) /\ LET u == Ex(e.a[1], b) IN u.ok /\ (u.n = One \/ NLe(u.n, Zero))
                   [] e.k \in {"sin", "cos", "exp"} -> Decided(e.a[1], b) /\ Ex(e.a[1], b) = Good(Zero)
                   [] e.k = "pow" -> Decided(e.a[1], b) /\ Decided(e.a[2], b) /\
                                     LET v == Ex(e.a[2], b) IN v.ok /\ (v.n \in {Zero, One, Two, I(3), I(4)} \/ (v.n = I(-1) /\ Ex(e.a[1], b).ok)
                                                    \/ (v.n = Half /\ LET u == Ex(e.a[1], b) IN u.ok /\ (u.n \in {Zero, One, I(4), Dy(1, -2)} \/ NLt(u.n, Zero))))
                   [] e.k = "div" -> Decided(e.a[1], b) /\ Decided(e.a[2], b) /\ Ex(e.a[2], b).ok
                   [] OTHER -> \A i \in DOMAIN e.a : Decided(e.a[i], b)
Holds(rule, b) == (Defined(rule[1], b) /\ Decided(rule[2], b)) => (Defined(rule[2], b) /\ Ex(rule[2], b) = Ex(rule[1], b))
RuleOk(rule) == \A b \in FewBinds(rule[1]) : Guard(rule, b) => Holds(rule, b)

(* ------------------------------- requests ------------------------------- *)
x == XV("x")
y == XV("y")
Pool == <<x, y, C(-2), A(x, C1), M(x, y), XC(RS(1)), Ng(x), P(x, C2), C1, R2(x), S(y, Ch), L(x), E(y), Cz, D(x, y), Si(x), XC(RN(2))>>
Leaves == <<C2, XC(Half), C(-1), C(3), XC(RS(3)), Cz, C1, XC(Dy(123456789, -20)), XC(Dy(1, -30))>>
Pk(seq, i) == seq[1 + (i % Len(seq))]
BindOf(l, i, j) == [v \in Vars(l) |-> CASE v = "?p" -> Pk(Pool, i) [] v = "?q" -> Pk(Pool, j) [] v = "?r" -> Pk(Pool, i + 2 * j + 3) [] v = "?s" -> Pk(Pool, 3 * i + j + 5)
                                       [] v = "?m" -> Pk(Leaves, j) [] v = "?n" -> Pk(Leaves, i + 4)]
Ctx(k, e) == CASE k = 0 -> e [] k = 1 -> S(e, y) [] k = 2 -> P(e, C2) [] k = 3 -> D(C1, e) [] k = 4 -> L(e) [] k = 5 -> R2(M(e, e)) [] k = 6 -> Ng(A(x, e)) [] k = 7 -> M(e, e) [] k = 8 -> P(C2, e)
               [] OTHER -> L(P(e, C2))
All == Rules \o Wrong
(* an instance of identity k, the left or the right side, in a context *)
Req(k, side, i, j, c) == Ctx(c, Inst(All[k][side], BindOf(All[k][1], i, j)))
OneMeta(k) == Cardinality(Vars(All[k][1])) <= 1
Draw(t) == [k |-> RandomElement(DOMAIN All), side |-> RandomElement({1, 2}), i |-> RandomElement(0 .. 16), j |-> RandomElement(0 .. 16), c |-> RandomElement({0, 0, t - 1, t + 3})]
Of(z) == Req(z.k, z.side, z.i, z.j, z.c)
(* requests that would leave traces in a shared store of equalities *)
Disturb == <<M(Cz, L(x)), D(Cz, Cz), D(Cz, x), D(x, x), P(Cz, Cz), S(D(C1, x), D(C1, x)), M(Cz, D(C1, x)), E(L(x)), L(E(x)), P(R2(x), C2), A(x, Cz), Cz, C1, x,
             P(P(x, C2), Ch), L(P(x, C2)), M(R2(x), R2(x)), A(L(x), L(x)), M(x, y), D(M(Cz, y), S(x, x)), R2(x), L(x), A(x, x), M(C2, x)>>

RulesInit == /\ hist \in {<<[k |-> k, side |-> sd, i |-> i, j |-> j, c |-> c]>> :
                          k \in DOMAIN All, sd \in {1, 2}, i \in 0 .. 4, j \in 0 .. 2, c \in {0}}
                \cup {<<[k |-> k, side |-> 1, i |-> (k * 3 + c + Seed) % 17, j |-> (k + 5 * c) % 17, c |-> c]>> : k \in DOMAIN All, c \in 1 .. 9}
             /\ done = TRUE
SessInit == hist = <<>> /\ done = FALSE
PairInit == hist \in {<<a>> : a \in DOMAIN Disturb} /\ done = FALSE
Init == CASE Mode = "rules" -> RulesInit [] Mode = "session" -> SessInit [] OTHER -> PairInit
Ask == CASE Mode = "session" -> \E t \in 1 .. 6 : hist' = Append(hist, Draw(t))
         [] Mode = "pairs" -> \E a \in DOMAIN Disturb : hist' = Append(hist, a)
         [] OTHER -> FALSE
Next == ~done /\ \/ Len(hist) < MaxHist /\ Ask /\ done' = FALSE
                 \/ Len(hist) = MaxHist /\ done' = TRUE /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars

Expr0(z) == IF Mode = "pairs" THEN Disturb[z] ELSE Of(z)
TypeOK == Len(hist) <= MaxHist
(* checked once: the catalogue does not depend on the state *)
First == done /\ (Mode = "rules" /\ hist[1].side = 1 /\ hist[1].i = 0 /\ hist[1].j = 0 /\ hist[1].c = 0)
InvSound == First /\ hist[1].k <= Len(Rules) => RuleOk(Rules[hist[1].k])
InvWrong == First /\ hist[1].k > Len(Rules) => \E b \in FewBinds(All[hist[1].k][1]) : ~Holds(All[hist[1].k], b)
Grid == <<Half, I(-2), Zero, One, I(3), Dy(-1, -1), Dy(9, -2), RS(4), RN(5), Dy(1, -4), I(-1), I(2)>>
Item(z, k) == LET e == Expr0(z) IN
              [e |-> e, val |-> Val(e), errs |-> Errs(e), ops |-> Ops(e), mass |-> Mass(e), redex |-> Redex(e), vars |-> SetToSeq(Vars(e)), xs |-> <<Pk(Grid, k), Pk(Grid, k + 5), Pk(Grid, k + 1)>>,
               ys |-> <<Pk(Grid, k + 3), Pk(Grid, k + 8)>>, more |-> <<>>]
Key(z) == IF Mode = "pairs" THEN z ELSE z.k * 3 + z.i + z.j * 7 + z.c
Emit == done => PrintT("@@" \o ToJson([hist |-> [a \in DOMAIN hist |-> Item(hist[a], Key(hist[a]))],
                                       same |-> [a \in DOMAIN hist |-> CHOOSE b \in 1 .. a : hist[b] = hist[a] /\ \A d \in 1 .. b - 1 : hist[d] # hist[a]]]))
=============================================================================
