------------------------------ MODULE ExprGrid ------------------------------
(***************************************************************************)
(* Every operation with operands of every magnitude: subnormal numbers, the*)
(* ends of the range, whole numbers past the width of small integer types, *)
(* both signs, zero and one.  "one" enumerates every operation with a      *)
(* constant on either side, with two variables and with two constants;     *)
(* "two" nests two operations around a variable and two constants, the     *)
(* shape of every rule that regroups constants.  "tall" are expressions of *)
(* many operations, deeply nested or long sums, around a core that may hold*)
(* an idle operation: size must make no difference.                        *)
(***************************************************************************)
EXTENDS Expr, Json, SequencesExt

CONSTANTS Seed, Mode, Width

VARIABLE e

Mags == <<Zero, One, I(-1), Two, I(-2), Half, Dy(-1, -1), I(3), I(-3), I(4), I(5), I(-5), I(6), I(7), I(8), I(10), I(16), I(-17), I(64), I(100), I(127), I(128), I(-128), I(255), I(256), I(257), I(300),
          I(-300), I(1000), I(4096), I(65535), I(65536), I(65537), Dy(1, 31), Dy(-1, 31), Dy(1, 32), Dy(1, 53), Dy(3, -1), Dy(-5, -1), Dy(1, -2), Dy(1048577, -20), Dy(1, -20), Dy(-1, -30), Dy(1, -53),
          Dy(1, 100), Dy(-1, 300), Dy(1, 600), Dy(1, 1000), Dy(1, -300), Dy(-1, -600), Dy(1, -1000), Dy(1, -1050), Dy(-3, -1060), Dy(1, -1074)>>
NM == Len(Mags)
XGrid == <<Zero, One, I(-1), Two, Half, I(-3), I(5), Dy(3, -1), Dy(-5, -1), Dy(1048577, -20), Dy(-1048575, -20), Dy(1, -20), Dy(-1, -30), I(1000), I(-65537), Dy(1, 40), Dy(-1, 300), Dy(1, 600), Dy(1, 1000),
           Dy(1, -300), Dy(-1, -600), Dy(1, -1000), Dy(5, -1050), Dy(-3, -1060), I(700), I(-740)>>
x == XV("x")
y == XV("y")
K(i) == XC(Mags[i])
BinSeq == <<"add", "sub", "mul", "div", "pow">>
UnSeq == <<"ln", "exp", "sqrt", "sin", "cos", "neg">>
S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
Cn(i) == K(1 + (S(i) % NM))

OneOps == {X2(k, x, K(i)) : k \in Binary, i \in 1 .. NM} \cup {X2(k, K(i), x) : k \in Binary, i \in 1 .. NM}
          \cup {X2(k, x, y) : k \in Binary} \cup {X1(k, x) : k \in Unary} \cup {X1(k, K(i)) : k \in Unary, i \in 1 .. NM}
          \cup {X2(BinSeq[k], Cn(n * 5 + k), Cn(n * 7 + 3 * k + 100)) : k \in 1 .. 5, n \in 1 .. 20}
(* two operations; the constants vary with everything else *)
Nest(h, f, g, c, d) == CASE h = 1 -> X2(f, X2(g, x, c), d) [] h = 2 -> X2(f, X2(g, c, x), d) [] h = 3 -> X2(f, d, X2(g, x, c)) [] h = 4 -> X2(f, d, X2(g, c, x))
                         [] h = 5 -> X2(f, X2(g, x, c), X2(g, x, d)) [] h = 6 -> X2(f, X2(g, x, c), x)
TwoOps == {LET z == (((h * 6 + f) * 6 + g) * 20 + n) % 4093 IN Nest(h, BinSeq[f], BinSeq[g], Cn(z), Cn(z + 4099)) : h \in 1 .. 6, f \in 1 .. 5, g \in 1 .. 5, n \in 1 .. Width}
          \cup {LET z == (u * 6 + g) * 40 + n IN IF n % 2 = 0 THEN X1(UnSeq[u], X2(BinSeq[g], x, Cn(z))) ELSE X1(UnSeq[u], X2(BinSeq[g], Cn(z), x)) : u \in 1 .. 6, g \in 1 .. 5, n \in 1 .. 2 * Width}
          \cup {LET z == (u * 6 + g) * 40 + n + 17 IN IF n % 2 = 0 THEN X2(BinSeq[g], X1(UnSeq[u], x), Cn(z)) ELSE X2(BinSeq[g], Cn(z), X1(UnSeq[u], x)) : u \in 1 .. 6, g \in 1 .. 5, n \in 1 .. 2 * Width}
          \cup {X1(UnSeq[u], X1(UnSeq[v], x)) : u \in 1 .. 6, v \in 1 .. 6}

Cores == {X2("mul", x, XC(One)), X2("add", XC(Zero), x), X2("sub", x, x), X1("ln", X1("exp", x)), X1("neg", X1("neg", x)), X2("div", x, XC(One)),
          X2("add", X2("mul", x, XC(Two)), y)}
Cycle == <<<<"sin", "cos">>, <<"sin", "cos", "exp">>, <<"neg", "sin">>>>
RECURSIVE Tower(_, _, _)
Tower(c, f, n) == IF n = 0 THEN c ELSE X1(f[1 + (n % Len(f))], Tower(c, f, n - 1))
Item(i) == LET v == IF i % 3 = 0 THEN y ELSE x  k == XC(I(2 + ((i * 7 + Seed) % 11))) IN
           CASE i % 4 = 0 -> X2("mul", k, v) [] i % 4 = 1 -> X2("div", v, k) [] i % 4 = 2 -> X1("sin", X2("mul", v, k)) [] i % 4 = 3 -> v
RECURSIVE Chain(_, _, _)
Chain(c, left, n) == IF n = 0 THEN c
                     ELSE LET r == Chain(c, left, n - 1)  k == IF (n + Seed) % 3 = 0 THEN "sub" ELSE "add" IN
                          IF left THEN X2(k, r, Item(n)) ELSE X2(k, Item(n), r)
Towers == {Tower(c, Cycle[f], n) : c \in Cores, f \in DOMAIN Cycle, n \in {11, 24, 60}}
Chains == {Chain(c, left, n) : c \in Cores, left \in BOOLEAN, n \in {9, 40}}
Init == e \in (CASE Mode = "one" -> OneOps [] Mode = "two" -> TwoOps [] Mode = "tall" -> Towers [] Mode = "long" -> Chains)
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_e

Big == Mode \in {"tall", "long"}
TypeOK == (Ops(e) \in {1, 2, 3} \/ Big) /\ Vars(e) \subseteq {"x", "y"}
(* inside the exactly computable part: an operation with a neutral or absorbing constant *)
Small == {n \in {XGrid[i] : i \in DOMAIN XGrid} : SmallN(n)}
At(n) == Ex(e, [v \in {"x", "y"} |-> n])
InvNeutral == (Ops(e) = 1 /\ e.k \in Binary /\ e.a[1] = x /\ e.a[2].k = "c") => \A n \in Small :
   /\ (<<e.k, e.a[2].a[1]>> \in {<<"add", Zero>>, <<"sub", Zero>>, <<"mul", One>>, <<"div", One>>, <<"pow", One>>} => (At(n).ok => At(n).n = n))
   /\ (<<e.k, e.a[2].a[1]>> = <<"mul", Zero>> => (At(n).ok => At(n).n = Zero))
   /\ (<<e.k, e.a[2].a[1]>> = <<"pow", Zero>> => (At(n).ok => At(n).n = One))
   /\ (<<e.k, e.a[2].a[1]>> = <<"div", Zero>> => ~At(n).ok)
Emit == PrintT("@@" \o ToJson([e |-> e, val |-> Val(e), errs |-> Errs(e), ops |-> Ops(e), mass |-> Mass(e), redex |-> Redex(e), vars |-> SetToSeq(Vars(e)),
          xs |-> IF Big THEN <<Half, I(-3), One, Dy(3, -1), Dy(-5, -3)>> ELSE XGrid, ys |-> IF Big THEN <<Two, Dy(-7, -2)>> ELSE IF "y" \in Vars(e) THEN XGrid ELSE <<One>>, more |-> [v \in {} |-> Zero]]))
=============================================================================
