----------------------------- MODULE JitSession -----------------------------
(***************************************************************************)
(* Native compilation as its callers see it.  Compiling divides the        *)
(* variables of an expression into data inputs, parameter inputs (both     *)
(* ordered) and named constants; it is refused when a variable of the      *)
(* expression belongs to none of them.  The compiled function has a shape  *)
(* that fixes which call method accepts it and with how many inputs; every *)
(* other call is refused.  An accepted call denotes the expression under   *)
(* the assignment that gives each variable the input in its place.         *)
(* Functions are independent of each other and of later compilations.      *)
(*                                                                         *)
(*   "partition"  one expression whose value identifies every binding, all *)
(*                divisions and orders of its variables, all call shapes   *)
(*   "wide"       0 to 40 data inputs and parameters                       *)
(*   "session"    several functions alive at once, calls interleaved       *)
(***************************************************************************)
EXTENDS Expr, Compiled, Json, SequencesExt, Randomization

CONSTANTS Seed, Mode, MaxSteps

VARIABLES fns, steps
vars == <<fns, steps>>

S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
RN(i) == Dy(1 + (S(i) % 61), -(S(i + 50) % 6))
RS(i) == IF S(i + 99) % 2 = 0 THEN RN(i) ELSE NNeg(RN(i))

(* ------------------------------ functions ------------------------------ *)
F(route, e, data, params, consts) == [route |-> route, e |-> e, data |-> data, params |-> params, consts |-> consts]
Bound(f) == Vars(f.e) \subseteq Known(f)
Methods == {"single", "dp", "dps", "batch"}
Accepts(f, m, nd, np) == Bound(f) /\ m = Shape(f) /\ nd = Len(f.data) /\ np = Len(f.params)
Sorted(e) == SelectSeq(<<"a", "b", "c", "d">>, LAMBDA v : v \in Vars(e))
(* which routes can express a division *)
CustomOK(f) == IF Len(f.data) = 1 THEN Vars(f.e) \ DOMAIN f.consts \subseteq SeqSet(f.data)   \* the input is the variable without a value
               ELSE f.data = <<>> /\ Cardinality(Vars(f.e) \ DOMAIN f.consts) > 1
RouteOK(f) == CASE f.route \in {"expr", "tagless", "consts"} -> TRUE
                [] f.route = "sig" -> DOMAIN f.consts = {}
                [] f.route = "single" -> Len(f.data) = 1 /\ f.params = <<>> /\ DOMAIN f.consts = {}
                [] f.route = "dp" -> Len(f.data) = 1 /\ Len(f.params) = 1 /\ DOMAIN f.consts = {}
                [] f.route = "dps" -> Len(f.data) = 1 /\ DOMAIN f.consts = {}
                [] f.route \in {"custom", "optimizer"} -> f.params = <<>> /\ CustomOK(f)
                [] f.route = "auto" -> f.data = Sorted(f.e) /\ f.params = <<>> /\ DOMAIN f.consts = {}
                [] OTHER -> FALSE
Routes == {"auto", "expr", "tagless", "consts", "sig", "single", "dp", "dps", "custom", "optimizer"}

RECURSIVE Perms(_)
Perms(A) == IF A = {} THEN {<<>>} ELSE UNION {{<<x>> \o p : p \in Perms(A \ {x})} : x \in A}
OfPerms(A) == UNION {Perms(U) : U \in SUBSET A}
Names == {"a", "b", "c", "d", "unused"}
Marked == X2("sub", X2("add", X2("mul", XC(I(2)), XV("a")), X2("div", XV("b"), XC(I(8)))), X2("mul", X2("sub", XV("c"), XC(One)), XV("d")))
ConstVal(v) == CASE v = "a" -> I(5) [] v = "b" -> I(-3) [] v = "c" -> Dy(3, -1) [] v = "d" -> I(7) [] OTHER -> I(100)
AllDivisions == UNION {UNION {{<<dd, p, k>> : p \in OfPerms((Names \ k) \ SeqSet(dd))} : dd \in OfPerms(Names \ k)} : k \in SUBSET Names}

(* ------------------------------ expressions of the sessions ------------------------------ *)
a == XV("a")
b == XV("b")
c == XV("c")
d == XV("d")
K(n) == XC(n)
NormalLP(x, m, s) == X2("sub", X2("sub", X1("neg", X2("mul", K(Half), X1("ln", K(Dy(25, -2))))), X1("ln", s)),
                        X2("div", X2("pow", X2("sub", x, m), K(Two)), X2("mul", K(Two), X2("pow", s, K(Two)))))
Pool == <<X2("sub", X2("mul", a, b), X2("div", c, d)), NormalLP(a, b, c), NormalLP(a, b, X1("exp", c)),
          X2("pow", a, K(I(3))), X2("pow", a, b), X2("pow", X1("neg", a), K(I(-3))), X2("pow", K(Two), X2("sub", a, b)),
          X1("sin", X2("mul", K(I(10)), a)), X1("cos", X2("add", a, X2("mul", K(I(4)), b))), X1("exp", X1("neg", X2("mul", a, a))),
          X1("ln", X2("add", K(One), X1("exp", a))), X2("div", K(One), X2("add", K(One), X1("exp", X1("neg", a)))),
          X1("sqrt", X2("add", X2("mul", a, a), X2("mul", b, b))), X1("ln", X1("sqrt", X2("mul", c, c))),
          X2("mul", X2("add", a, b), X2("mul", X2("sub", a, b), X2("add", c, d))), K(I(3)), a, X1("neg", d),
          X2("add", X2("mul", a, X1("ln", b)), X2("mul", X2("sub", K(One), a), X1("ln", X2("sub", K(One), b)))),
          X2("pow", X2("add", X2("mul", a, a), K(One)), K(Dy(-3, -1))), X2("pow", a, K(Zero)), X2("pow", a, K(I(4))), X2("pow", X1("exp", a), K(Half)),
          X2("div", X1("sin", a), X1("cos", a)), X2("mul", K(Dy(1, -20)), X1("exp", X2("mul", K(I(20)), a)))>>
VSet(e) == IF Vars(e) = {} THEN {"a"} ELSE Vars(e)
Divide(e, n) == DivideSet(VSet(e), n)

(* ------------------------------ steps ------------------------------ *)
In(i, k) == RS((i * 13 + k * 101) % 997)
Ins(n, k) == [i \in 1 .. n |-> In(i, k)]
\* small distinct whole numbers for the marked expression
DIns(n, k) == [i \in 1 .. n |-> I(3 * i + k)]
PIns(n, k) == [i \in 1 .. n |-> I(k - 4 * i)]
CompileStep(f) == [op |-> "compile", f |-> f, ok |-> Bound(f) /\ RouteOK(f), shape |-> Shape(f), val |-> Val(f.e), errs |-> Errs(f.e)]
CallStep(i, m, ds, ps) == LET f == fns[i] ok == Accepts(f, m, Len(ds), Len(ps)) IN
   [op |-> "call", i |-> i, m |-> m, ds |-> ds, ps |-> ps, ok |-> ok, env |-> IF ok THEN Bind(f, ds, ps) ELSE [v \in {} |-> Zero]]
Compile(f) == fns' = Append(fns, f) /\ steps' = Append(steps, CompileStep(f))
Call(i, m, ds, ps) == fns' = fns /\ steps' = Append(steps, CallStep(i, m, ds, ps))
\* natural inputs of every method; "single" and "dp" take a fixed number
Arities(m) == CASE m = "single" -> {<<1, 0>>} [] m = "dp" -> {<<1, 1>>} [] m = "dps" -> {<<1, n>> : n \in 0 .. 4} [] OTHER -> (0 .. 3) \X (0 .. 3)

Init == fns = <<>> /\ steps = <<>>
PStart == steps = <<>> /\ \E v \in AllDivisions, r \in Routes :
   LET f == F(r, Marked, v[1], v[2], [x \in v[3] |-> ConstVal(x)]) IN
   RouteOK(f) /\ Compile(f)
PCalls == /\ Len(steps) = 1
          /\ LET f == fns[1] good == CallStep(1, Shape(f), DIns(Len(f.data), 1), PIns(Len(f.params), -1))
                 bad == {CallStep(1, m, DIns(r[1], 3), PIns(r[2], 4)) : m \in {m \in Methods : TRUE}, r \in UNION {Arities(q) : q \in Methods}}
                 usable == {q \in bad : <<Len(q.ds), Len(q.ps)>> \in Arities(q.m)} IN
             steps' = steps \o <<good>> \o SetToSeq(usable) \o <<CallStep(1, Shape(f), DIns(Len(f.data), -17), PIns(Len(f.params), 20))>>
          /\ fns' = fns
VName(p, i) == p \o ToString(i)
RECURSIVE Weighted(_, _)
Weighted(s, n) == IF s = <<>> THEN XC(One) ELSE X2("add", X2("mul", XC(Dy(n, -1)), XV(Head(s))), X2("mul", Weighted(Tail(s), n + 1), XC(IF n % 2 = 0 THEN I(-1) ELSE One)))
WStart == steps = <<>> /\ \E nd \in {0, 1, 2, 3, 9, 20}, np \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 40}, r \in {"expr", "tagless", "dps"} :
   LET ds == [i \in 1 .. nd |-> VName("x", i)] ps == [i \in 1 .. np |-> VName("p", i)]
       f == F(r, Weighted(ds \o ps, 1), ds, ps, NoConsts) IN RouteOK(f) /\ Compile(f)
WCalls == /\ Len(steps) = 1
          /\ LET f == fns[1] m == Shape(f) nd == Len(f.data) np == Len(f.params)
                 call(x, y, k) == CallStep(1, m, Ins(x, k), Ins(y, k + 1)) IN
             steps' = steps \o <<call(nd, np, 1)>> \o (IF m \in {"dps", "batch"} THEN <<call(nd, np + 1, 2)>> ELSE <<>>)
                            \o (IF m \in {"dps", "batch"} /\ np > 0 THEN <<call(nd, np - 1, 2)>> ELSE <<>>)
                            \o (IF m = "batch" THEN <<call(nd + 1, np, 3)>> ELSE <<>>) \o (IF m = "batch" /\ nd > 0 THEN <<call(nd - 1, np, 3)>> ELSE <<>>)
                            \o <<call(nd, np, 4)>>
          /\ fns' = fns
SCompile == Len(fns) < 6 /\ \E i \in RandomSubset(3, DOMAIN Pool), n \in RandomSubset(2, 0 .. 161), r \in {"expr", "tagless", "consts", "custom", "optimizer", "dps", "auto"} :
   LET v == IF r = "auto" THEN <<Sorted(Pool[i]), <<>>, {}>> ELSE Divide(Pool[i], n) f == F(r, Pool[i], v[1], v[2], [x \in v[3] |-> ConstVal(x)]) IN RouteOK(f) /\ Compile(f)
SCall == fns # <<>> /\ \E i \in DOMAIN fns, k \in RandomSubset(2, 1 .. 900) :
   LET f == fns[i] IN Bound(f) /\ Call(i, Shape(f), Ins(Len(f.data), k), Ins(Len(f.params), k + 7))
Done == IF Mode = "session" THEN Len(steps) > MaxSteps ELSE Len(steps) > 1
SEnd == steps' = Append(steps, [op |-> "end"]) /\ fns' = fns
Next == ~Done /\ CASE Mode = "session" /\ Len(steps) = MaxSteps -> SEnd [] Mode = "partition" -> PStart \/ PCalls [] Mode = "wide" -> WStart \/ WCalls [] OTHER -> SCompile \/ SCall
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
TypeOK == Len(fns) <= Len(steps)
\* an accepted call gives every variable of the expression exactly one value
InvBind == \A p \in DOMAIN steps : (steps[p].op = "call" /\ steps[p].ok) => Vars(fns[steps[p].i].e) \subseteq DOMAIN steps[p].env
\* at most one method and arity accepts a function, and one does exactly when it was compiled
InvShape == (Mode # "session" /\ Done) =>
   \A p, q \in DOMAIN steps : (steps[p].op = "call" /\ steps[q].op = "call" /\ steps[p].ok /\ steps[q].ok)
       => steps[p].m = steps[q].m /\ Len(steps[p].ds) = Len(steps[q].ds) /\ Len(steps[p].ps) = Len(steps[q].ps)
InvMade == (Mode # "session" /\ Done) => (steps[1].ok <=> (\E p \in DOMAIN steps : steps[p].op = "call" /\ steps[p].ok))
\* the marked expression tells any two bindings of its variables apart
InvMarked == (Mode = "partition" /\ Done /\ steps[1].ok) =>
   LET s == steps[2].env ins == (SeqSet(fns[1].data) \cup SeqSet(fns[1].params)) \cap Vars(Marked) IN
   \A v, w \in ins : v # w => LET t == [s EXCEPT ![v] = s[w], ![w] = s[v]] IN
      (Ex(Marked, s).ok /\ Ex(Marked, t).ok) => Ex(Marked, t).n # Ex(Marked, s).n
\* a function never changes once it has been compiled
Stable == [][\A i \in DOMAIN fns : i \in DOMAIN fns' /\ fns'[i] = fns[i]]_vars
Emit == Done => PrintT("@@" \o ToJson([steps |-> steps]))
=============================================================================
