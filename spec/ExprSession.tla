----------------------------- MODULE ExprSession -----------------------------
(***************************************************************************)
(* A client builds an expression bottom up on a stack and then asks for    *)
(* its value by every route at the points of a grid.  With Small the       *)
(* leaves are few and every expression of at most MaxOps operations is     *)
(* built; otherwise TLC walks at random through much larger ones.          *)
(***************************************************************************)
EXTENDS Expr, Json, SequencesExt

CONSTANTS Seed, MaxOps, Small, Shape

VARIABLES stack, ops, done
vars == <<stack, ops, done>>

S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
RN(i) == Dy(1 + (S(i) % 61), -(S(i + 50) % 6))
RS(i) == IF S(i + 99) % 2 = 0 THEN RN(i) ELSE NNeg(RN(i))
Names == <<"x", "y", "mu", "x1", "e2", "alpha_1", "Exp", "lnx">>

SmallLeaves == {XV("x"), XV("y")} \cup {XC(n) : n \in {Zero, One, Two, I(-1), Half}}
SmallLeaf(i) == CASE i = 1 -> XV("x") [] i = 2 -> XV("y") [] i = 3 -> XC(Zero) [] i = 4 -> XC(One) [] i = 5 -> XC(Two) [] i = 6 -> XC(I(-1)) [] i = 7 -> XC(Half)
                  [] i = 8 -> XC(RS(1)) [] i = 9 -> XC(RS(2)) [] i = 10 -> XC(I(-2)) [] i = 11 -> XC(I(3)) [] i = 12 -> XC(I(10))
                  [] i = 13 -> XC(Dy(1, 40)) [] i = 14 -> XC(Dy(-1, -30)) [] i = 15 -> XC(I(4)) [] i = 16 -> XC(Dy(5, -1)) [] i = 17 -> XV("x")
                  [] i = 18 -> XV("y") [] i = 19 -> XV("x") [] i = 20 -> XV(Names[1 + (S(3) % Len(Names))]) [] i = 21 -> XC(Dy(1234567, -4)) [] i = 22 -> XC(I(-5))
NLeaf == IF Small THEN 7 ELSE 22
MaxStack == IF Small THEN 3 ELSE 4

Init == stack = <<>> /\ ops = 0 /\ done = FALSE
Need == Len(stack) - 1        \* binary operations still required to reduce the stack
Push == /\ Len(stack) < MaxStack
        /\ ops + Need + 1 <= MaxOps
        /\ \E i \in 1 .. NLeaf : stack' = Append(stack, SmallLeaf(i))
        /\ ops' = ops /\ done' = FALSE
Top == stack[Len(stack)]
UnKinds == IF Shape = "poly" THEN {} ELSE Unary
Un == /\ Len(stack) > 0 /\ ops + 1 + Need <= MaxOps
      /\ \E k \in UnKinds : stack' = Append(SubSeq(stack, 1, Len(stack) - 1), X1(k, Top))
      /\ ops' = ops + 1 /\ done' = FALSE
BinKinds == IF Shape = "poly" THEN {"add", "sub", "mul", "pow"} ELSE Binary
PolyOk(k, l, r) == Shape # "poly" \/ (CASE k = "mul" -> {l.k, r.k} = {"c", "v"}
                                         [] k = "pow" -> l.k = "v" /\ r.k = "c"
                                         [] OTHER -> TRUE)
Bin == /\ Len(stack) > 1
       /\ \E k \in BinKinds : LET l == stack[Len(stack) - 1] r == Top IN
            /\ PolyOk(k, l, r)
            /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2), X2(k, l, r))
       /\ ops' = ops + 1 /\ done' = FALSE
(* shapes the rewriting rules look for: both operands the same *)
Dup == /\ ~Small /\ Shape # "poly" /\ Len(stack) > 0 /\ Ops(Top) > 0 /\ ops + Ops(Top) + 1 + Need <= MaxOps
       /\ \E k \in {"add", "sub", "mul", "div", "pow"} : stack' = Append(SubSeq(stack, 1, Len(stack) - 1), X2(k, Top, Top))
       /\ ops' = ops + Ops(Top) + 1 /\ done' = FALSE
Finish == Len(stack) = 1 /\ (Small \/ Ops(Top) >= 2) /\ done' = TRUE /\ UNCHANGED <<stack, ops>>
Next == ~done /\ (Push \/ Un \/ Bin \/ Dup \/ Finish)
Spec == Init /\ [][Next]_vars

E == stack[1]
(* ------------------------------ test points ------------------------------ *)
RECURSIVE Hash(_)
Hash(e) == CASE e.k = "v" -> 17 [] e.k = "c" -> (e.a[1][1] % 53) + 60
             [] e.k \in Unary -> (Hash(e.a[1]) * 31 + Len(e.k) + 7) % 8191
             [] OTHER -> (Hash(e.a[1]) * 131 + Hash(e.a[2]) * 37 + Len(e.k)) % 8191
Grid == <<Half, I(-2), Zero, One, I(3), Dy(-1, -1), Dy(9, -2), RS(4), RN(5), Dy(1, -4), I(-1), I(2)>>
Pick(k) == Grid[1 + ((Hash(E) + k * 5 + Seed) % Len(Grid))]
Xs == <<Pick(0), Pick(1), Pick(2)>>
Ys == <<Pick(3), Pick(4)>>
Other(v) == RN(7 + Len(v))
Extra == Vars(E) \ {"x", "y"}

(* ------------------------------ the model itself ------------------------------ *)
Env(x, y) == [v \in {"x", "y"} \cup Extra |-> IF v = "x" THEN x ELSE IF v = "y" THEN y ELSE Other(v)]
TypeOK == /\ Len(stack) <= MaxStack /\ ops <= MaxOps
          /\ done => Ops(E) <= MaxOps
(* substituting a value for a variable and evaluating in the extended assignment agree *)
InvSubst == done => \A i \in 1 .. 3 : LET s == Env(Xs[i], Ys[1]) IN
               /\ Ex(Subst(E, [v \in {"x"} |-> Xs[i]]), s) = Ex(E, s)
               /\ Ex(Subst(E, s), <<>>) = Ex(E, s)
               /\ Vars(Subst(E, s)) = {}
               /\ Vars(Subst(E, [v \in {"x"} |-> Xs[i]])) = Vars(E) \ {"x"}
               /\ Ops(Subst(E, s)) = Ops(E)
(* only the free variables matter *)
InvFree == done => \A i \in 1 .. 3 : LET s == Env(Xs[i], Ys[1]) IN
               Ex(E, [v \in Vars(E) |-> s[v]]) = Ex(E, s)
(* a missing variable always leaves the expression without a value *)
InvBound == (done /\ Vars(E) # {}) => ~Ex(E, <<>>).ok
InvDepth == done => Depth(E) <= Ops(E)

Emit == done => PrintT("@@" \o ToJson([e |-> E, val |-> Val(E), errs |-> Errs(E), ops |-> Ops(E), mass |-> Mass(E), redex |-> Redex(E), vars |-> SetToSeq(Vars(E)),
          xs |-> Xs, ys |-> Ys, more |-> [v \in Extra |-> Other(v)]]))
=============================================================================
