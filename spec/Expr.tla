-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Symbolic expressions and what they denote.                              *)
(*                                                                         *)
(* An expression is [k |-> kind, a |-> arguments]:                         *)
(*    [k |-> "c", a |-> <<Num>>]       a constant                          *)
(*    [k |-> "b", a |-> <<bits>>]      a constant recorded from the code   *)
(*    [k |-> "v", a |-> <<name>>]      a variable                          *)
(*    unary  ln exp sqrt sin cos neg   binary  add sub mul div pow         *)
(* Val(e) is its value as a term whose leaves are variables ("v"); the     *)
(* term is strict: it has a value only where every part of it has one.     *)
(* Errs(e) lists what can make it undefined: an error of the given kind    *)
(* occurs where the condition c has a value and holds; w is the offending  *)
(* value.                                                                  *)
(***************************************************************************)
EXTENDS LogLin, Terms, Integers, Sequences, FiniteSets, TLC

Unary == {"ln", "exp", "sqrt", "sin", "cos", "neg"}
Binary == {"add", "sub", "mul", "div", "pow"}
X(k, a) == [k |-> k, a |-> a]
XC(n) == X("c", <<n>>)
XV(s) == X("v", <<s>>)
X1(k, e) == X(k, <<e>>)
X2(k, e, f) == X(k, <<e, f>>)
IsLeaf(e) == e.k \in {"c", "b", "v"}

RECURSIVE Vars(_)
Vars(e) == CASE e.k = "v" -> {e.a[1]}
             [] e.k \in {"c", "b"} -> {}
             [] e.k \in Unary -> Vars(e.a[1])
             [] OTHER -> Vars(e.a[1]) \cup Vars(e.a[2])
RECURSIVE Ops(_)
Ops(e) == CASE IsLeaf(e) -> 0
            [] e.k \in Unary -> 1 + Ops(e.a[1])
            [] OTHER -> 1 + Ops(e.a[1]) + Ops(e.a[2])
(* what an e-graph extracts by: every operation and every leaf counts, a leaf for itself and its content *)
RECURSIVE Mass(_)
Mass(e) == CASE IsLeaf(e) -> 2
             [] e.k \in Unary -> 1 + Mass(e.a[1])
             [] OTHER -> 1 + Mass(e.a[1]) + Mass(e.a[2])
RECURSIVE Consts(_)
Consts(e) == CASE e.k \in {"c", "b"} -> 1
               [] e.k = "v" -> 0
               [] e.k \in Unary -> Consts(e.a[1])
               [] OTHER -> Consts(e.a[1]) + Consts(e.a[2])
(* how expensive evaluation is taken to be: functions count three *)
RECURSIVE Cost(_)
Cost(e) == CASE IsLeaf(e) -> 1
             [] e.k \in Unary -> (IF e.k = "neg" THEN 1 ELSE 3) + Cost(e.a[1])
             [] OTHER -> 1 + Cost(e.a[1]) + Cost(e.a[2])
RECURSIVE Depth(_)
Depth(e) == CASE IsLeaf(e) -> 0
              [] e.k \in Unary -> 1 + Depth(e.a[1])
              [] OTHER -> LET l == Depth(e.a[1]) r == Depth(e.a[2]) IN 1 + (IF l > r THEN l ELSE r)

RECURSIVE Val(_)
Val(e) == CASE e.k = "c" -> TQ(e.a[1])
            [] e.k = "b" -> T("bits", e.a)
            [] e.k = "v" -> T("v", e.a)
            [] e.k = "add" -> TAdd(Val(e.a[1]), Val(e.a[2]))
            [] e.k = "sub" -> TSub(Val(e.a[1]), Val(e.a[2]))
            [] e.k = "mul" -> TMul(Val(e.a[1]), Val(e.a[2]))
            [] e.k = "div" -> TDiv(Val(e.a[1]), Val(e.a[2]))
            [] e.k = "pow" -> TPow(Val(e.a[1]), Val(e.a[2]))
            [] OTHER -> T(e.k, <<Val(e.a[1])>>)

Err(kind, c, w) == [kind |-> kind, c |-> c, w |-> w]
RECURSIVE Errs(_)
Errs(e) ==
  CASE e.k = "v" -> <<Err("var", T("unbound", e.a), TZero)>>
    [] e.k \in {"c", "b"} -> <<>>
    [] e.k = "div" -> <<Err("div", CEq(Val(e.a[2]), TZero), TZero)>> \o Errs(e.a[1]) \o Errs(e.a[2])
    [] e.k = "ln" -> <<Err("ln", CLe(Val(e.a[1]), TZero), Val(e.a[1]))>> \o Errs(e.a[1])
    [] e.k = "sqrt" -> <<Err("sqrt", CLt(Val(e.a[1]), TZero), Val(e.a[1]))>> \o Errs(e.a[1])
    [] e.k \in Unary -> Errs(e.a[1])
    [] OTHER -> Errs(e.a[1]) \o Errs(e.a[2])

(* equality of trees; constants of the code are compared by the co-processor *)
RECURSIVE SameX(_, _)
SameX(e, f) == IF e.k # f.k THEN FALSE
               ELSE CASE IsLeaf(e) -> e.a[1] = f.a[1]
                      [] e.k \in Unary -> SameX(e.a[1], f.a[1])
                      [] OTHER -> SameX(e.a[1], f.a[1]) /\ SameX(e.a[2], f.a[2])

(* something a simplifier must take away: neutral and absorbing constants, a thing against itself, inverses *)
IsC(e, n) == e.k = "c" /\ e.a[1] = n
Idle(e) == CASE e.k = "add" -> IsC(e.a[1], Zero) \/ IsC(e.a[2], Zero)
             [] e.k = "sub" -> IsC(e.a[2], Zero) \/ SameX(e.a[1], e.a[2])
             [] e.k = "mul" -> \E i \in {1, 2} : IsC(e.a[i], Zero) \/ IsC(e.a[i], One)
             [] e.k = "div" -> IsC(e.a[2], One) \/ IsC(e.a[1], Zero)
             [] e.k = "pow" -> IsC(e.a[2], One) \/ IsC(e.a[2], Zero) \/ IsC(e.a[1], One)
             [] e.k = "ln" -> e.a[1].k = "exp"
             [] e.k = "exp" -> e.a[1].k = "ln"
             [] e.k = "neg" -> e.a[1].k = "neg"
             [] OTHER -> FALSE
RECURSIVE Redex(_)
Redex(e) == IF IsLeaf(e) THEN FALSE ELSE Idle(e) \/ \E i \in DOMAIN e.a : Redex(e.a[i])

(* replace variables by constants; s is a function from names to Num *)
RECURSIVE Subst(_, _)
Subst(e, s) == CASE e.k = "v" -> IF e.a[1] \in DOMAIN s THEN XC(s[e.a[1]]) ELSE e
                 [] e.k \in {"c", "b"} -> e
                 [] OTHER -> X(e.k, [i \in DOMAIN e.a |-> Subst(e.a[i], s)])

(* ---- the fragment that stays exactly rational, evaluated inside the model ---- *)
Bad == [ok |-> FALSE, n |-> Zero]
Good(n) == [ok |-> TRUE, n |-> n]
SmallN(n) == /\ (n[1] < 1024 /\ n[1] > -1024) /\ n[2] < 64 /\ n[3] < 6 /\ n[3] > -6
RECURSIVE Ex(_, _)
Ex(e, s) ==
  CASE e.k = "c" -> IF SmallN(e.a[1]) THEN Good(e.a[1]) ELSE Bad
    [] e.k = "v" -> IF e.a[1] \in DOMAIN s THEN Good(s[e.a[1]]) ELSE Bad
    [] e.k = "b" -> Bad
    [] e.k \in {"sin", "cos", "exp", "ln"} ->
         LET u == Ex(e.a[1], s) IN
         IF ~u.ok THEN Bad
         ELSE IF e.k = "ln" THEN (IF u.n = One THEN Good(Zero) ELSE Bad)
         ELSE IF u.n = Zero THEN Good(IF e.k = "sin" THEN Zero ELSE One) ELSE Bad
    [] e.k = "neg" -> LET u == Ex(e.a[1], s) IN IF u.ok THEN Good(NNeg(u.n)) ELSE Bad
    [] e.k = "sqrt" -> LET u == Ex(e.a[1], s) IN
         IF u.ok /\ u.n \in {Zero, One, I(4), Dy(1, -2)} THEN Good(IF u.n = I(4) THEN Two ELSE IF u.n = Dy(1, -2) THEN Half ELSE u.n) ELSE Bad
    [] OTHER ->
         LET u == Ex(e.a[1], s) v == Ex(e.a[2], s) IN
         IF ~u.ok \/ ~v.ok THEN Bad
         ELSE LET r == CASE e.k = "add" -> Good(NAdd(u.n, v.n))
                         [] e.k = "sub" -> Good(NSub(u.n, v.n))
                         [] e.k = "mul" -> Good(NMul(u.n, v.n))
                         [] e.k = "div" -> IF NIsZero(v.n) THEN Bad ELSE Good(NDiv(u.n, v.n))
                         [] e.k = "pow" -> IF v.n \in {I(3), I(4)} /\ ~(u.n[1] < 32 /\ u.n[1] > -32 /\ u.n[2] < 8) THEN Bad
                                           ELSE IF v.n \in {Zero, One, Two, I(3), I(4)} THEN Good(NPow(u.n, v.n[1] * Pow2(v.n[3])))
                                           ELSE IF v.n = I(-1) /\ ~NIsZero(u.n) THEN Good(NInv(u.n))
                                           ELSE IF v.n = Half /\ u.n \in {Zero, One, I(4), Dy(1, -2)} THEN Good(IF u.n = I(4) THEN Two ELSE IF u.n = Dy(1, -2) THEN Half ELSE u.n) ELSE Bad
              IN IF r.ok /\ SmallN(r.n) THEN r ELSE Bad
=============================================================================
