------------------------------ MODULE ExprCache ------------------------------
(***************************************************************************)
(* The process-wide caches of simplified expressions and of values, as a   *)
(* client sees them: a history of cached simplifications, cached           *)
(* evaluations, sweeps over many distinct calls, and clearings.            *)
(*                                                                         *)
(* A call is identified by the expression (and the assignment) itself, not *)
(* by its printed form; the pool of expressions is chosen so that many     *)
(* print alike.  A failed evaluation leaves nothing behind.                *)
(***************************************************************************)
EXTENDS Expr, Json, SequencesExt, Randomization

CONSTANTS Seed, MaxHist, NExpr, NEnv

VARIABLES simp, eval, st, hist
vars == <<simp, eval, st, hist>>

x == XV("x")
y == XV("y")
Pool == <<X2("add", x, y), X2("sub", x, y),                                    \* x + y, x - y
          X1("ln", x), X2("div", XC(One), x),                                  \* fail at x <= 0, at x = 0
          X2("sub", y, x), X2("add", y, x),
          X2("mul", XC(Two), x), X2("mul", XV("2"), x),                        \* the constant 2 and a variable called 2
          X2("pow", XC(I(-2)), XC(Two)), X1("neg", X2("pow", XC(Two), XC(Two))), X2("pow", X1("neg", XC(Two)), XC(Two)),
          XV("(x + y)"), X2("add", XV("x"), XV("y")), XV("x + y"),             \* a variable whose name is a text
          X1("sqrt", X2("pow", x, XC(Two))), X1("sqrt", X2("pow", x, XC(I(2)))),
          X2("add", X2("add", x, y), XC(One)), X2("add", x, X2("add", y, XC(One))),
          X2("mul", x, XC(Dy(134217729, -30))), X2("mul", x, XC(Dy(1, -3))), X1("exp", X1("ln", x)), X1("ln", X1("exp", x)),
          X2("sub", X2("mul", x, x), X2("mul", x, x)), XC(Two), XV("2"), XC(I(-2)), X1("neg", XC(Two)),
          X2("div", x, x), X2("mul", XC(Zero), X1("ln", x))>>
EnvPool == <<[v \in {"x", "y"} |-> IF v = "x" THEN One ELSE Two], [v \in {"x", "y"} |-> IF v = "x" THEN Two ELSE One],
             [v \in {"x", "y"} |-> IF v = "x" THEN I(-1) ELSE Zero],
             [v \in {"x"} |-> One], [v \in {"x", "y", "z"} |-> IF v = "x" THEN One ELSE IF v = "y" THEN Two ELSE I(3)],
             [v \in {"x", "2", "(x + y)", "x + y", "y"} |-> IF v = "x" THEN I(3) ELSE IF v = "y" THEN I(5) ELSE IF v = "2" THEN I(7) ELSE I(11)],
             [v \in {"x", "y"} |-> IF v = "x" THEN Zero ELSE I(-12)], [v \in {"y", "xy"} |-> One], [v \in {"x", "y"} |-> IF v = "x" THEN I(12) ELSE One],
             [v \in {"x", "y"} |-> IF v = "x" THEN One ELSE I(21)], [v \in {} |-> Zero]>>
ExprIx == IF NExpr >= Len(Pool) THEN DOMAIN Pool ELSE 1 .. NExpr
EnvIx == 1 .. NEnv

(* which evaluations succeed: every variable bound and no error; in this pool errors come from ln, / and sqrt of x only *)
RECURSIVE Fails(_, _)
Fails(e, s) ==
  CASE e.k = "v" -> e.a[1] \notin DOMAIN s
    [] e.k = "c" -> FALSE
    [] e.k = "ln" -> Fails(e.a[1], s) \/ (e.a[1].k = "v" /\ NSgn(s[e.a[1].a[1]]) <= 0)
    [] e.k = "div" -> Fails(e.a[1], s) \/ Fails(e.a[2], s) \/ (e.a[2].k = "v" /\ NIsZero(s[e.a[2].a[1]]))
    [] e.k \in Unary -> Fails(e.a[1], s)
    [] OTHER -> Fails(e.a[1], s) \/ Fails(e.a[2], s)
(* the expressions that are equal as trees are the same call *)
RepF == [i \in DOMAIN Pool |-> CHOOSE j \in DOMAIN Pool : SameX(Pool[j], Pool[i]) /\ \A k \in 1 .. j - 1 : ~SameX(Pool[k], Pool[i])]
Rep(i) == RepF[i]
FailF == [i \in DOMAIN Pool |-> [j \in DOMAIN EnvPool |-> Fails(Pool[i], EnvPool[j])]]
SweepSizes == {40, 3000}

Zero4 == [sh |-> 0, sm |-> 0, eh |-> 0, em |-> 0]
Init == simp = {} /\ eval = {} /\ st = Zero4 /\ hist = <<>>
Add(h) == hist' = Append(hist, h)
Rec(op, i, j, hit) == [op |-> op, i |-> i, j |-> j, hit |-> hit, st |-> st']
\* a long history draws its calls from a few candidates per step
Few(S) == IF MaxHist > 20 THEN RandomSubset(3, S) ELSE S
Simplify == \E i \in Few(ExprIx) :
   /\ IF <<Rep(i), 0>> \in simp THEN st' = [st EXCEPT !.sh = @ + 1] /\ simp' = simp
      ELSE st' = [st EXCEPT !.sm = @ + 1] /\ simp' = simp \cup {<<Rep(i), 0>>}
   /\ Add(Rec("s", i, 0, <<Rep(i), 0>> \in simp)) /\ eval' = eval
Evaluate == \E i \in Few(ExprIx), j \in Few(EnvIx) :
   LET key == <<Rep(i), j>> IN
   /\ IF key \in eval THEN st' = [st EXCEPT !.eh = @ + 1] /\ eval' = eval
      ELSE st' = [st EXCEPT !.em = @ + 1] /\ eval' = IF FailF[i][j] THEN eval ELSE eval \cup {key}
   /\ Add(Rec("e", i, j, key \in eval)) /\ simp' = simp
(* n distinct expressions, each simplified or evaluated once *)
SweepS == \E n \in SweepSizes :
   LET key == <<0, n>> low == {m \in SweepSizes : <<0, m>> \in simp}
       known == IF low = {} THEN 0 ELSE CHOOSE m \in low : \A q \in low : q <= m
       old == IF known < n THEN known ELSE n IN
   /\ st' = [st EXCEPT !.sh = @ + old, !.sm = @ + (n - old)] /\ simp' = simp \cup {key}
   /\ Add(Rec("S", n, 0, old = n)) /\ eval' = eval
SweepE == \E n \in SweepSizes :
   LET key == <<0, n>> low == {m \in SweepSizes : <<0, m>> \in eval}
       known == IF low = {} THEN 0 ELSE CHOOSE m \in low : \A q \in low : q <= m
       old == IF known < n THEN known ELSE n IN
   /\ st' = [st EXCEPT !.eh = @ + old, !.em = @ + (n - old)] /\ eval' = eval \cup {key}
   /\ Add(Rec("E", n, 0, old = n)) /\ simp' = simp
Clear == simp' = {} /\ eval' = {} /\ st' = Zero4 /\ Add([op |-> "clear", i |-> 0, j |-> 0, hit |-> FALSE, st |-> Zero4])
Next == Len(hist) < MaxHist /\ (Simplify \/ Evaluate \/ Clear)
Spec == Init /\ [][Next]_vars
LNext == Len(hist) < MaxHist /\ (Simplify \/ Evaluate \/ Clear \/ SweepS \/ SweepE)
LSpec == Init /\ [][LNext]_vars

(* ------------------------------ properties ------------------------------ *)
SinceClear(p) == CHOOSE q \in 0 .. p : (q = 0 \/ hist[q].op = "clear") /\ \A r \in q + 1 .. p : hist[r].op # "clear"
Calls(p, ops) == LET q == SinceClear(p) IN {r \in q + 1 .. p : hist[r].op \in ops}
Weight(r) == IF hist[r].op \in {"S", "E"} THEN hist[r].i ELSE 1
RECURSIVE Total(_)
Total(rs) == IF rs = {} THEN 0 ELSE LET r == CHOOSE r \in rs : TRUE IN Weight(r) + Total(rs \ {r})
TypeOK == Len(hist) <= MaxHist
(* every call is counted once, as a hit or as a miss *)
InvCount == LET n == Len(hist) IN /\ st.sh + st.sm = Total(Calls(n, {"s", "S"}))
                                  /\ st.eh + st.em = Total(Calls(n, {"e", "E"}))
(* a repeated successful call with no clearing in between is a hit; a first call is none *)
InvRepeat == \A p \in {Len(hist)} \ {0} : hist[p].op \in {"s", "e"} =>      \* every prefix of a history is itself a state
   LET before == {r \in Calls(p - 1, {hist[p].op}) : Rep(hist[r].i) = Rep(hist[p].i) /\ hist[r].j = hist[p].j} IN
   hist[p].hit <=> (before # {} /\ (hist[p].op = "s" \/ ~FailF[hist[p].i][hist[p].j]))
Emit == (Len(hist) = MaxHist) => PrintT("@@" \o ToJson([hist |-> hist]))
Describe == PrintT("@@" \o ToJson([pool |-> [i \in DOMAIN Pool |-> [e |-> Pool[i], val |-> Val(Pool[i]), errs |-> Errs(Pool[i])]], envs |-> EnvPool]))
=============================================================================
