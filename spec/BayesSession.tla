----------------------------- MODULE BayesSession -----------------------------
(***************************************************************************)
(* The Bayesian optimiser as its callers see it: three slots (posterior,   *)
(* likelihood, prior), each empty or holding a compiled function.          *)
(* Compiling a model into a slot succeeds when every variable of the model *)
(* is a data input, a parameter or a constant, and then replaces what the  *)
(* slot held; otherwise it is refused and the slot keeps what it had.  A   *)
(* prior has no data.  Evaluating an empty slot gives nothing, a filled    *)
(* one gives the value of the latest model compiled into it, and a call    *)
(* with the wrong number of inputs is refused.                             *)
(*                                                                         *)
(*   "models"   models of every kind, their values by interpretation       *)
(*   "divide"   one model, all divisions of its variables, all slots       *)
(*   "slots"    every short history over good and bad compilations         *)
(*   "session"  long random histories                                      *)
(***************************************************************************)
EXTENDS Bayes, Compiled, Randomization

CONSTANTS Seed, Mode, MaxSteps
VARIABLES slots, steps
vars == <<slots, steps>>

S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
RN(i) == Dy(1 + (S(i) % 61), -(S(i + 50) % 6))
Fifth == <<1, 5, 0>>
RS(i) == IF S(i + 99) % 2 = 0 THEN RN(i) ELSE NNeg(RN(i))

(* ------------------------------- models ------------------------------- *)
Basic == <<Lik("x", "mu", "sigma"), Lik("y", "m", "s"), Lik("x", "y", "sigma"), Lik("x", "x", "sigma"), Lik("sigma", "mu", "sigma"), Lik("x1", "x2", "x3"),
           Pri("mu", Zero, One), Pri("sigma", RS(1), RN(2)), Pri("x", I(-3), Dy(1, -3)), Pri("mu", I(1000), I(512)), Pri("tau", Zero, Dy(1, -20)), Pri("m", RS(3), I(4096)),
           Hier("x", "mu", "sigma", "tau", RS(4), RN(5)), Hier("y", "m", "s", "t", Zero, I(10)), Hier("x", "mu", "tau", "tau", One, Two),
           Hier("mu", "sigma", "x", "y", Dy(5, -1), Dy(1, -1)), Hier("x", "mu", "sigma", "tau", I(40), Dy(1, -4)),
           Reg("y", X2("add", XV("a"), X2("mul", XV("b"), XV("x"))), "sigma"), Reg("y", X1("exp", X2("mul", XV("b"), XV("x"))), "s"), Reg("x", X1("sqrt", XV("mu")), "x"),
           Raw(X1("neg", X2("mul", XV("mu"), XV("mu")))), Raw(XC(RS(6))), Raw(X1("ln", XV("sigma"))), VarM("x"), VarM("mu")>>
Mixtures == <<Mix("x", <<>>, <<>>, <<>>), Mix("x", <<One>>, <<RS(7)>>, <<RN(8)>>), Mix("x", <<Half, Half>>, <<I(-2), I(2)>>, <<One, One>>),
              Mix("x", <<Dy(1, -2), Dy(3, -2)>>, <<RS(9), RS(10)>>, <<RN(11), RN(12)>>), Mix("mu", <<Dy(1, -3), Dy(5, -3), Dy(1, -2)>>, <<RS(13), RS(14), RS(15)>>, <<RN(16), RN(17), RN(18)>>),
              Mix("x", <<Zero, One>>, <<I(5), I(-5)>>, <<One, Two>>), Mix("x", <<Half, Zero, Half>>, <<One, Zero, I(-1)>>, <<Half, One, Two>>), Mix("x", <<Zero>>, <<Zero>>, <<One>>),
              Mix("x", <<I(2), I(3)>>, <<Zero, One>>, <<One, One>>), Mix("x", <<Dy(1, -10), Dy(1023, -10)>>, <<I(50), Zero>>, <<Dy(1, -3), One>>),
              Mix("x", <<Fifth, Fifth, Fifth, Fifth, Fifth>>, <<I(1), I(2), I(3), I(4), I(5)>>, <<RN(19), RN(20), RN(21), RN(22), RN(23)>>),
              Mix("x", <<One, One>>, <<Zero>>, <<One, One>>), Mix("x", <<One>>, <<Zero>>, <<>>), Mix("x", <<>>, <<Zero>>, <<One>>), Mix("x", <<One>>, <<One, One>>, <<One, One>>),
              MixS(<<>>, <<>>), MixS(<<Half, Half>>, <<Basic[1], Basic[2]>>), MixS(<<Dy(1, -2), Dy(3, -2)>>, <<Basic[1], Basic[6]>>), MixS(<<One>>, <<Basic[13]>>),
              MixS(<<Half, Zero, Half>>, <<Basic[1], Basic[7], Basic[9]>>), MixS(<<RN(24), RN(25)>>, <<Basic[7], Raw(X1("neg", XV("mu")))>>),
              MixS(<<Dy(1, -1), Dy(1, -1)>>, <<Mix("x", <<Half, Half>>, <<I(-2), I(2)>>, <<One, One>>), Basic[1]>>)>>
Pool == Basic \o Mixtures
Both == {Post(Pool[i], Pool[j]) : i \in DOMAIN Pool, j \in DOMAIN Pool}
Deep == {Post(Post(Basic[1], Basic[3]), Basic[i]) : i \in DOMAIN Basic} \cup {Post(Basic[i], Post(Basic[j], Mixtures[3])) : i \in {1, 7, 13}, j \in {2, 8, 14}}
        \cup {Post(Basic[1], Post(Basic[7], Post(Basic[8], Basic[11])))}
AllModels == {Pool[i] : i \in DOMAIN Pool} \cup Both \cup Deep

(* a value for every variable, by number; deviations may come out negative, and every third set is far out *)
Far(k) == k % 3 = 0
ValueOf(v, k) == LET h == (CASE v = "x" -> 1 [] v = "mu" -> 2 [] v = "sigma" -> 3 [] v = "tau" -> 4 [] v = "y" -> 5 [] v = "m" -> 6 [] v = "s" -> 7 [] v = "t" -> 8 [] v = "a" -> 9 [] v = "b" -> 10 [] OTHER -> 11) * 17 + k * 101 IN
                 IF v \in {"sigma", "s", "tau", "x3"} /\ k % 7 # 0 THEN RN(h % 997) ELSE IF Far(k) /\ v \in {"x", "x1"} THEN NMul(RS(h % 997), I(IF k % 2 = 0 THEN 40 ELSE 3)) ELSE RS(h % 997)
EnvOf(V, k) == [v \in V |-> ValueOf(v, k)]

(* ------------------------------- slots ------------------------------- *)
SlotNames == {"posterior", "likelihood", "prior"}
Nothing == [m |-> Raw(XC(Zero)), data |-> <<>>, params |-> <<>>, consts |-> NoConsts, ok |-> FALSE]
Fn(m, data, params, consts) == [m |-> m, data |-> data, params |-> params, consts |-> consts, ok |-> TRUE]
Bound(f) == MVars(f.m) \subseteq Known(f)
CompileStep(sl, f) == [op |-> "compile", slot |-> sl, f |-> f, ok |-> Bound(f)]
Answer(f, nd, np) == IF ~f.ok THEN "nothing" ELSE IF nd = Len(f.data) /\ np = Len(f.params) THEN "value" ELSE "refused"
EvalStep(st, sl, ds, ps) == LET f == st[sl] q == Answer(f, Len(ds), Len(ps)) IN
   [op |-> "eval", slot |-> sl, ds |-> ds, ps |-> ps, answer |-> q, den |-> IF q = "value" THEN Den(f.m) ELSE TZero, exps |-> IF q = "value" THEN Exponents(f.m) ELSE <<>>,
    env |-> IF q = "value" THEN Bind(f, ds, ps) ELSE NoConsts]
After(st, sl, f) == IF Bound(f) THEN [st EXCEPT ![sl] = f] ELSE st
Compile(sl, f) == slots' = After(slots, sl, f) /\ steps' = Append(steps, CompileStep(sl, f))
Eval(sl, ds, ps) == slots' = slots /\ steps' = Append(steps, EvalStep(slots, sl, ds, ps))
Inputs(names, k) == [i \in DOMAIN names |-> ValueOf(names[i], k)]
Right(st, sl, k) == EvalStep(st, sl, Inputs(st[sl].data, k), Inputs(st[sl].params, k))
AnyWrong(st, sl, k) == LET d == Inputs(st[sl].data, k) p == Inputs(st[sl].params, k) IN
   <<EvalStep(st, sl, d, p \o <<One>>), EvalStep(st, sl, d \o <<One>>, p)>> \o (IF p = <<>> THEN <<>> ELSE <<EvalStep(st, sl, d, Tail(p))>>)
      \o (IF d = <<>> THEN <<>> ELSE <<EvalStep(st, sl, Tail(d), p)>>) \o (IF d = <<>> \/ p = <<>> THEN <<>> ELSE <<EvalStep(st, sl, Tail(d), <<Head(d)>> \o p)>>)
Wrong(st, sl, k) == SelectSeq(AnyWrong(st, sl, k), LAMBDA q : sl = "prior" => q.ds = <<>>)
\* a prior is told no data
Told(sl, m, n) == LET v == DivideSet(MVars(m), n) IN
   Fn(m, IF sl = "prior" THEN <<>> ELSE v[1], IF sl = "prior" THEN v[1] \o v[2] ELSE v[2], [x \in v[3] |-> ValueOf(x, n + 1)])

Empty == [sl \in SlotNames |-> Nothing]
Init == slots = Empty /\ steps = <<>>
MStart == steps = <<>> /\ slots' = slots /\ \E m \in AllModels : steps' = <<[op |-> "model", m |-> m, well |-> Well(m), mvars |-> SetToSeq(MVars(m)),
             den |-> IF Well(m) THEN Den(m) ELSE TZero, exps |-> IF Well(m) THEN Exponents(m) ELSE <<>>, laws |-> IF Well(m) THEN [i \in DOMAIN Laws(m) |-> Den(Laws(m)[i])] ELSE <<>>,
             envs |-> [k \in 1 .. 6 |-> EnvOf(MVars(m), k + (S(7) % 7))]]>>
Dividable == {m \in {Pool[i] : i \in DOMAIN Pool} \cup {Post(Basic[1], Pool[i]) : i \in {2, 4, 7, 8, 11, 13, 18}} \cup {Post(Mixtures[3], Basic[7])} : Well(m) /\ Cardinality(MVars(m)) < 5}
DStart == steps = <<>> /\ \E m \in Dividable, sl \in SlotNames : \E n \in Divisions(MVars(m)) : Compile(sl, Told(sl, m, n))
DCalls == Len(steps) = 1 /\ LET sl == steps[1].slot others == SetToSeq(SlotNames \ {sl}) IN
          steps' = steps \o <<Right(slots, sl, 1), Right(slots, sl, 2), Right(slots, sl, 3)>> \o Wrong(slots, sl, 1) \o [i \in DOMAIN others |-> EvalStep(slots, others[i], <<One>>, <<One>>)] /\ slots' = slots
\* short histories
Apt(sl, i) == Told(sl, IF sl = "posterior" THEN (IF i = 1 THEN Post(Basic[1], Basic[7]) ELSE Post(Mixtures[4], Basic[8]))
                        ELSE IF sl = "likelihood" THEN (IF i = 1 THEN Basic[1] ELSE Basic[18]) ELSE (IF i = 1 THEN Basic[7] ELSE Post(Basic[7], Basic[8])),
                    IF sl = "likelihood" THEN (IF i = 1 THEN 3 ELSE 11) ELSE IF i = 1 THEN 7 ELSE 4)
Poor(sl) == Fn(Basic[13], IF sl = "prior" THEN <<>> ELSE <<"x">>, <<"mu", "tau">>, NoConsts)
HAct == Len(steps) < MaxSteps /\ \E sl \in SlotNames : \/ \E i \in {1, 2} : Compile(sl, Apt(sl, i))
                                                       \/ Compile(sl, Poor(sl))
                                                       \/ steps' = Append(steps, Right(slots, sl, 2)) /\ slots' = slots
HEnd == Len(steps) = MaxSteps /\ slots' = slots /\ steps' = steps \o <<Right(slots, "posterior", 1), Right(slots, "likelihood", 1), Right(slots, "prior", 1)>>
\* long histories
SAct == Len(steps) < MaxSteps /\ \E sl \in SlotNames :
   \/ \E m \in {RandomElement({q \in AllModels : Well(q)})} : \E n \in {RandomElement(Divisions(MVars(m)))} : \E drop \in {RandomElement(1 .. 5)} :
        LET f == TLCEval(Told(sl, m, n)) IN Compile(sl, IF drop = 1 /\ f.params # <<>> THEN [f EXCEPT !.params = Tail(f.params)] ELSE f)
   \/ \E k \in {RandomElement(1 .. 900)} : steps' = Append(steps, Right(slots, sl, k)) /\ slots' = slots
   \/ \E k \in {RandomElement(1 .. 900)} : LET w == Wrong(slots, sl, k) IN steps' = Append(steps, w[1 + (k % Len(w))]) /\ slots' = slots
SEnd == Len(steps) = MaxSteps /\ slots' = slots /\ steps' = Append(steps, [op |-> "end"])
Done == CASE Mode = "models" -> Len(steps) = 1 [] Mode = "divide" -> Len(steps) > 1 [] OTHER -> Len(steps) > MaxSteps
Next == ~Done /\ CASE Mode = "models" -> MStart [] Mode = "divide" -> DStart \/ DCalls [] Mode = "slots" -> HAct \/ HEnd [] OTHER -> SAct \/ SEnd
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ------------------------------- *)
Compiles(sl) == {p \in DOMAIN steps : steps[p].op = "compile" /\ steps[p].slot = sl /\ steps[p].ok}
\* a slot holds what was last compiled into it
InvLatest == \A sl \in SlotNames : LET c == Compiles(sl) IN
   IF c = {} THEN slots[sl] = Nothing ELSE slots[sl] = steps[CHOOSE p \in c : \A q \in c : q <= p].f
InvTold == \A sl \in SlotNames : slots[sl].ok => Bound(slots[sl])
\* an accepted call gives every variable of the model a value, and a prior takes no data
InvBind == \A p \in DOMAIN steps : (steps[p].op = "eval" /\ steps[p].answer = "value" /\ steps[p].slot = "prior") => steps[p].ds = <<>>
InvLaws == (Mode = "models" /\ Done) => \A i \in DOMAIN steps[1].laws : steps[1].well
\* a step changes no slot but the one it names
Own == [][\A sl \in SlotNames : slots'[sl] # slots[sl] => steps'[Len(steps')].op = "compile" /\ steps'[Len(steps')].slot = sl]_vars
Emit == Done => PrintT("@@" \o ToJson([steps |-> steps]))
=============================================================================
