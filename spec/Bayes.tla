-------------------------------- MODULE Bayes --------------------------------
(***************************************************************************)
(* Bayesian model expressions and the log-density each of them names.      *)
(*                                                                         *)
(* A model is [k |-> kind, v |-> variable names, n |-> numbers,            *)
(*             s |-> submodels, e |-> expression (kind raw)]:              *)
(*   lik   <<x, mu, sigma>>              normal likelihood                 *)
(*   pri   <<p>>  <<m0, s0>>             normal prior                      *)
(*   post  <<l, p>>                      likelihood plus prior             *)
(*   hier  <<x, mu, sigma, tau>> <<m0, s0>>                                *)
(*   mix   <<x>>  weights, means, sds    normal mixture: log-sum-exp       *)
(*   mixs  weights, components           mixture of any models             *)
(*   reg   x, an expression, sigma       normal around an expression       *)
(*   var   <<name>>                      a variable                        *)
(*   raw   any expression                                                  *)
(* n of a mixture holds the weights, then the means, then the deviations,  *)
(* with the three lengths in front.                                        *)
(***************************************************************************)
EXTENDS Expr, Json, SequencesExt

M(k, v, n, s, e) == [k |-> k, v |-> v, n |-> n, s |-> s, e |-> e]
NoX == XC(Zero)
Lik(x, mu, sd) == M("lik", <<x, mu, sd>>, <<>>, <<>>, NoX)
Pri(p, m0, s0) == M("pri", <<p>>, <<m0, s0>>, <<>>, NoX)
Post(l, p) == M("post", <<>>, <<>>, <<l, p>>, NoX)
Hier(x, mu, sd, tau, m0, s0) == M("hier", <<x, mu, sd, tau>>, <<m0, s0>>, <<>>, NoX)
Mix(x, ws, ms, ss) == M("mix", <<x>>, <<I(Len(ws)), I(Len(ms)), I(Len(ss))>> \o ws \o ms \o ss, <<>>, NoX)
MixS(ws, ms) == M("mixs", <<>>, ws, ms, NoX)
Reg(x, e, sd) == M("reg", <<x, sd>>, <<>>, <<>>, e)
VarM(x) == M("var", <<x>>, <<>>, <<>>, NoX)
Raw(e) == M("raw", <<>>, <<>>, <<>>, e)

NW(m) == NInt(m.n[1])
Weight(m, i) == m.n[3 + i]
Mean(m, i) == m.n[3 + NInt(m.n[1]) + i]
Sd(m, i) == m.n[3 + NInt(m.n[1]) + NInt(m.n[2]) + i]
(* a mixture of unequally many weights, means and deviations is refused *)
RECURSIVE Well(_)
Well(m) == /\ m.k = "mix" => m.n[1] = m.n[2] /\ m.n[2] = m.n[3]
           /\ \A i \in DOMAIN m.s : Well(m.s[i])

RECURSIVE MVars(_)
MVars(m) == CASE m.k = "raw" -> Vars(m.e)
              [] m.k = "reg" -> {m.v[1], m.v[2]} \cup Vars(m.e)
              [] m.k = "mix" -> IF NW(m) = 0 THEN {} ELSE {m.v[1]}
              [] OTHER -> {m.v[i] : i \in DOMAIN m.v} \cup UNION {MVars(m.s[i]) : i \in DOMAIN m.s}

TV(s) == T("v", <<s>>)
HalfLnTwoPi == TLL(LAdd(LLn(Half, Two), LPi(Half)))
(* ln N(x; mu, sd), defined for sd > 0 *)
TNormal(x, mu, sd) == TSub(TNeg(TAdd(HalfLnTwoPi, TLn(sd))), TMul(TQ(Half), TSq(TDiv(TSub(x, mu), sd))))
LnWeight(w) == IF NIsZero(w) THEN TNInf ELSE TLn(TQ(w))
(* log-sum-exp; components without weight contribute nothing, and some component must have weight *)
Lse(ws, ts) == IF ws # <<>> /\ \A i \in DOMAIN ws : NIsZero(ws[i]) THEN TLn(TZero) ELSE TLse([i \in DOMAIN ts |-> TAdd(LnWeight(ws[i]), ts[i])])
RECURSIVE Den(_)
Den(m) ==
  CASE m.k = "lik" -> TNormal(TV(m.v[1]), TV(m.v[2]), TV(m.v[3]))
    [] m.k = "pri" -> TNormal(TV(m.v[1]), TQ(m.n[1]), TQ(m.n[2]))
    [] m.k = "post" -> TAdd(Den(m.s[1]), Den(m.s[2]))
    [] m.k = "hier" -> TSum(<<TNormal(TV(m.v[1]), TV(m.v[2]), TV(m.v[3])), TNormal(TV(m.v[2]), TQ(m.n[1]), TQ(m.n[2])), TNormal(TV(m.v[4]), TZero, TQ(m.n[2]))>>)
    [] m.k = "mix" -> Lse([i \in 1 .. NW(m) |-> Weight(m, i)], [i \in 1 .. NW(m) |-> TNormal(TV(m.v[1]), TQ(Mean(m, i)), TQ(Sd(m, i)))])
    [] m.k = "mixs" -> Lse(m.n, [i \in DOMAIN m.s |-> Den(m.s[i])])
    [] m.k = "reg" -> TNormal(TV(m.v[1]), Val(m.e), TV(m.v[2]))
    [] m.k = "var" -> TV(m.v[1])
    [] m.k = "raw" -> Val(m.e)
(* the exponents that every mixture in a model adds up *)
RECURSIVE Exponents(_)
Exponents(m) == (IF m.k \in {"mix", "mixs"} /\ Den(m).o = "lse" THEN <<Den(m).a>> ELSE <<>>) \o FlattenSeq([i \in DOMAIN m.s |-> Exponents(m.s[i])])
RECURSIVE HasMix(_)
HasMix(m) == m.k \in {"mix", "mixs"} \/ \E i \in DOMAIN m.s : HasMix(m.s[i])

(* equations between models that hold wherever both sides have a value; they *)
(* are evaluated with the numeric co-processor and check the specification  *)
Laws(m) ==
  CASE m.k = "post" -> <<Post(m.s[2], m.s[1])>>
    [] m.k = "pri" -> <<Mix(m.v[1], <<One>>, <<m.n[1]>>, <<m.n[2]>>), Mix(m.v[1], <<Half, Dy(1, -2), Dy(1, -2)>>, <<m.n[1], m.n[1], m.n[1]>>, <<m.n[2], m.n[2], m.n[2]>>),
                        MixS(<<Zero, One>>, <<Lik(m.v[1], m.v[1], m.v[1]), m>>)>>
    [] m.k = "hier" -> <<Post(Post(Lik(m.v[1], m.v[2], m.v[3]), Pri(m.v[2], m.n[1], m.n[2])), Pri(m.v[4], Zero, m.n[2]))>>
    [] m.k = "lik" -> <<Reg(m.v[1], XV(m.v[2]), m.v[3]), Lik(m.v[2], m.v[1], m.v[3])>>
    [] m.k = "mixs" -> <<MixS(Reverse(m.n), Reverse(m.s))>>
    [] m.k = "mix" -> IF Well(m) THEN <<MixS([i \in 1 .. NW(m) |-> Weight(m, i)], [i \in 1 .. NW(m) |-> Pri(m.v[1], Mean(m, i), Sd(m, i))])>> ELSE <<>>
    [] OTHER -> <<>>
=============================================================================
