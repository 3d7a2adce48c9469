---------------------------- MODULE LawDefaults ----------------------------
(* every family that offers a default: one obligation each *)
EXTENDS Laws, Json
VARIABLE f
Init == f \in {"normal", "cauchy", "studentt", "chisq", "exponential", "poisson", "gamma", "beta", "bernoulli", "geometric"}
Next == FALSE /\ f' = f
Spec == Init /\ [][Next]_f
Emit == PrintT("@@" \o ToJson([f |-> f, p |-> Default(f)])) /\ Valid(D(f, Default(f)))
=============================================================================
