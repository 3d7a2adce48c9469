--------------------------- MODULE SymbolicSession ---------------------------
(***************************************************************************)
(* A symbolic density: an expression, stored parameters and the history of *)
(* substitutions and simplifications applied to it.  Substituting replaces *)
(* exactly the variables that have a stored value; simplifying may return  *)
(* any expression of the same meaning.  Evaluation looks a variable up     *)
(* first among the values supplied, then among the stored parameters.      *)
(***************************************************************************)
EXTENDS ExprSession

CONSTANT MaxHist
VARIABLES params, hist
svars == <<stack, ops, done, params, hist>>
PVal(v) == CASE v = "x" -> Half [] v = "y" -> I(-3) [] OTHER -> RN(40)
Subsets == {p \in SUBSET (Vars(E) \cup {"unused"}) : Cardinality(p) <= 3}

SInit == Init /\ params = <<>> /\ hist = <<"none">>
Build == ~done /\ (Push \/ Un \/ Bin \/ Dup) /\ UNCHANGED <<params, hist>>
Store == /\ ~done /\ Len(stack) = 1 /\ (Small \/ Ops(Top) >= 2) /\ done' = TRUE
         /\ \E p \in Subsets : params' = [v \in p |-> IF v = "unused" THEN Two ELSE PVal(v)]
         /\ hist' = <<>> /\ UNCHANGED <<stack, ops>>
Step(o) == done /\ Len(hist) < MaxHist /\ hist' = Append(hist, o) /\ UNCHANGED <<stack, ops, done, params>>
SNext == Build \/ Store \/ Step("substitute") \/ Step("simplify")
SSpec == SInit /\ [][SNext]_svars

(* the expression after i operations, as far as it is determined: simplification is left out *)
Substituted(h) == \E j \in DOMAIN h : h[j] = "substitute"
Cur(h) == IF Substituted(h) THEN Subst(E, params) ELSE E
Lookup(v, env) == IF v \in DOMAIN env THEN env[v] ELSE params[v]
Assign(env) == [v \in DOMAIN env \cup DOMAIN params |-> Lookup(v, env)]
Free == Vars(E)
EnvOf(vs, k) == [v \in vs |-> Grid[1 + ((Hash(E) + k * 5 + Len(v)) % Len(Grid))]]
Envs == <<[v \in {} |-> Zero], EnvOf({"x"}, 1), EnvOf({"y"}, 2), EnvOf(Free, 3), EnvOf(Free \ DOMAIN params, 4), EnvOf(Free \cup {"zz"}, 5), EnvOf({"x"}, 6)>>

STypeOK == done => (Len(hist) <= MaxHist /\ DOMAIN params \subseteq Free \cup {"unused"})
(* with no override, substitution changes nothing; after it an override of a stored parameter has no effect *)
InvSubstSame == (done /\ Ops(E) <= 4) => \A k \in DOMAIN Envs :
   LET a == Assign(Envs[k]) IN
   /\ (DOMAIN Envs[k] \cap DOMAIN params = {}) => Ex(Subst(E, params), a) = Ex(E, a)
   /\ Ex(Subst(E, params), a) = Ex(E, [v \in DOMAIN a |-> IF v \in DOMAIN params THEN params[v] ELSE a[v]])
(* substituting twice is substituting once *)
InvIdem == done => SameX(Subst(Subst(E, params), params), Subst(E, params))
InvVars == done => Vars(Subst(E, params)) = Free \ DOMAIN params

SEmit == (done /\ Len(hist) = MaxHist) =>
   PrintT("@@" \o ToJson([e |-> E, params |-> params, hist |-> hist, envs |-> Envs,
      steps |-> [j \in 1 .. MaxHist + 1 |-> LET h == SubSeq(hist, 1, j - 1) IN
                  [e |-> Cur(h), val |-> Val(Cur(h)), errs |-> Errs(Cur(h)), vars |-> SetToSeq(Vars(Cur(h))), exact |-> \A q \in DOMAIN h : h[q] # "simplify"]],
      at |-> [k \in DOMAIN Envs |-> Assign(Envs[k])]]))
=============================================================================
