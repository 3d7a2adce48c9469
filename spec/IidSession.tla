---------------------------- MODULE IidSession ----------------------------
(***************************************************************************)
(* Independent copies of one distribution observed one sample at a time.   *)
(* Observe appends a sample (in or out of the support) to the history;     *)
(* every reachable history is an obligation: the joint log-density of the  *)
(* samples seen so far.  The invariants are the algebra of joint densities *)
(* (empty sum, order independence, additivity, absorption of -inf).        *)
(* Tile repeats the whole history, up to 70000 samples.                    *)
(***************************************************************************)
EXTENDS Laws, Json

CONSTANTS Seed, MaxLen, Wide, Families

VARIABLES d, xs, st, rep      \* rep: how often the history xs is repeated
vars == <<d, xs, st, rep>>

S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
RN(i) == Dy(1 + (S(i) % 61), -(S(i + 50) % 6))
RP(i) == Dy(1 + 2 * (S(i) % 32), -6)
RI(i, m) == I(S(i) % m)

Params(f) ==
  CASE f \in {"normal", "cauchy"} -> {<<Zero, One>>, <<I(-3), Half>>, <<RN(1), RN(2)>>}
    [] f = "stdnormal" -> {<<>>}
    [] f \in {"studentt", "chisq"} -> {<<One>>, <<I(5)>>, <<RN(3)>>}
    [] f \in {"exponential", "poisson"} -> {<<Two>>, <<Dy(1, -3)>>, <<RN(4)>>}
    [] f = "gamma" -> {<<Two, Half>>, <<Half, I(3)>>, <<RN(5), RN(6)>>}
    [] f = "beta" -> {<<Two, I(3)>>, <<Half, Half>>, <<RN(7), RN(8)>>}
    [] f = "bernoulli" -> {<<Half>>, <<RP(9)>>, <<One>>, <<Zero>>}
    [] f = "geometric" -> {<<Half>>, <<RP(10)>>, <<One>>}
    [] f = "binomial" -> {<<I(4), Dy(1, -2)>>, <<RI(11, 30), RP(12)>>, <<Two, One>>}
    [] f = "negbin" -> {<<I(3), Half>>, <<NAdd(One, RI(13, 20)), RP(14)>>}
    [] f = "categorical" -> {<<Half, Half>>, <<Dy(1, -2), Zero, Dy(3, -2)>>, <<Dy(1, -3), Dy(3, -3), Half>>}

RealPts == {Zero, Half, I(-1), Two, Dy(1, 70), Dy(-1, 600)} \cup (IF Wide THEN {I(3), Dy(-7, -1), RN(20), RN(21), Dy(1, -20), I(40)} ELSE {})
UnitPts == {Half, Dy(1, -3), Two} \cup (IF Wide THEN {RP(22), RP(23), Zero, One, I(-1)} ELSE {})
Points(e) ==
  CASE e.f \in {"normal", "cauchy", "studentt", "stdnormal", "exponential", "gamma", "chisq"} -> RealPts
    [] e.f = "beta" -> UnitPts
    [] e.f = "bernoulli" -> {Zero, One, Two}
    [] e.f = "geometric" -> {Zero, One, I(3)} \cup (IF Wide THEN {RI(24, 50), Two} ELSE {})
    [] e.f = "binomial" -> {Zero, Two, e.p[1], NAdd(e.p[1], One)}
    [] e.f = "categorical" -> {I(i) : i \in 0..Len(e.p)}
    [] OTHER -> {Zero, One, I(4), I(21)} \cup (IF Wide THEN {RI(25, 300), Two, I(170)} ELSE {})

RECURSIVE Joint(_, _)
Joint(e, s) == IF s = <<>> THEN LL0 ELSE LAdd(Joint(e, SubSeq(s, 1, Len(s) - 1)), Law(e, s[Len(s)]))

(* the joint log-density of the history so far *)
Total(n) == LScale(I(n), Joint(d, xs))
Init == d = D("none", <<>>) /\ xs = <<>> /\ st = "none" /\ rep = 1
Choose(f, p) == st = "none" /\ d' = D(f, p) /\ st' = "run" /\ xs' = xs /\ rep' = rep
Observe(x) == st = "run" /\ Len(xs) < MaxLen /\ xs' = Append(xs, x) /\ UNCHANGED <<d, st, rep>>
Tiles == {2, 129, 300} \cup (IF Wide THEN {1750} ELSE {})
TileAt == IF Wide THEN {MaxLen} ELSE {1, 2}
Tile(k) == st = "run" /\ xs # <<>> /\ Len(xs) \in TileAt /\ rep' = k /\ st' = "tiled" /\ UNCHANGED <<d, xs>>
Next == \/ \E f \in Families : \E p \in Params(f) : Choose(f, p)
        \/ st = "run" /\ \E x \in Points(d) : Observe(x)
        \/ \E k \in Tiles : Tile(k)
Spec == Init /\ [][Next]_vars

(* ------------------------------ invariants ------------------------------ *)
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Canonish(e) == \A i \in DOMAIN e.p : CanonicalArg(e.p[i]) /\ Abs(e.p[i][1]) < 40
SmallH == st = "run" /\ Len(xs) <= 3 /\ Canonish(d) /\ \A i \in DOMAIN xs : CanonicalArg(xs[i])
InvEmpty == st = "run" /\ xs = <<>> => LEq(Joint(d, xs), LL0)
InvOrder == SmallH /\ Len(xs) >= 2 => LEq(Joint(d, xs), Joint(d, Swap(xs, 1, Len(xs))))
InvConcat == SmallH => \A i \in 0..Len(xs) : LEq(Joint(d, xs), LAdd(Joint(d, SubSeq(xs, 1, i)), Joint(d, SubSeq(xs, i + 1, Len(xs)))))
AllIn == \A i \in DOMAIN xs : InSupport(d, xs[i])
InvAbsorb == st = "run" /\ ~AllIn => Joint(d, xs).ni
(* repeating a history twice is concatenating it with itself *)
InvTile == SmallH /\ xs # <<>> => LEq(Joint(d, xs \o xs), Total(2))
TypeOK == st \in {"none", "run", "tiled"} /\ Len(xs) <= MaxLen /\ (st # "tiled" => rep = 1)

(* -------- the formal exponential-family value, where the code deviates --------- *)
Formal(n) == IF d.f = "negbin"
             THEN LScale(I(rep), LSum([i \in DOMAIN xs |-> EFDeviant(d, xs[i])]))
             ELSE LAdd(LScale(I(rep), LSum([i \in DOMAIN xs |-> LAdd(EFDot(d, xs[i]), EFH(d, xs[i]))])), LScale(I(-n), EFA(d)))
IsEF == d.f \in ExpFam
OutKind == IF AllIn THEN "law" ELSE FormalOutside(d, I(0))
Emit ==
  IF st = "none" \/ ~(Len(xs) <= 3 \/ Len(xs) \in {4, 7, 12, 20, MaxLen}) THEN TRUE
  ELSE PrintT("@@" \o ToJson([f |-> d.f, p |-> d.p, xs |-> xs, in |-> AllIn, rep |-> rep, joint |-> Total(rep),
                interior |-> IF IsEF THEN Interior(d) ELSE TRUE,
                out |-> IF IsEF /\ Interior(d) THEN OutKind ELSE "law",
                formal |-> IF IsEF /\ Interior(d) /\ d.f # "categorical" /\ OutKind # "nan" THEN <<Formal(rep * Len(xs)), Formal(1)>> ELSE <<>>]))
=============================================================================
