----------------------------- MODULE Published -----------------------------
(* the decompositions the distributions publish: whatever instance q it was taken from, the decomposition evaluated
   at the parameter p is the log-density of the distribution with parameter p *)
EXTENDS Laws, Json
CONSTANTS Seed, Deep
VARIABLES s
S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
RN(i) == Dy(1 + (S(i) % 61), -(S(i + 50) % 6))
Pos2 == {One, Half, I(3), RN(1), RN(2), Dy(1, -10), I(1000)} \cup (IF Deep THEN {RN(i) : i \in 20..30} ELSE {})
Locs == {Zero, I(-3), RN(3)} \cup (IF Deep THEN {RN(31), NNeg(RN(32)), Dy(1, 10)} ELSE {})
Ps(f) == IF f = "studentt" THEN {<<a>> : a \in Pos2} ELSE Locs \X Pos2
Pts == <<Zero, Half, I(-2), RN(5), NNeg(RN(6)), I(100), Dy(1, -20)>>
Init == \E f \in {"normal", "cauchy", "studentt"} : \E p \in Ps(f) : \E q \in {IF f = "studentt" THEN <<Two>> ELSE <<Half, Two>>, IF f = "studentt" THEN <<RN(7)>> ELSE <<RN(8), RN(9)>>} :
          s = [f |-> f, inst |-> q, p |-> p]
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s
At == D(s.f, s.p)
InvLaw == \A i \in DOMAIN Pts : ~Law(At, Pts[i]).ni
Emit == PrintT("@@" \o ToJson([f |-> s.f, inst |-> s.inst, p |-> s.p, xs |-> Pts, at |-> [i \in DOMAIN Pts |-> Law(At, Pts[i])],
                               iid |-> LSum([i \in DOMAIN Pts |-> Law(At, Pts[i])])]))
=============================================================================
