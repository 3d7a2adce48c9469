-------------------------------- MODULE Maps --------------------------------
(* the built-in pushforward maps on their own: forward, inverse, log-Jacobian of the inverse; for a
   rational point the inverse of the forward image must be the point again *)
EXTENDS MeasureTree
VARIABLES mp
XsOf(m) == CASE m.t = "log" -> <<Half, Two, Dy(1, -20), I(100), One, RN(30)>>
             [] m.t = "logit" -> <<Half, Dy(1, -10), Dy(1023, -10), RP(31), Dy(1, -2)>>
             [] OTHER -> <<Zero, Half, I(-3), Two, RN(32), NNeg(RN(33)), I(20)>>
YsOf(m) == CASE m.t = "exp" -> <<Half, Two, Dy(1, -20), I(100), One, RN(30)>>
             [] m.t = "logit" -> <<Zero, Half, I(-1), I(7), I(-30), Dy(5, -1), I(30)>>
             [] m.t = "lin" /\ m.b[3] > 20 -> <<Zero, NAdd(m.b, NMul(m.a, I(5))), NAdd(m.b, Half), NAdd(m.b, m.b)>>
             [] m.t = "lin" -> <<Zero, Half, I(-3), Two, RN(32), NNeg(RN(33)), I(20), NAdd(m.b, NMul(m.a, I(5))), NAdd(m.b, Half)>>
             [] OTHER -> <<Zero, Half, I(-3), Two, RN(32), NNeg(RN(33)), I(20)>>
(* undoing a linear map is one subtraction and one division, also where the shift is large *)
Undone(m, y) == IF m.t = "lin" THEN <<NDiv(NSub(y, m.b), m.a)>> ELSE <<>>
MInit == Init /\ mp \in {[t |-> "lin", a |-> I(-2), b |-> Half], [t |-> "lin", a |-> Dy(1, -3), b |-> I(3)], [t |-> "lin", a |-> RN(34), b |-> RN(35)],
                         [t |-> "lin", a |-> I(3), b |-> Dy(1, 27)], [t |-> "lin", a |-> I(-7), b |-> Dy(-3, 25)], 
                         [t |-> "exp"], [t |-> "log"], [t |-> "logit"]}
MSpec == MInit /\ [][FALSE]_<<vars, mp>>
EmitMap == PrintT("@@" \o ToJson([t |-> mp,
   xs |-> [i \in DOMAIN XsOf(mp) |-> [x |-> XsOf(mp)[i], f |-> Fwd(mp, TQ(XsOf(mp)[i]))]],
   ys |-> [i \in DOMAIN YsOf(mp) |-> [y |-> YsOf(mp)[i], i |-> Inv(mp, TQ(YsOf(mp)[i])), j |-> LogJac(mp, TQ(YsOf(mp)[i])), u |-> Undone(mp, YsOf(mp)[i])]]]))
=============================================================================
