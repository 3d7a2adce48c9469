---------------------------- MODULE Transforms ----------------------------
(***************************************************************************)
(* Differentiable transforms.  A chain of transforms is put together stage *)
(* by stage: a linear stage  y = A x + b  is filled in entry by entry, a   *)
(* componentwise stage applies one function to every coordinate.  Asking   *)
(* the finished chain at a point gives the image after every stage, the    *)
(* Jacobian matrix of the whole chain (its columns are the images of the   *)
(* unit tangents), and the volume factor of every square linear stage.     *)
(* Malformed shapes are part of the state space too: they are refused.     *)
(* The last part is a log-density with its derivative (a quadratic), alone *)
(* and relative to another one.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, LogLin, Json

CONSTANTS Seed, MaxDim, MaxStages, Small

VARIABLES n0, dim, stages, cur, fresh, pt, phase
vars == <<n0, dim, stages, cur, fresh, pt, phase>>

S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
Pick(i, s) == s[1 + (S(i) % Len(s))]
Xpool == <<One, I(-2), Dy(3, -1), Half, I(3), Zero, I(-1), Dy(-5, -2)>>
Offset(m, k) == [i \in 1..m |-> Pick(11 * k + i, <<Zero, One, I(-3), Dy(5, -1), Half, I(2)>>)]
Wide == Dy(16777217, -24)                     \* 1 + 2^-24: 25 binary digits
Entries == IF Small THEN {Zero, One, I(-2), Half} ELSE {Zero, One, I(-2), Half, I(3), Dy(-3, -1)}
Fns == {"square", "affine", "negate"}
F(f, x) == CASE f = "square" -> NSq(x) [] f = "affine" -> NSub(NMul(I(3), x), One) [] f = "negate" -> NNeg(x)
DF(f, x) == CASE f = "square" -> NAdd(x, x) [] f = "affine" -> I(3) [] f = "negate" -> I(-1)

Dot(u, v) == NSum([i \in DOMAIN u |-> NMul(u[i], v[i])])
Row(s, i) == SubSeq(s.a, (i - 1) * s.n + 1, i * s.n)
Rows(s) == [i \in 1..s.m |-> Row(s, i)]
Apply(s, x) == IF s.k = "lin" THEN [i \in 1..s.m |-> NAdd(s.b[i], Dot(Row(s, i), x))] ELSE [i \in 1..s.n |-> F(s.f, x[i])]
Push(s, x, dx) == IF s.k = "lin" THEN [i \in 1..s.m |-> Dot(Row(s, i), dx)] ELSE [i \in 1..s.n |-> NMul(DF(s.f, x[i]), dx[i])]
RECURSIVE At(_, _)
At(k, x) == IF k = 0 THEN x ELSE Apply(stages[k], At(k - 1, x))
RECURSIVE Tangent(_, _, _)
Tangent(k, x, dx) == IF k = 0 THEN dx ELSE Push(stages[k], At(k - 1, x), Tangent(k - 1, x, dx))
Unit(n, j) == [i \in 1..n |-> IF i = j THEN One ELSE Zero]

(* determinant of a sequence of rows *)
RECURSIVE Det(_)
Minor(rs, j) == [i \in 1..(Len(rs) - 1) |-> SubSeq(rs[i + 1], 1, j - 1) \o SubSeq(rs[i + 1], j + 1, Len(rs))]
Det(rs) == IF rs = <<>> THEN One
           ELSE NSum([j \in 1..Len(rs) |-> IF NIsZero(rs[1][j]) THEN Zero
                                           ELSE NMul(IF j % 2 = 1 THEN rs[1][j] ELSE NNeg(rs[1][j]), Det(Minor(rs, j)))])
Transpose(rs) == [i \in 1..Len(rs) |-> [j \in 1..Len(rs) |-> rs[j][i]]]
Mul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> NSum([k \in 1..Len(b) |-> NMul(a[i][k], b[k][j])])]]

None == [k |-> "none"]
Lin(n, m, a, b) == [k |-> "lin", n |-> n, m |-> m, a |-> a, b |-> b, f |-> ""]
Cw(n, f) == [k |-> "cw", n |-> n, m |-> n, a |-> <<>>, b |-> <<>>, f |-> f]
Diag(u, v) == Lin(2, 2, <<u, Zero, Zero, v>>, <<Zero, Zero>>)
(* entries that single precision, or a product of them, cannot hold *)
Extreme == {Diag(Dy(1, 200), Dy(1, -200)), Diag(Dy(1, 700), Dy(3, 600)), Diag(Dy(1, -700), Dy(-1, -600)), Diag(Dy(1, -1000), One),
            Lin(1, 1, <<Dy(1, 130)>>, <<Zero>>), Lin(1, 1, <<Dy(-5, -200)>>, <<Zero>>)}
NoX == <<>>
(* dimensions past those filled in entry by entry: a matrix is taken whole *)
Large == {5, 6, 7}
Mixed == <<Zero, One, I(-2), Half, I(3), Dy(-3, -1), Zero, I(-1)>>

Init == /\ stages = <<>> /\ cur = None /\ fresh = TRUE /\ pt = NoX
        /\ \/ n0 \in 1..MaxDim \cup (IF Small THEN {} ELSE Large) /\ dim = n0 /\ phase = "build"
           \/ Small /\ n0 = 0 /\ dim = 0 /\ phase \in {"shape", "dens"}
Begin(m) == /\ phase = "build" /\ dim \notin Large /\ cur = None /\ Len(stages) < MaxStages
            /\ cur' = [k |-> "open", n |-> dim, m |-> m, a |-> <<>>] /\ UNCHANGED <<n0, dim, stages, fresh, pt, phase>>
(* one entry; a wide one only in the first stage and only once, so that exact arithmetic stays within its digits *)
Put(v) == /\ cur # None /\ Len(cur.a) < cur.n * cur.m
          /\ v = Wide => fresh /\ stages = <<>> /\ cur.n <= 2 /\ cur.m <= 2
          /\ cur' = [cur EXCEPT !.a = Append(@, v)] /\ fresh' = (fresh /\ v # Wide) /\ UNCHANGED <<n0, dim, stages, pt, phase>>
Whole(m, r) == /\ ~Small /\ phase = "build" /\ cur = None /\ fresh /\ {dim, m} \cap Large # {}
               /\ \A i \in DOMAIN stages : stages[i].k = "cw"
               /\ Len(stages) < MaxStages - 1
               /\ stages' = Append(stages, Lin(dim, m, [i \in 1..(dim * m) |-> Pick(13 * i + 101 * r, Mixed)], Offset(m, r))) /\ dim' = m
               /\ UNCHANGED <<n0, cur, fresh, pt, phase>>
Close == /\ cur # None /\ Len(cur.a) = cur.n * cur.m
         /\ stages' = Append(stages, Lin(cur.n, cur.m, cur.a, Offset(cur.m, Len(stages) + cur.n))) /\ dim' = cur.m
         /\ cur' = None /\ UNCHANGED <<n0, fresh, pt, phase>>
Componentwise(f) == /\ phase = "build" /\ cur = None /\ Len(stages) < MaxStages /\ fresh
                    /\ f = "square" => \A i \in DOMAIN stages : stages[i].f # "square"
                    /\ stages' = Append(stages, Cw(dim, f)) /\ UNCHANGED <<n0, dim, cur, fresh, pt, phase>>
Take == \E s \in Extreme : /\ Small /\ phase = "build" /\ cur = None /\ stages = <<>> /\ s.n = dim
                           /\ stages' = <<s>> /\ fresh' = FALSE /\ UNCHANGED <<n0, dim, cur, pt, phase>>
Ask(r) == /\ phase = "build" /\ cur = None /\ stages # <<>> /\ (Small \/ Len(stages) = MaxStages \/ ~fresh \/ dim \in Large \/ n0 \in Large)
          /\ pt' = [i \in 1..n0 |-> Pick(r + 3 * i, Xpool)] /\ phase' = "done" /\ UNCHANGED <<n0, dim, stages, cur, fresh>>
Next == \/ \E m \in 1..MaxDim : fresh /\ Begin(m)
        \/ \E v \in Entries \cup {Wide} : Put(v)
        \/ \E m \in Large \cup {1, 2, dim} : \E r \in 1..3 : Whole(m, r)
        \/ Close \/ Take
        \/ \E f \in Fns : Componentwise(f)
        \/ \E r \in {1, 2} : Ask(r)
Spec == Init /\ [][Next]_vars

(* ------------------------------ invariants ------------------------------ *)
Done == phase = "done"
K == Len(stages)
AllLinear == \A i \in 1..K : stages[i].k = "lin"
Square(s) == s.k = "lin" /\ s.n = s.m
Plain == Done /\ fresh
RECURSIVE Composite(_)
Composite(k) == IF k = 1 THEN Rows(stages[1]) ELSE Mul(Rows(stages[k]), Composite(k - 1))
VAdd(u, v) == [i \in DOMAIN u |-> NAdd(u[i], v[i])]
InvChain == Done => \A i \in 1..K : stages[i].n = (IF i = 1 THEN n0 ELSE stages[i - 1].m)
(* a linear chain moves by exactly its tangent *)
InvLinear == Plain /\ AllLinear => \A j \in 1..n0 : At(K, VAdd(pt, Unit(n0, j))) = VAdd(At(K, pt), Tangent(K, pt, Unit(n0, j)))
(* the Jacobian of a linear chain is the matrix product, and volume factors multiply *)
InvCompose == Plain /\ AllLinear => \A j \in 1..n0 : Tangent(K, pt, Unit(n0, j)) = [i \in 1..dim |-> Composite(K)[i][j]]
InvVolume == Plain /\ n0 \notin Large /\ (\A i \in 1..K : Square(stages[i])) => Det(Composite(K)) = FoldSeq(NMul, One, [i \in 1..K |-> Det(Rows(stages[i]))])
InvTranspose == Plain => \A i \in 1..K : Square(stages[i]) => Det(Transpose(Rows(stages[i]))) = Det(Rows(stages[i]))
(* tangents are linear *)
InvTangent == Plain => Tangent(K, pt, VAdd(pt, pt)) = VAdd(Tangent(K, pt, pt), Tangent(K, pt, pt))

(* ------------------------------- shapes --------------------------------- *)
Shapes == {[n |-> n, m |-> m, la |-> n * m + e, lb |-> m + g, lx |-> n + h] :
             n \in 0..3, m \in 0..3, e \in {0, 1, 2}, g \in {0, 1}, h \in {0, 1, 3}}
Fits(s) == s.la = s.n * s.m /\ s.lb = s.m
ShapeCase(s) == [n |-> s.n, m |-> s.m, la |-> s.la, lb |-> s.lb, lx |-> s.lx, ok |-> Fits(s), apply |-> s.lx = s.n]

(* --------------------- log-densities and derivatives --------------------- *)
Q3(i) == <<Pick(i, Xpool), Pick(i + 5, Xpool), Pick(i + 9, Xpool)>>     \* -(a x^2 + b x) + c
Dens(q, x) == NSub(q[3], NAdd(NMul(q[1], NSq(x)), NMul(q[2], x)))
DDens(q, x) == NNeg(NAdd(NMul(NAdd(q[1], q[1]), x), q[2]))
Cases == {<<Q3(i), Q3(i + 17), Pick(i + 3, Xpool)>> : i \in 1..40}
InvQuotient == phase = "dens" => \A c \in Cases : \A h \in {One, Half, I(-2)} :
   NSub(Dens(c[1], NAdd(c[3], h)), Dens(c[1], c[3])) = NSub(NMul(h, DDens(c[1], c[3])), NMul(c[1][1], NSq(h)))
InvRelative == phase = "dens" => \A c \in Cases :
   NAdd(NSub(Dens(c[1], c[3]), Dens(c[2], c[3])), NSub(Dens(c[2], c[3]), Dens(c[1], c[3]))) = Zero

Emit ==
  CASE phase = "shape" -> PrintT("@@" \o ToJson([k |-> "shape", cases |-> SetToSeq({ShapeCase(s) : s \in Shapes})]))
    [] phase = "dens" -> PrintT("@@" \o ToJson([k |-> "dens", cases |-> SetToSeq({[m |-> c[1], b |-> c[2], x |-> c[3], v |-> Dens(c[1], c[3]), d |-> DDens(c[1], c[3]),
                            rv |-> NSub(Dens(c[1], c[3]), Dens(c[2], c[3])), rd |-> NSub(DDens(c[1], c[3]), DDens(c[2], c[3]))] : c \in Cases})]))
    [] Done -> PrintT("@@" \o ToJson([k |-> "chain", x |-> pt, stages |-> stages, small |-> ~(\E i \in 1..K : stages[i] \in Extreme),
                            at |-> [i \in 1..K |-> At(i, pt)], jac |-> [j \in 1..n0 |-> Tangent(K, pt, Unit(n0, j))],
                            det |-> [i \in 1..K |-> IF Square(stages[i]) THEN <<Det(Rows(stages[i]))>> ELSE <<>>],
                            slope |-> [i \in 1..K |-> IF stages[i].k = "cw" /\ stages[i].n = 1 THEN <<DF(stages[i].f, At(i - 1, pt)[1])>> ELSE <<>>]]))
    [] OTHER -> TRUE
=============================================================================
