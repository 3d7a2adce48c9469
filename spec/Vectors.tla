------------------------------ MODULE Vectors ------------------------------
(* dot products, sums and differences of vectors, of every length the helpers are used with *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, LogLin, Json
CONSTANTS Seed, Deep
VARIABLES rows, st
S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
E(i) == Dy((S(i) % 41) - 20, -(S(i + 7) % 5))
Row(n, k) == [i \in 1..n |-> E(31 * k + i)]
Lens == {0, 1, 2, 3, 4, 5, 8, 17}
Init == rows = <<>> /\ st \in {<<n, m>> : n \in Lens, m \in 0..(IF Deep THEN 40 ELSE 6)}
Next == Len(rows) < st[2] /\ rows' = Append(rows, Row(st[1], Len(rows) + (S(st[1]) % 97))) /\ UNCHANGED st
Spec == Init /\ [][Next]_<<rows, st>>
Zeros == [i \in 1..st[1] |-> Zero]
R(k) == IF k <= Len(rows) THEN rows[k] ELSE Zeros
Dot(a, b) == NSum([i \in DOMAIN a |-> NMul(a[i], b[i])])
Add(a, b) == [i \in DOMAIN a |-> NAdd(a[i], b[i])]
Sub(a, b) == [i \in DOMAIN a |-> NSub(a[i], b[i])]
Sum(rs) == FoldSeq(LAMBDA r, acc : Add(r, acc), Zeros, rs)
InvSymmetric == Dot(R(1), R(2)) = Dot(R(2), R(1))
InvLinear == Len(rows) >= 3 => Dot(Add(R(1), R(2)), R(3)) = NAdd(Dot(R(1), R(3)), Dot(R(2), R(3)))
InvInverse == Add(Sub(R(1), R(2)), R(2)) = R(1)
InvSplit == \A k \in 0..Len(rows) : Sum(rows) = Add(Sum(SubSeq(rows, 1, k)), Sum(SubSeq(rows, k + 1, Len(rows))))
Emit == Len(rows) = st[2] => PrintT("@@" \o ToJson([n |-> st[1], rows |-> rows, dot |-> Dot(R(1), R(2)), sub |-> Sub(R(1), R(2)),
                                  add |-> Add(R(1), R(2)), sum |-> Sum(rows), zero |-> Zeros]))
=============================================================================
