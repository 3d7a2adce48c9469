------------------------------ MODULE LogLin ------------------------------
(***************************************************************************)
(* Exact arithmetic for log-densities.                                     *)
(*                                                                         *)
(* Num   a rational  m/d * 2^e   written <<m, d, e>>, with d odd and       *)
(*       positive, m odd or zero, gcd(m, d) = 1.  Keeping the power of two *)
(*       apart lets 2^-1000 or 2^900 be written although TLC integers have *)
(*       32 bits; TLC reports an overflow instead of wrapping, so a value  *)
(*       that this module returns is exact.                                *)
(*                                                                         *)
(* LL    ("log-linear value") an extended real written as                  *)
(*       [ni |-> BOOLEAN, t |-> sequence of terms, s |-> sequence of LSEs] *)
(*       ni = TRUE is minus infinity.  A term <<c, kind, args>> is c times *)
(*         "1"   1                     (args = <<>>)                       *)
(*         "pi"  ln(pi)                (args = <<>>)                       *)
(*         "ln"  ln(sum of args)                                           *)
(*         "lg"  lnGamma(sum of args)                                      *)
(*       and an LSE <<c, <<ll1, ..., lln>>>> is c*ln(exp ll1+...+exp lln). *)
(*                                                                         *)
(* LLs are concatenations: no rounding ever happens.  Canon computes a     *)
(* canonical form (rational + rational combination of ln of primes and     *)
(* ln pi), in which equality is decidable because those logarithms are     *)
(* linearly independent over the rationals.                                *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt
LOCAL INSTANCE Functions

Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE IPow(_, _)
IPow(b, k) == IF k <= 0 THEN 1 ELSE b * IPow(b, k - 1)

RECURSIVE Twos(_)
Twos(a) == IF a = 0 \/ a % 2 # 0 THEN 0 ELSE 1 + Twos(a \div 2)

(* ------------------------------- Num ---------------------------------- *)
NumMk(m, d, e) ==      \* d > 0
  IF m = 0 THEN <<0, 1, 0>>
  ELSE LET g  == Gcd(Abs(m), d)
           m1 == m \div g
           d1 == d \div g
           tm == Twos(Abs(m1))
           td == Twos(d1)
       IN <<m1 \div Pow2(tm), d1 \div Pow2(td), e + tm - td>>

I(n) == NumMk(n, 1, 0)
Q(n, d) == NumMk(n, d, 0)
Dy(m, e) == NumMk(m, 1, e)          \* m * 2^e
Zero == <<0, 1, 0>>
One == <<1, 1, 0>>
Two == <<1, 1, 1>>
Half == <<1, 1, -1>>
NIsZero(a) == a[1] = 0
NNeg(a) == <<-a[1], a[2], a[3]>>
NMul(a, b) ==
  IF NIsZero(a) \/ NIsZero(b) THEN Zero
  ELSE LET g1 == Gcd(Abs(a[1]), b[2])
           g2 == Gcd(Abs(b[1]), a[2])
       IN <<(a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1), a[3] + b[3]>>
NInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1], -a[3]>> ELSE <<a[2], a[1], -a[3]>>
NDiv(a, b) == NMul(a, NInv(b))
NAdd(a, b) ==
  IF NIsZero(a) THEN b ELSE IF NIsZero(b) THEN a
  ELSE LET e == IF a[3] < b[3] THEN a[3] ELSE b[3]
       IN NumMk(a[1] * Pow2(a[3] - e) * b[2] + b[1] * Pow2(b[3] - e) * a[2], a[2] * b[2], e)
NSub(a, b) == NAdd(a, NNeg(b))
NSq(a) == NMul(a, a)
RECURSIVE NPow(_, _)
NPow(a, k) == IF k = 0 THEN One ELSE IF k < 0 THEN NInv(NPow(a, -k)) ELSE NMul(a, NPow(a, k - 1))
NSgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0

(* number of binary digits of a positive integer *)
RECURSIVE Bits(_)
Bits(a) == IF a = 0 THEN 0 ELSE 1 + Bits(a \div 2)
(* floor(log2 |a|) is Mag(a) or Mag(a)-1 *)
Mag(a) == Bits(Abs(a[1])) - Bits(a[2]) + a[3] + 1
(* exact comparison; magnitudes are compared first so that far-apart numbers are not aligned *)
NLt(a, b) ==
  IF NSgn(a) # NSgn(b) THEN NSgn(a) < NSgn(b)
  ELSE IF NSgn(a) = 0 THEN FALSE
  ELSE IF Mag(a) + 1 < Mag(b) THEN NSgn(a) > 0
  ELSE IF Mag(b) + 1 < Mag(a) THEN NSgn(a) < 0
  ELSE NSgn(NSub(a, b)) < 0
NLe(a, b) == a = b \/ NLt(a, b)
NIsInt(a) == a[2] = 1 /\ a[3] >= 0
NInt(a) == a[1] * Pow2(a[3])      \* when NIsInt and small
NSum(ns) == FoldSeq(LAMBDA x, acc : NAdd(acc, x), Zero, ns)

(* -------------------------------- LL ---------------------------------- *)
LL0 == [ni |-> FALSE, t |-> <<>>, s |-> <<>>]
NegInf == [ni |-> TRUE, t |-> <<>>, s |-> <<>>]
LTerm(c, k, a) == IF NIsZero(c) THEN LL0 ELSE [ni |-> FALSE, t |-> << <<c, k, a>> >>, s |-> <<>>]
LC(q) == LTerm(q, "1", <<>>)
LPi(c) == LTerm(c, "pi", <<>>)
LLn(c, q) == IF q = One THEN LL0 ELSE LTerm(c, "ln", <<q>>)      \* c * ln q,  q > 0
LLnS(c, qs) == LTerm(c, "ln", qs)           \* c * ln(sum qs)
LLg(c, q) == LTerm(c, "lg", <<q>>)
LLgS(c, qs) == LTerm(c, "lg", qs)
LAdd(a, b) == IF a.ni \/ b.ni THEN NegInf
              ELSE [ni |-> FALSE, t |-> a.t \o b.t, s |-> a.s \o b.s]
LSum(seq) == FoldSeq(LAMBDA x, acc : LAdd(acc, x), LL0, seq)
LScale(c, a) == IF NIsZero(c) THEN LL0 ELSE IF a.ni THEN NegInf
                ELSE [ni |-> FALSE,
                      t |-> [i \in DOMAIN a.t |-> <<NMul(c, a.t[i][1]), a.t[i][2], a.t[i][3]>>],
                      s |-> [i \in DOMAIN a.s |-> <<NMul(c, a.s[i][1]), a.s[i][2]>>]]
LNegate(a) == LScale(NNeg(One), a)
LSub(a, b) == LAdd(a, LNegate(b))            \* b finite
(* c * ln p with the measure-theoretic convention 0 * ln 0 = 0; c >= 0, 0 <= p *)
XLn(c, p) == IF NIsZero(c) THEN LL0 ELSE IF NIsZero(p) THEN NegInf ELSE LLn(c, p)
XLnS(c, ps) == IF NIsZero(c) THEN LL0 ELSE LLnS(c, ps)
(* ln(sum_i exp a_i), the value of a mixture; components that are -inf contribute nothing *)
LLse(seq) == LET fin == SelectSeq(seq, LAMBDA a : ~a.ni)
             IN IF fin = <<>> THEN NegInf
                ELSE IF Len(fin) = 1 THEN fin[1]
                ELSE [ni |-> FALSE, t |-> <<>>, s |-> << <<One, fin>> >>]

(* ------------------------------ Canon ---------------------------------- *)
(* a finite map from keys to non-zero Nums.  Keys are Nums: 1 is the rational
   part, 0 is ln pi, -p (p prime) is ln p, and an lnGamma argument above 40
   stands for itself (unexpanded; equality is then still sound) *)
RECURSIVE FactorFrom(_, _)
FactorFrom(n, p) ==   \* sequence of prime factors of n >= 1, all >= p
  IF n = 1 THEN <<>>
  ELSE IF p * p > n THEN <<n>>
  ELSE IF n % p = 0 THEN <<p>> \o FactorFrom(n \div p, p)
  ELSE FactorFrom(n, p + 1)
Factors(n) == FactorFrom(n, 2)

RAddAt(f, k, c) ==
  IF NIsZero(c) THEN f
  ELSE IF k \in DOMAIN f
       THEN LET v == NAdd(f[k], c)
            IN IF NIsZero(v) THEN [x \in DOMAIN f \ {k} |-> f[x]] ELSE [f EXCEPT ![k] = v]
       ELSE f @@ (k :> c)

CanonLn(f, c, q) ==    \* add c * ln q
  LET f1 == FoldSeq(LAMBDA p, acc : RAddAt(acc, I(-p), c), f, Factors(q[1]))
      f2 == FoldSeq(LAMBDA p, acc : RAddAt(acc, I(-p), NNeg(c)), f1, Factors(q[2]))
  IN RAddAt(f2, I(-2), NMul(c, I(q[3])))

(* lnGamma at a positive integer or half-integer up to 40 expands into logarithms *)
RECURSIVE CanonLg(_, _, _)
CanonLg(f, c, q) ==
  IF q = One \/ q = Two THEN f
  ELSE IF q = Half THEN RAddAt(f, Zero, NMul(c, Half))
  ELSE IF q[3] < -1 \/ q[2] # 1 \/ NLt(I(40), q) THEN RAddAt(f, q, c)
  ELSE LET q1 == NSub(q, One) IN CanonLg(CanonLn(f, c, q1), c, q1)

CanonTerm(f, tm) ==
  CASE tm[2] = "1" -> RAddAt(f, One, tm[1])
    [] tm[2] = "pi" -> RAddAt(f, Zero, tm[1])
    [] tm[2] = "ln" -> CanonLn(f, tm[1], NSum(tm[3]))
    [] tm[2] = "lg" -> CanonLg(f, tm[1], NSum(tm[3]))

EmptyF == [x \in {} |-> Zero]
Canon(a) == IF a.ni THEN "neginf"
            ELSE LET f == FoldSeq(LAMBDA tm, acc : CanonTerm(acc, tm), EmptyF, a.t)
                 IN [k |-> DOMAIN f, v |-> f, lse |-> a.s]
LEq(a, b) == IF a.ni \/ b.ni THEN a.ni = b.ni ELSE Canon(a) = Canon(b)
(* can the term be brought to canonical form within 32 bits? *)
CanonicalArg(q) == q[3] > -16 /\ q[3] < 16 /\ Abs(q[1]) < 20000 /\ q[2] < 20000
=============================================================================
