------------------------- MODULE DensitySession -------------------------
(***************************************************************************)
(* A client of log-density objects.  An object remembers a measure and the *)
(* base measure it was last given (the root by default); objects can be    *)
(* re-based in place, forked into a re-based copy, evaluated, inspected,   *)
(* and wrapped in a cache.  A cache is a set of points it has already been *)
(* asked for; it never changes any answer, and it evaluates the object it  *)
(* wraps once per new point.                                               *)
(*                                                                         *)
(* The history h records each call with the answer this specification      *)
(* demands; a finished history is replayed into the real code.             *)
(***************************************************************************)
EXTENDS Laws, Json

CONSTANTS Seed, MaxLen, MaxObjs, Menus, Small

VARIABLES menu, objs, caches, h, done
vars == <<menu, objs, caches, h, done>>

S(i) == (Seed * 7919 + i * 1049 + i * i * 31) % 8191
RN(i) == Dy(1 + (S(i) % 61), -(S(i + 50) % 6))
RP(i) == Dy(1 + 2 * (S(i) % 32), -6)
RI(i, m) == I(S(i) % m)

(* a measure: a law, possibly with a constant log-weight; e is the type-level
   exponential-family mark, which must not influence any value *)
Me(f, p, c, e) == [f |-> f, p |-> p, c |-> c, e |-> e]
MeasuresOf(k) ==
  CASE k = 1 -> << Me("binomial", <<I(4), Dy(1, -2)>>, Zero, TRUE), Me("poisson", <<Two>>, Zero, FALSE) >>
    [] k = 2 -> << Me("normal", <<Zero, One>>, Zero, TRUE), Me("exponential", <<Two>>, Zero, TRUE) >>
    [] k = 3 -> << Me("binomial", <<RI(1, 30), RP(2)>>, Zero, TRUE), Me("poisson", <<RN(3)>>, Zero, TRUE),
                   Me("geometric", <<RP(4)>>, Zero, FALSE), Me("negbin", <<NAdd(One, RI(5, 20)), RP(6)>>, Zero, TRUE),
                   Me("bincoef", <<RI(7, 30)>>, Zero, FALSE), Me("counting", <<>>, RN(8), FALSE) >>
    [] k = 4 -> << Me("normal", <<RN(9), RN(10)>>, Zero, TRUE), Me("cauchy", <<RN(11), RN(12)>>, Zero, FALSE),
                   Me("gamma", <<RN(13), RN(14)>>, Zero, TRUE), Me("beta", <<RN(15), RN(16)>>, Zero, TRUE),
                   Me("studentt", <<RN(17)>>, NNeg(RN(18)), FALSE), Me("lebesgue", <<>>, Zero, FALSE) >>
    [] k = 5 -> << Me("normal", <<NNeg(RN(19)), RN(20)>>, RN(21), TRUE), Me("normal", <<RN(22), RN(23)>>, Zero, TRUE),
                   Me("exponential", <<RN(24)>>, Zero, TRUE), Me("chisq", <<RN(25)>>, Zero, TRUE) >>
    [] k = 6 -> << Me("poisson", <<RN(26)>>, RN(27), TRUE), Me("poisson", <<RN(28)>>, Zero, TRUE),
                   Me("factorial", <<>>, Zero, FALSE), Me("counting", <<>>, Zero, FALSE), Me("geometric", <<Half>>, Zero, TRUE) >>
DomOf(k) == IF k \in {1, 3, 6} THEN "C" ELSE "R"
KeysOf(k) == IF k \in {1, 6} THEN {3, 1} ELSE IF k = 3 THEN {3, 2} ELSE {0, 1, 2}
PointsOf(k) ==
  CASE k = 1 -> {Zero, I(5)}
    [] k = 2 -> {Half, I(-1)}
    [] k \in {3, 6} -> {Zero, One, Two, I(7), I(21), RI(30, 60), RI(31, 400)}
    [] OTHER -> {Zero, Half, I(-1), Two, RN(32), RN(33), NNeg(RN(34)), Dy(1, -4), Dy(3, -2)}

Ms == MeasuresOf(menu.k)
Root == 0
LawOf(m, x) == LET r == Law(D(Ms[m].f, Ms[m].p), x) IN IF r.ni THEN r ELSE LAdd(r, LC(Ms[m].c))
Wrt0(m, x) == IF m = Root THEN LL0 ELSE LawOf(m, x)
V(k, v) == [k |-> k, ll |-> v]
(* log-density of m relative to b; undefined where neither charges the point *)
Rel(m, b, x) ==
  LET lm == Wrt0(m, x)
      lb == Wrt0(b, x)
  IN IF lm.ni /\ lb.ni THEN V("undef", LL0)
     ELSE IF lm.ni THEN V("ninf", LL0)
     ELSE IF lb.ni THEN V("pinf", LL0)
     ELSE V("fin", LSub(lm, lb))

Init == /\ menu \in {[k |-> k, key |-> 0] : k \in Menus}
        /\ objs = <<>> /\ caches = <<>> /\ h = <<>> /\ done = FALSE
Rec(e) == h' = Append(h, e)
Busy == ~done /\ Len(h) < MaxLen

Build(m) == /\ Busy /\ Len(objs) < MaxObjs
            /\ objs' = Append(objs, [m |-> m, b |-> Root])
            /\ Rec([op |-> "build", a |-> m]) /\ UNCHANGED <<menu, caches, done>>
Wrt(i, m) == /\ Busy /\ objs' = [objs EXCEPT ![i].b = m]
             /\ Rec([op |-> "wrt", a |-> i, b |-> m]) /\ UNCHANGED <<menu, caches, done>>
Fork(i, m) == /\ Busy /\ Len(objs) < MaxObjs
              /\ objs' = Append(objs, [m |-> objs[i].m, b |-> m])
              /\ Rec([op |-> "fork", a |-> i, b |-> m]) /\ UNCHANGED <<menu, caches, done>>
At(i, x) == /\ Busy /\ Rec([op |-> "at", a |-> i, x |-> x, v |-> Rel(objs[i].m, objs[i].b, x)])
            /\ UNCHANGED <<menu, objs, caches, done>>
Obs(i) == /\ Busy /\ Rec([op |-> "obs", a |-> i, m |-> objs[i].m, b |-> objs[i].b])
          /\ UNCHANGED <<menu, objs, caches, done>>
Cache(i, r) == /\ Busy /\ Len(caches) < MaxObjs
               /\ caches' = Append(caches, [m |-> objs[i].m, b |-> objs[i].b, known |-> {}])
               /\ Rec([op |-> "cache", a |-> i, r |-> r]) /\ UNCHANGED <<menu, objs, done>>
Query(c, x) == /\ Busy
               /\ caches' = [caches EXCEPT ![c].known = @ \cup {x}]
               /\ Rec([op |-> "q", a |-> c, x |-> x, v |-> Rel(caches[c].m, caches[c].b, x), n |-> Cardinality(caches[c].known \cup {x})])
               /\ UNCHANGED <<menu, objs, done>>
(* a sweep asks for the first n points of a fixed enumeration, in order *)
Sweeps == {40, 300, 1200}
SweepPoint(j) == IF DomOf(menu.k) = "C" THEN I(j) ELSE Dy(2 * j + 1, -5)
Sweep(c, n) == /\ Busy /\ ~Small
               /\ LET known == caches[c].known \cup {SweepPoint(j) : j \in 0..(n - 1)}
                  IN /\ caches' = [caches EXCEPT ![c].known = known]
                     /\ Rec([op |-> "sweep", a |-> c, c |-> n, n |-> Cardinality(known)])
               /\ UNCHANGED <<menu, objs, done>>
CObs(c) == /\ Busy /\ Rec([op |-> "cobs", a |-> c, m |-> caches[c].m, b |-> caches[c].b])
           /\ UNCHANGED <<menu, objs, caches, done>>
Finish(key) == /\ ~done /\ Len(h) = MaxLen /\ done' = TRUE /\ menu' = [menu EXCEPT !.key = key]
               /\ UNCHANGED <<objs, caches, h>>

Routes == IF Small THEN {0} ELSE {0, 1, 2}
Next == \/ \E m \in DOMAIN Ms : Build(m)
        \/ \E i \in DOMAIN objs : \/ \E m \in DOMAIN Ms : Wrt(i, m) \/ Fork(i, m)
                                  \/ \E x \in PointsOf(menu.k) : At(i, x)
                                  \/ Obs(i)
                                  \/ \E r \in Routes : Cache(i, r)
        \/ ~Small /\ \E c \in DOMAIN caches : \E n \in Sweeps : Sweep(c, n)
        \/ \E c \in DOMAIN caches : CObs(c) \/ \E x \in PointsOf(menu.k) : Query(c, x)
        \/ \E key \in (IF Small THEN {CHOOSE k \in KeysOf(menu.k) : k > 0} ELSE KeysOf(menu.k)) : Finish(key)
Spec == Init /\ [][Next]_vars

(* ------------------------------ invariants ------------------------------ *)
All == {Root} \cup DOMAIN Ms
Fresh == h = <<>>          \* the algebra depends on the menu only: check it once per menu
Fin(m, b, x) == Rel(m, b, x).k = "fin"
CanX(x) == Abs(x[1]) < 60 /\ x[3] > -8 /\ x[3] < 8
CanM == Menus \subseteq {1, 2}
InvSelf == Fresh => \A m \in All, x \in PointsOf(menu.k) :
             Rel(m, m, x).k = "undef" \/ (Fin(m, m, x) /\ (CanM => LEq(Rel(m, m, x).ll, LL0)))
InvAntisymmetric == Fresh => \A m, b \in All, x \in PointsOf(menu.k) :
             LET r == Rel(m, b, x)
                 q == Rel(b, m, x)
             IN CASE r.k = "undef" -> q.k = "undef"
                  [] r.k = "ninf" -> q.k = "pinf"
                  [] r.k = "pinf" -> q.k = "ninf"
                  [] OTHER -> q.k = "fin" /\ (CanM => LEq(LAdd(r.ll, q.ll), LL0))
InvChain == Fresh => \A m, b, d \in All, x \in PointsOf(menu.k) :
             Fin(m, b, x) /\ Fin(b, d, x) => Fin(m, d, x) /\ (CanM => LEq(LAdd(Rel(m, b, x).ll, Rel(b, d, x).ll), Rel(m, d, x).ll))

(* the state is what the history says *)
BuildsBefore(n) == SelectSeq(SubSeq(h, 1, n), LAMBDA e : e.op \in {"build", "fork"})
LastBase(i) ==
  LET idx == {n \in DOMAIN h : \/ h[n].op = "wrt" /\ h[n].a = i
                               \/ h[n].op \in {"build", "fork"} /\ Len(BuildsBefore(n)) = i}
      n == CHOOSE n \in idx : \A k \in idx : k <= n
  IN IF h[n].op = "build" THEN Root ELSE h[n].b
Judge == Small \/ done      \* long random histories are judged when they are complete
InvBase == Judge => \A i \in DOMAIN objs : objs[i].b = LastBase(i)
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
Asked(c) == {h[n].x : n \in {k \in DOMAIN h : h[k].op = "q" /\ h[k].a = c}}
            \cup {SweepPoint(j - 1) : j \in 1..(IF Small THEN 0 ELSE MaxOf({0} \cup {h[k].c : k \in {i \in DOMAIN h : h[i].op = "sweep" /\ h[i].a = c}}))}
InvKnown == Judge => \A c \in DOMAIN caches : caches[c].known = Asked(c)
(* asking a cache the same question twice gets the same answer, and the answer of the object it wraps *)
InvTransparent == Judge => \A n \in DOMAIN h : h[n].op = "q" =>
                     /\ h[n].v = Rel(caches[h[n].a].m, caches[h[n].a].b, h[n].x)
                     /\ h[n].n <= Cardinality(Asked(h[n].a))
TypeOK == Len(h) <= MaxLen /\ Len(objs) <= MaxObjs /\ \A i \in DOMAIN objs : objs[i].m \in DOMAIN Ms /\ objs[i].b \in All

Emit == done => PrintT("@@" \o ToJson([k |-> menu.k, key |-> menu.key, dom |-> DomOf(menu.k), ms |-> Ms, h |-> h]))
=============================================================================
