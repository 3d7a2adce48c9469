------------------------------ MODULE Numeric ------------------------------
(***************************************************************************)
(* Conversion between machine number types, and the vector helpers.        *)
(*                                                                         *)
(* A number is a sign and the strictly descending sequence of the binary   *)
(* positions that are set; that is exact at any width, so IEEE rounding    *)
(* (to nearest, ties to even, gradual underflow, overflow to infinity) and *)
(* the ranges of the integer types can be written out here.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json

CONSTANTS Deep, Seed

VARIABLES from, to, val, st
vars == <<from, to, val, st>>

Fin(sg, ex) == [k |-> "fin", sg |-> sg, ex |-> ex]
Sp(k) == [k |-> k, sg |-> 0, ex |-> <<>>]
NaN == Sp("nan")
Inf(sg) == [k |-> "inf", sg |-> sg, ex |-> <<>>]
Fail == Sp("fail")

IntTypes == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize", "i128", "u128"}
FloatTypes == {"f32", "f64"}
Bits(t) == CASE t \in {"i8", "u8"} -> 8 [] t \in {"i16", "u16"} -> 16 [] t \in {"i32", "u32"} -> 32
             [] t \in {"i64", "u64", "isize", "usize"} -> 64 [] OTHER -> 128
Signed(t) == t \in {"i8", "i16", "i32", "i64", "isize", "i128"}
Prec(t) == IF t = "f32" THEN 24 ELSE 53
Emin(t) == IF t = "f32" THEN -149 ELSE -1074
Emax(t) == IF t = "f32" THEN 127 ELSE 1023

(* ex + 2^c, where every element of ex is at least c *)
RECURSIVE Inc(_, _)
Inc(ex, c) == IF ex # <<>> /\ Last(ex) = c THEN Inc(Front(ex), c + 1) ELSE Append(ex, c)

Round(x, t) ==
  IF x.k # "fin" \/ x.ex = <<>> THEN x
  ELSE LET e    == x.ex[1]
           cut  == IF e - Prec(t) + 1 > Emin(t) THEN e - Prec(t) + 1 ELSE Emin(t)
           keep == SelectSeq(x.ex, LAMBDA i : i >= cut)
           tail == SelectSeq(x.ex, LAMBDA i : i < cut)
           up   == tail # <<>> /\ tail[1] = cut - 1 /\ (Len(tail) > 1 \/ (keep # <<>> /\ Last(keep) = cut))
           r    == IF up THEN Inc(keep, cut) ELSE keep
       IN IF r # <<>> /\ r[1] > Emax(t) THEN Inf(x.sg) ELSE Fin(x.sg, r)
FitsInt(sg, ex, t) ==
  \/ ex = <<>>
  \/ ~Signed(t) /\ sg = 0 /\ ex[1] < Bits(t)
  \/ Signed(t) /\ (ex[1] < Bits(t) - 1 \/ (sg = 1 /\ ex = <<Bits(t) - 1>>))
Trunc(x) == LET ex == SelectSeq(x.ex, LAMBDA i : i >= 0) IN Fin(IF ex = <<>> THEN 0 ELSE x.sg, ex)

Convert(x, t) == IF t \in FloatTypes THEN Round(x, t)
                 ELSE IF x.k # "fin" THEN Fail
                 ELSE LET y == Trunc(x) IN IF FitsInt(y.sg, y.ex, t) THEN y ELSE Fail
IsOf(x, t) == IF t \in FloatTypes THEN Round(x, t) = x
              ELSE x.k = "fin" /\ FitsInt(x.sg, x.ex, t) /\ (\A i \in DOMAIN x.ex : x.ex[i] >= 0) /\ (x.ex = <<>> => x.sg = 0)

(* ------------------------------- the menu ------------------------------- *)
Lead == {0, 1, 6, 7, 8, 14, 15, 16, 23, 24, 25, 30, 31, 32, 52, 53, 54, 62, 63, 64} \cup
        (IF Deep THEN (0..70) \cup {126, 127} ELSE {100, 126, 127})
Run(e, n) == [i \in 1..n |-> e - i + 1]
Tails(e) == {<<>>, <<e - 1>>, <<0>>, <<1, 0>>, <<e - 23>>, <<e - 24>>, <<e - 23, e - 24>>, <<e - 24, e - 25>>, <<e - 24, 0>>,
             <<e - 52>>, <<e - 53>>, <<e - 52, e - 53>>, <<e - 53, e - 54>>, <<e - 53, 0>>, <<-1>>, <<0, -1>>, <<-20>>}
Desc(s) == \A i \in 1..(Len(s) - 1) : s[i] > s[i + 1]
Patterns == {p \in UNION {{<<e>> \o t : t \in Tails(e)} \cup {Run(e, n) : n \in {e + 1, 24, 25, 53, 54, 64} \ {0}} : e \in Lead} : Desc(p)}
Fractions == {<<-1>>, <<-1, -2>>, <<-30>>, <<0, -1>>, <<7, -1>>, <<-126>>, <<-149>>, <<-150>>, <<-150, -151>>, <<-140, -150>>, <<-1022>>, <<-1074>>, <<127, 104>>, <<127, 103>>,
              Run(127, 24), Run(127, 25), <<128>>, <<1023>>, Run(1023, 53), <<500, 460>>, Run(-1, 30)}
Values == {Fin(s, p) : s \in {0, 1}, p \in Patterns \cup Fractions \cup {<<>>}} \cup {NaN, Inf(0), Inf(1)}
ValuesOf(t) == {x \in Values : IsOf(x, t)}

Init == from \in IntTypes \cup FloatTypes /\ to = "" /\ val = <<>> /\ st = "pick"
Pick == st = "pick" /\ \E t \in IntTypes \cup FloatTypes :
          /\ to' = t /\ st' = "done" /\ val' = SetToSeq(ValuesOf(from)) /\ UNCHANGED from
Next == Pick
Spec == Init /\ [][Next]_vars

(* ------------------------------ invariants ------------------------------ *)
Done == st = "done"
(* what is representable in the target arrives unchanged; the sign of a real zero is dropped by the integers only *)
InvExact == Done => \A i \in DOMAIN val : IsOf(val[i], to) => Convert(val[i], to) = val[i]
(* the result is representable in the target *)
InvTarget == Done => \A i \in DOMAIN val : LET r == Convert(val[i], to) IN r = Fail \/ IsOf(r, to)
(* widening and coming back is the identity *)
Wider(a, b) == \/ a \in FloatTypes /\ b \in FloatTypes /\ Prec(a) <= Prec(b)
               \/ a \in IntTypes /\ b \in IntTypes /\ (Signed(b) \/ ~Signed(a)) /\ Bits(a) + (IF Signed(a) = Signed(b) THEN 0 ELSE 1) <= Bits(b)
               \/ a \in IntTypes /\ b \in FloatTypes /\ Bits(a) <= Prec(b)
InvRoundTrip == Done /\ Wider(from, to) => \A i \in DOMAIN val : Convert(Convert(val[i], to), from) = val[i]
(* rounding is monotone on magnitudes: truncating the tail never exceeds, adding one unit never falls short *)
InvSpecial == Done /\ to \in FloatTypes => \A i \in DOMAIN val : val[i].k # "fin" => Convert(val[i], to) = val[i]

Emit == Done => PrintT("@@" \o ToJson([from |-> from, to |-> to, v |-> val, r |-> [i \in DOMAIN val |-> Convert(val[i], to)]]))
=============================================================================
