------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Reads printed expressions back, by the precedence and associativity     *)
(* rules of the notation they were printed for.  A text is a sequence of   *)
(* tokens [t |-> "num" | "id" | "sym", s |-> text]; the token of a number  *)
(* carries the bit pattern of its value.                                   *)
(*                                                                         *)
(*   sum     ::= product { (+ | -) product }                               *)
(*   product ::= signed { times-or-over signed }    infix, python          *)
(*   product ::= signed { \cdot signed | power }    LaTeX                  *)
(*   signed  ::= - signed | power                                          *)
(*   power   ::= atom [ ^ signed ]   two stars in python             *)
(*                                                                         *)
(* so a sign binds less tightly than a power, powers associate to the      *)
(* right and everything else to the left.                                  *)
(***************************************************************************)
EXTENDS Expr, Json, SequencesExt

CONSTANTS File, Count, Blocks
VARIABLE i
Data == ndJsonDeserialize(File)
Size == (Count + Blocks - 1) \div Blocks
Init == i \in {1 + b * Size : b \in 0 .. Blocks - 1} /\ i <= Count
Next == i % Size # 0 /\ i < Count /\ i' = i + 1
Spec == Init /\ [][Next]_i
TypeOK == i \in 1 .. Count

(* a reading is [p |-> next position, or 0 for "cannot be read", e |-> tree] *)
None == XV("?")
Fail == [p |-> 0, e |-> None]
At(p, e) == [p |-> p, e |-> e]
Tok(ts, p) == IF p <= Len(ts) THEN ts[p].s ELSE ""
IsSym(ts, p, s) == p <= Len(ts) /\ ts[p].t = "sym" /\ ts[p].s = s
Fun(nt, s) == CASE nt = "python" -> (CASE s = "math.log" -> "ln" [] s = "math.exp" -> "exp" [] s = "math.sqrt" -> "sqrt" [] s = "math.sin" -> "sin" [] s = "math.cos" -> "cos" [] OTHER -> "")
               [] nt = "latex" -> (CASE s = "\\ln" -> "ln" [] s = "\\log" -> "ln" [] s = "\\exp" -> "exp" [] s = "\\sin" -> "sin" [] s = "\\cos" -> "cos" [] OTHER -> "")
               [] OTHER -> (IF s \in {"ln", "exp", "sqrt", "sin", "cos"} THEN s ELSE "")
PowSym(nt) == IF nt = "python" THEN "**" ELSE "^"

RECURSIVE Sum(_, _, _), SumRest(_, _, _), Product(_, _, _), ProductRest(_, _, _), Signed(_, _, _), Power(_, _, _), Atom(_, _, _), Paren(_, _, _, _)

Paren(nt, ts, p, cl) ==       \* the sum inside brackets, p just after the opening one
  LET r == Sum(nt, ts, p) IN IF r.p = 0 \/ ~IsSym(ts, r.p, cl) THEN Fail ELSE At(r.p + 1, r.e)
Group(nt, ts, p) == IF IsSym(ts, p, "{") THEN Paren(nt, ts, p + 1, "}") ELSE Fail

Atom(nt, ts, p) ==
  IF p > Len(ts) THEN Fail
  ELSE LET t == ts[p] IN
    CASE t.t = "num" -> At(p + 1, X("b", <<t.s>>))
      [] t.t = "sym" /\ t.s = "(" -> Paren(nt, ts, p + 1, ")")
      [] nt = "latex" /\ t.t = "sym" /\ t.s = "{" -> Paren(nt, ts, p + 1, "}")
      [] nt = "latex" /\ t.t = "id" /\ t.s = "\\frac" ->
           LET a == Group(nt, ts, p + 1) IN IF a.p = 0 THEN Fail ELSE LET b == Group(nt, ts, a.p) IN IF b.p = 0 THEN Fail ELSE At(b.p, X2("div", a.e, b.e))
      [] nt = "latex" /\ t.t = "id" /\ t.s = "\\sqrt" -> LET a == Group(nt, ts, p + 1) IN IF a.p = 0 THEN Fail ELSE At(a.p, X1("sqrt", a.e))
      [] nt = "latex" /\ t.t = "id" /\ t.s = "e" /\ IsSym(ts, p + 1, "^") -> LET a == Group(nt, ts, p + 2) IN IF a.p = 0 THEN Fail ELSE At(a.p, X1("exp", a.e))
      [] t.t = "id" /\ Fun(nt, t.s) # "" /\ IsSym(ts, p + 1, "(") ->
           LET a == Paren(nt, ts, p + 2, ")") IN IF a.p = 0 THEN Fail ELSE At(a.p, X1(Fun(nt, t.s), a.e))
      [] t.t = "id" -> At(p + 1, XV(t.s))
      [] OTHER -> Fail
Power(nt, ts, p) ==
  LET a == Atom(nt, ts, p) IN
  IF a.p = 0 THEN Fail
  ELSE IF IsSym(ts, a.p, PowSym(nt))
       THEN LET b == IF nt = "latex" THEN Group(nt, ts, a.p + 1) ELSE Signed(nt, ts, a.p + 1) IN
            IF b.p = 0 THEN Fail
            ELSE IF nt = "latex" /\ IsSym(ts, b.p, "^") THEN Fail        \* a double superscript is no LaTeX
            ELSE At(b.p, X2("pow", a.e, b.e))
       ELSE a
Signed(nt, ts, p) == IF IsSym(ts, p, "-") THEN LET a == Signed(nt, ts, p + 1) IN IF a.p = 0 THEN Fail ELSE At(a.p, X1("neg", a.e)) ELSE Power(nt, ts, p)
ProductRest(nt, ts, l) ==
  IF l.p = 0 THEN Fail
  ELSE IF nt # "latex"
       THEN IF IsSym(ts, l.p, "*") \/ IsSym(ts, l.p, "/")
            THEN LET r == Signed(nt, ts, l.p + 1) IN IF r.p = 0 THEN Fail ELSE ProductRest(nt, ts, At(r.p, X2(IF Tok(ts, l.p) = "*" THEN "mul" ELSE "div", l.e, r.e)))
            ELSE l
       ELSE IF l.p > Len(ts) THEN l
       ELSE IF ts[l.p].t = "id" /\ ts[l.p].s = "\\cdot"
            THEN LET r == Signed(nt, ts, l.p + 1) IN IF r.p = 0 THEN Fail ELSE ProductRest(nt, ts, At(r.p, X2("mul", l.e, r.e)))
       ELSE IF ts[l.p].t \in {"id", "num"} \/ IsSym(ts, l.p, "(")         \* juxtaposition
            THEN LET r == Power(nt, ts, l.p) IN IF r.p = 0 THEN Fail ELSE ProductRest(nt, ts, At(r.p, X2("mul", l.e, r.e)))
       ELSE l
Product(nt, ts, p) ==
  \* a leading sign covers the whole product
  IF IsSym(ts, p, "-") /\ nt = "latex" THEN LET a == Product(nt, ts, p + 1) IN IF a.p = 0 THEN Fail ELSE At(a.p, X1("neg", a.e))
  ELSE ProductRest(nt, ts, Signed(nt, ts, p))
SumRest(nt, ts, l) ==
  IF l.p = 0 THEN Fail
  ELSE IF IsSym(ts, l.p, "+") \/ IsSym(ts, l.p, "-")
       THEN LET r == Product(nt, ts, l.p + 1) IN IF r.p = 0 THEN Fail ELSE SumRest(nt, ts, At(r.p, X2(IF Tok(ts, l.p) = "+" THEN "add" ELSE "sub", l.e, r.e)))
       ELSE l
Sum(nt, ts, p) == SumRest(nt, ts, Product(nt, ts, p))
Read(nt, ts) == LET r == Sum(nt, ts, 1) IN IF r.p = Len(ts) + 1 THEN r ELSE Fail

(* a printer that brackets everything, to check that reading undoes printing *)
Sy(s) == [t |-> "sym", s |-> s]
Id(s) == [t |-> "id", s |-> s]
RECURSIVE Show(_, _)
Show(nt, e) ==
  CASE e.k = "b" -> <<[t |-> "num", s |-> e.a[1]]>>
    [] e.k = "v" -> <<Id(e.a[1])>>
    [] e.k = "neg" -> <<Sy("("), Sy("-")>> \o Show(nt, e.a[1]) \o <<Sy(")")>>
    [] e.k = "div" /\ nt = "latex" -> <<Id("\\frac"), Sy("{")>> \o Show(nt, e.a[1]) \o <<Sy("}"), Sy("{")>> \o Show(nt, e.a[2]) \o <<Sy("}")>>
    [] e.k = "pow" /\ nt = "latex" -> <<Sy("(")>> \o Show(nt, e.a[1]) \o <<Sy(")"), Sy("^"), Sy("{")>> \o Show(nt, e.a[2]) \o <<Sy("}")>>
    [] e.k = "sqrt" /\ nt = "latex" -> <<Id("\\sqrt"), Sy("{")>> \o Show(nt, e.a[1]) \o <<Sy("}")>>
    [] e.k \in Unary -> <<Id(CHOOSE f \in (CASE nt = "python" -> {"math.log", "math.exp", "math.sqrt", "math.sin", "math.cos"}
                                               [] nt = "latex" -> {"\\ln", "\\exp", "\\sin", "\\cos"} [] OTHER -> {"ln", "exp", "sqrt", "sin", "cos"}) : Fun(nt, f) = e.k), Sy("(")>>
                        \o Show(nt, e.a[1]) \o <<Sy(")")>>
    [] OTHER -> <<Sy("(")>> \o Show(nt, e.a[1])
                \o <<CASE e.k = "add" -> Sy("+") [] e.k = "sub" -> Sy("-") [] e.k = "mul" -> (IF nt = "latex" THEN Id("\\cdot") ELSE Sy("*")) [] e.k = "div" -> Sy("/") [] OTHER -> Sy(PowSym(nt))>>
                \o Show(nt, e.a[2]) \o <<Sy(")")>>

Rd == Read(Data[i].nt, Data[i].ts)
(* reading undoes the fully bracketed printing of whatever was read *)
InvRoundTrip == LET r == Rd IN r.p # 0 => LET q == Read(Data[i].nt, Show(Data[i].nt, r.e)) IN q.p # 0 /\ SameX(q.e, r.e)
Emit == PrintT("@@" \o ToJson([id |-> Data[i].id, ok |-> Rd.p # 0, e |-> Rd.e, val |-> Val(Rd.e), free |-> SetToSeq(Vars(Rd.e))]))
=============================================================================
