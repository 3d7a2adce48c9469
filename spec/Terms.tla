------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* Ground real-valued terms, for values that leave the rationals.          *)
(* A term is [o |-> operator, a |-> sequence of arguments]; the numeric    *)
(* co-processor evaluates it (exactly while it stays rational, then with   *)
(* 50 digits, with a running bound on what rounding can do to it).         *)
(*    q   a Num          ll  an LL value        ninf  minus infinity       *)
(*    + - * / neg ln exp sin cos sqrt abs  pow  sum  lse  if               *)
(* A condition is [o |-> lt|le|eq|and|or|not|true|false, a |-> ...]; the   *)
(* co-processor refuses to decide a comparison of irrational terms that is *)
(* too close to call, and the obligation is then dropped.                  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE LogLin

T(o, a) == [o |-> o, a |-> a]
TQ(q) == T("q", <<q>>)
TLL(v) == T("ll", <<v>>)
TNInf == T("ninf", <<>>)
TAdd(x, y) == T("+", <<x, y>>)
TSub(x, y) == T("-", <<x, y>>)
TMul(x, y) == T("*", <<x, y>>)
TDiv(x, y) == T("/", <<x, y>>)
TNeg(x) == T("neg", <<x>>)
TLn(x) == T("ln", <<x>>)
TExp(x) == T("exp", <<x>>)
TSin(x) == T("sin", <<x>>)
TCos(x) == T("cos", <<x>>)
TSqrt(x) == T("sqrt", <<x>>)
TAbs(x) == T("abs", <<x>>)
TPow(x, y) == T("pow", <<x, y>>)
TSum(xs) == T("sum", xs)
TLse(xs) == T("lse", xs)
TSq(x) == TMul(x, x)
TIf(c, x, y) == T("if", <<c, x, y>>)
CTrue == T("true", <<>>)
CFalse == T("false", <<>>)
CLt(x, y) == T("lt", <<x, y>>)
CLe(x, y) == T("le", <<x, y>>)
CEq(x, y) == T("eq", <<x, y>>)
CAnd(x, y) == T("and", <<x, y>>)
COr(x, y) == T("or", <<x, y>>)
CNot(x) == T("not", <<x>>)
(* y, where x must be a representable number *)
TTouch(x, y) == T("touch", <<x, y>>)
TZero == TQ(Zero)
TOne == TQ(One)
=============================================================================
