------------------------------ MODULE ExprJudge ------------------------------
(***************************************************************************)
(* Judges expressions recorded from the code: each record of File has an   *)
(* expression e of the model and a tree s that the code made of it.  The   *)
(* relation that must hold structurally is evaluated here; the meaning of  *)
(* s is printed for comparison with the meaning of e.                      *)
(***************************************************************************)
EXTENDS Expr, Json, SequencesExt

CONSTANTS File, Count, Blocks
VARIABLE i
Data == ndJsonDeserialize(File)
Size == (Count + Blocks - 1) \div Blocks
Init == i \in {1 + b * Size : b \in 0 .. Blocks - 1} /\ i <= Count
Next == i % Size # 0 /\ i < Count /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judge(r) == [i |-> i, id |-> r.id, vars |-> Vars(r.s) \subseteq Vars(r.e), ops |-> Ops(r.s) <= Ops(r.e), free |-> SetToSeq(Vars(r.s)), n |-> Ops(r.s), mass |-> Mass(r.s), consts |-> Consts(r.s), cost |-> Cost(r.s),
             val |-> Val(r.s), errs |-> Errs(r.s)]
TypeOK == i \in 1 .. Count
Emit == PrintT("@@" \o ToJson(Judge(Data[i])))
=============================================================================
