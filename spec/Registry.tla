------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registry of evaluator patterns: a finite map from types to patterns *)
(* in which a later registration for a type replaces the earlier one and   *)
(* no registration touches another type.  A fresh registry knows nothing;  *)
(* an evaluator is offered for a type exactly when a pattern is there.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Len0
VARIABLES h, map
Types == 1..3
Pats == 1..2
None == 0
Init == h = <<>> /\ map = [t \in Types |-> None]
Register == \E t \in Types, p \in Pats :
  /\ h' = Append(h, [t |-> t, p |-> p, after |-> [map EXCEPT ![t] = p]])
  /\ map' = [map EXCEPT ![t] = p]
Next == Len(h) < Len0 /\ Register
Spec == Init /\ [][Next]_<<h, map>>
InvLast == \A t \in Types : LET w == SelectSeq(h, LAMBDA e : e.t = t) IN map[t] = IF w = <<>> THEN None ELSE w[Len(w)].p
InvAfter == \A i \in 1..Len(h) : h[i].after[h[i].t] = h[i].p /\ (i > 1 => \A t \in Types \ {h[i].t} : h[i].after[t] = h[i-1].after[t])
Emit == Len(h) = Len0 => PrintT("@@" \o ToJson(h))
=============================================================================
