---------------------------- MODULE ExprCacheTrace ----------------------------
(***************************************************************************)
(* Validates histories recorded from threads that shared the real caches.  *)
(* A trace is a sequence of call and return events in the order of a       *)
(* global clock, and the statistics read at the end.  It is accepted if    *)
(* there is some interleaving of the inner steps of ExprCacheThreads       *)
(* (look up and count the hit; count the miss; store; clear in three       *)
(* steps) in which every call returns inside its interval and the final    *)
(* statistics come out as recorded.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS File, Count
VARIABLES tr, pos, ph, cache, h, m
vars == <<tr, pos, ph, cache, h, m>>
Data == ndJsonDeserialize(File)
(* a record: ev |-> sequence of [c |-> call number, b |-> begins?], calls |-> sequence of [kind "s"|"e"|"c", key, ok],
   h, m |-> final hits and misses of the two caches *)
D == Data[tr]
Init == /\ tr \in 1 .. Count /\ pos = 1 /\ ph = [c \in DOMAIN Data[tr].calls |-> 0] /\ cache = {} /\ h = [s |-> 0, e |-> 0] /\ m = [s |-> 0, e |-> 0]
(* phases of a call: 0 not begun, 1 begun, 2 looked up in vain, 3 miss counted, 9 finished; a clearing: 1, 4, 5, 9 *)
Begin == /\ pos <= Len(D.ev) /\ D.ev[pos].b /\ ph' = [ph EXCEPT ![D.ev[pos].c] = 1] /\ pos' = pos + 1 /\ UNCHANGED <<tr, cache, h, m>>
End == /\ pos <= Len(D.ev) /\ ~D.ev[pos].b /\ ph[D.ev[pos].c] = 9 /\ pos' = pos + 1 /\ UNCHANGED <<tr, ph, cache, h, m>>
Look(c) == LET q == D.calls[c] IN
  /\ ph[c] = 1 /\ q.kind # "c"
  /\ IF <<q.kind, q.key>> \in cache THEN q.ok /\ h' = [h EXCEPT ![q.kind] = @ + 1] /\ ph' = [ph EXCEPT ![c] = 9] ELSE h' = h /\ ph' = [ph EXCEPT ![c] = 2]
  /\ UNCHANGED <<tr, pos, cache, m>>
Miss(c) == ph[c] = 2 /\ m' = [m EXCEPT ![D.calls[c].kind] = @ + 1] /\ ph' = [ph EXCEPT ![c] = IF D.calls[c].ok THEN 3 ELSE 9] /\ UNCHANGED <<tr, pos, cache, h>>
Store(c) == ph[c] = 3 /\ cache' = cache \cup {<<D.calls[c].kind, D.calls[c].key>>} /\ ph' = [ph EXCEPT ![c] = 9] /\ UNCHANGED <<tr, pos, h, m>>
Clr1(c) == ph[c] = 1 /\ D.calls[c].kind = "c" /\ cache' = {q \in cache : q[1] # "s"} /\ ph' = [ph EXCEPT ![c] = 4] /\ UNCHANGED <<tr, pos, h, m>>
Clr1b(c) == ph[c] = 4 /\ cache' = {q \in cache : q[1] # "e"} /\ ph' = [ph EXCEPT ![c] = 5] /\ UNCHANGED <<tr, pos, h, m>>
Clr2(c) == ph[c] = 5 /\ h' = [s |-> 0, e |-> 0] /\ m' = [s |-> 0, e |-> 0] /\ ph' = [ph EXCEPT ![c] = 9] /\ UNCHANGED <<tr, pos, cache>>
Next == Begin \/ End \/ \E c \in DOMAIN D.calls : Look(c) \/ Miss(c) \/ Store(c) \/ Clr1(c) \/ Clr1b(c) \/ Clr2(c)
Spec == Init /\ [][Next]_vars
TypeOK == pos <= Len(D.ev) + 1
Accept == (pos = Len(D.ev) + 1 /\ h["s"] = D.h.s /\ h["e"] = D.h.e /\ m["s"] = D.m.s /\ m["e"] = D.m.e) => PrintT("@@" \o ToJson([tr |-> D.id]))
=============================================================================
