--------------------------- MODULE ExprCacheThreads ---------------------------
(***************************************************************************)
(* The same caches shared by threads, at the grain of the locks: a call    *)
(* looks up under the cache's lock (counting a hit under the statistics'   *)
(* lock while it still holds the first), counts a miss, computes, stores.  *)
(* Clearing empties the two caches and the statistics one after the other. *)
(* TLC explores every interleaving of Threads threads, each making Calls   *)
(* calls of its choice: no deadlock, every result right, every call        *)
(* counted at most once, and exactly once when nobody clears.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Calls, Keys, BadKeys, MayClear, NestedClear
(* NestedClear: a variant in which clearing takes the statistics' lock first and keeps it; it deadlocks,
   and is here to show that the model can tell *)
VARIABLES pc, key, left, cache, hits, misses, lockC, lockS, res, begun
vars == <<pc, key, left, cache, hits, misses, lockC, lockS, res, begun>>
T == 1 .. Threads
None == 0
Init == /\ pc = [t \in T |-> "idle"] /\ key = [t \in T |-> None] /\ left = [t \in T |-> Calls]
        /\ cache = {} /\ hits = 0 /\ misses = 0 /\ lockC = None /\ lockS = None /\ res = [t \in T |-> <<>>] /\ begun = 0
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Same(v) == UNCHANGED v
Start(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ \/ \E k \in Keys : key' = [key EXCEPT ![t] = k] /\ Go(t, "look") /\ begun' = begun + 1
               \/ MayClear /\ Go(t, IF NestedClear THEN "nclr" ELSE "clr1") /\ Same(<<key, begun>>)
            /\ Same(<<cache, hits, misses, lockC, lockS, res>>)
Look(t) == /\ pc[t] = "look" /\ lockC = None
           /\ IF key[t] \in cache THEN lockC' = t /\ Go(t, "hit") ELSE Go(t, "miss") /\ lockC' = lockC     \* looked and released
           /\ Same(<<key, left, cache, hits, misses, lockS, res, begun>>)
Hit(t) == /\ pc[t] = "hit" /\ lockS = None /\ hits' = hits + 1 /\ lockC' = None
          /\ res' = [res EXCEPT ![t] = Append(@, <<key[t], "value">>)] /\ Go(t, "idle")
          /\ Same(<<key, left, cache, misses, lockS, begun>>)
Miss(t) == /\ pc[t] = "miss" /\ lockS = None /\ misses' = misses + 1 /\ Go(t, "compute")
           /\ Same(<<key, left, cache, hits, lockC, lockS, res, begun>>)
Compute(t) == /\ pc[t] = "compute"
              /\ IF key[t] \in BadKeys THEN Go(t, "idle") /\ res' = [res EXCEPT ![t] = Append(@, <<key[t], "error">>)]
                 ELSE Go(t, "store") /\ res' = res
              /\ Same(<<key, left, cache, hits, misses, lockC, lockS, begun>>)
Store(t) == /\ pc[t] = "store" /\ lockC = None /\ cache' = cache \cup {key[t]}
            /\ res' = [res EXCEPT ![t] = Append(@, <<key[t], "value">>)] /\ Go(t, "idle")
            /\ Same(<<key, left, hits, misses, lockC, lockS, begun>>)
Clr1(t) == /\ pc[t] = "clr1" /\ lockC = None /\ cache' = {} /\ Go(t, "clr2") /\ Same(<<key, left, hits, misses, lockC, lockS, res, begun>>)
Clr2(t) == /\ pc[t] = "clr2" /\ lockS = None /\ hits' = 0 /\ misses' = 0 /\ begun' = 0 /\ Go(t, "idle") /\ Same(<<key, left, cache, lockC, lockS, res>>)
NClr(t) == /\ pc[t] = "nclr" /\ lockS = None /\ lockS' = t /\ Go(t, "nclr2") /\ Same(<<key, left, cache, hits, misses, lockC, res, begun>>)
NClr2(t) == /\ pc[t] = "nclr2" /\ lockC = None /\ cache' = {} /\ hits' = 0 /\ misses' = 0 /\ begun' = 0 /\ lockS' = None /\ Go(t, "idle")
            /\ Same(<<key, left, lockC, res>>)
Step(t) == Start(t) \/ Look(t) \/ Hit(t) \/ Miss(t) \/ Compute(t) \/ Store(t) \/ Clr1(t) \/ Clr2(t) \/ NClr(t) \/ NClr2(t)
AllDone == \A t \in T : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in T : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t))

(* every result is the one the uncached operation gives *)
InvResult == \A t \in T : \A i \in DOMAIN res[t] : res[t][i][2] = (IF res[t][i][1] \in BadKeys THEN "error" ELSE "value")
InvNoErrorKept == cache \cap BadKeys = {}
(* at most one count per call; all of them once everybody is finished, if nobody clears *)
InvCount == /\ ~MayClear => hits + misses <= begun
            /\ (~MayClear /\ AllDone) => hits + misses = Threads * Calls
InvMisses == (~MayClear /\ AllDone) => misses >= Cardinality({res[t][i][1] : t \in T, i \in 1 .. Calls})
InvLocks == (lockC # None => pc[lockC] = "hit") /\ (lockS # None => pc[lockS] = "nclr2")
Finishes == <>AllDone
=============================================================================
