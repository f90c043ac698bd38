-------------------------------- MODULE C02Lock --------------------------------
(* The mechanism: threads open one tag through the cache guarded by a mutex,   *)
(* each step separately interleaved.  Opening must give everybody the same     *)
(* object with a single load, without deadlock; a saving thread (through the   *)
(* atomic wrapper, whose mutex is `outer') replaces the object.                *)
EXTENDS Integers, FiniteSets
CONSTANTS Openers, Savers, UseOuter
Threads == Openers \cup Savers
VARIABLES pc, lock, outer, cache, next, loads, got, epoch, got_epoch
vars == <<pc, lock, outer, cache, next, loads, got, epoch, got_epoch>>
Init == /\ pc = [t \in Threads |-> "start"] /\ lock = 0 /\ outer = 0 /\ cache = 0 /\ next = 1 /\ loads = 0
        /\ got = [t \in Threads |-> 0] /\ epoch = 0 /\ got_epoch = [t \in Threads |-> 0]
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
EnterOuter(t) == /\ pc[t] = "start"
                 /\ IF UseOuter THEN outer = 0 /\ outer' = t ELSE UNCHANGED outer
                 /\ Goto(t, "lock") /\ UNCHANGED <<lock, cache, next, loads, got, epoch, got_epoch>>
Lock(t) == pc[t] = "lock" /\ lock = 0 /\ lock' = t /\ Goto(t, IF t \in Savers THEN "insert" ELSE "look")
           /\ UNCHANGED <<outer, cache, next, loads, got, epoch, got_epoch>>
Look(t) == /\ pc[t] = "look"
           /\ IF cache # 0 THEN got' = [got EXCEPT ![t] = cache] /\ got_epoch' = [got_epoch EXCEPT ![t] = epoch] /\ Goto(t, "unlock") /\ UNCHANGED loads
              ELSE Goto(t, "load") /\ loads' = loads + 1 /\ UNCHANGED <<got, got_epoch>>
           /\ UNCHANGED <<lock, outer, cache, next, epoch>>
Load(t) == pc[t] = "load" /\ Goto(t, "insert") /\ UNCHANGED <<lock, outer, cache, next, loads, got, epoch, got_epoch>>
Insert(t) == /\ pc[t] = "insert" /\ cache' = next /\ next' = next + 1
             /\ epoch' = IF t \in Savers THEN epoch + 1 ELSE epoch
             /\ got' = [got EXCEPT ![t] = next] /\ got_epoch' = [got_epoch EXCEPT ![t] = epoch']
             /\ Goto(t, "unlock") /\ UNCHANGED <<lock, outer, loads>>
Unlock(t) == pc[t] = "unlock" /\ lock' = 0 /\ outer' = (IF UseOuter THEN 0 ELSE outer) /\ Goto(t, "done")
             /\ UNCHANGED <<cache, next, loads, got, epoch, got_epoch>>
Next == \E t \in Threads : EnterOuter(t) \/ Lock(t) \/ Look(t) \/ Load(t) \/ Insert(t) \/ Unlock(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == loads <= 1
SameObject == \A t, u \in Openers : pc[t] = "done" /\ pc[u] = "done" /\ got_epoch[t] = got_epoch[u] => got[t] = got[u]
Finishes == <>(\A t \in Threads : pc[t] = "done")
=============================================================================
