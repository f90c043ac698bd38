-------------------------------- MODULE C05MC --------------------------------
(* The work-list algorithm on every graph within the bounds, in every order   *)
(* in which pending tags can be taken, against the closure.                   *)
EXTENDS Closure, TLC, Json
CONSTANTS K, MaxBroken, EmitCases
VARIABLES w, allow, done, pending, result
vars == <<w, allow, done, pending, result>>
Status == {"ok", "missing", "unreadable"}
Worlds == {[st |-> s, leaf |-> [i \in 1..K |-> i = lf], refs |-> g] :
             s \in {s \in [1..K -> Status] : Cardinality({i \in 1..K : s[i] # "ok"}) <= MaxBroken}, lf \in {0, K}, g \in [1..K -> SUBSET (1..K)]}
Init == /\ w \in Worlds /\ allow \in BOOLEAN /\ done = {} /\ pending = {<<1, 0>>} /\ result = [kind |-> "none"]
Pend == {p[1] : p \in pending}
Step(p) ==
  LET i == p[1] IN
  IF ~Opens(w, i) THEN
    IF allow THEN pending' = pending \ {p} /\ UNCHANGED <<done, result>>
    ELSE /\ result' = IF w.st[i] = "unreadable" THEN [kind |-> "unreadable", t |-> i]
                      ELSE IF p[2] = 0 THEN [kind |-> "not_found", t |-> i] ELSE [kind |-> "broken", d |-> p[2], t |-> i]
         /\ UNCHANGED <<done, pending>>
  ELSE /\ done' = done \cup {i}
       /\ pending' = (pending \ {p}) \cup {<<j, i>> : j \in Refs(w, i) \ (done \cup {i} \cup Pend)}
       /\ UNCHANGED result
Next == /\ result.kind = "none"
        /\ IF pending = {} THEN result' = [kind |-> "ok", found |-> done, refs |-> [i \in done |-> Refs(w, i)]] /\ UNCHANGED <<done, pending>>
           ELSE \E p \in pending : Step(p)
        /\ UNCHANGED <<w, allow>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == result.kind # "none" => DepsOk(w, 1, allow, result)
Terminates == <>(result.kind # "none")
(* each tag is opened at most once *)
Once == Cardinality(Pend \cap done) = 0
Emit == EmitCases /\ allow /\ done = {} /\ result.kind = "none" /\ pending = {<<1, 0>>} =>
  PrintT("CASE " \o ToJson([st |-> w.st, leaf |-> w.leaf, refs |-> [i \in 1..K |-> [j \in 1..K |-> j \in w.refs[i]]]]))
=============================================================================
