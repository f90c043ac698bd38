-------------------------------- MODULE C02MC --------------------------------
(* The cache with everything a client can do, against what it promises:       *)
(* `truth' is what each tag reads as, told only by the property's own words.  *)
EXTENDS CacheTree, TLC
CONSTANTS Tags, Values, MaxHandles
VARIABLES s, truth, last
vars == <<s, truth, last>>
Nothing == [t \in Tags |-> 0]
Init == /\ s \in [manual : {TRUE, FALSE}, inner : [Tags -> {0, 1}], cache : {[t \in Tags |-> None]}, hv : {<<>>},
                  wfail : {{}, {1}}, ofail : {{}, {1}}]
        /\ truth = Nothing          \* value of every cached tag, 0 = not cached
        /\ last = "init"
Fresh(x) == CHOOSE k \in 1..(MaxHandles + 1) : k \notin DOMAIN x.hv
Do(r) == s' = After(s, r)
Handle(t) == IF s.cache[t] # None /\ Len(s.cache[t]) = 1 THEN s.cache[t][1] ELSE Fresh(s)
Ops(t, v) == {[op |-> "open_shared", t |-> t, h |-> Handle(t)], [op |-> "open_copy", t |-> t], [op |-> "get", t |-> t, h |-> Handle(t)],
              [op |-> "save", t |-> t, v |-> v], [op |-> "commit", t |-> t], [op |-> "commit_all"], [op |-> "evict", t |-> t]}
Truth(r) ==
  CASE r.op \in {"open_shared", "open_copy"} -> IF truth[r.t] = 0 /\ s.inner[r.t] # 0 /\ r.t \notin s.ofail THEN [truth EXCEPT ![r.t] = s.inner[r.t]] ELSE truth
    [] r.op = "save" -> IF Result(s, r) = 1 THEN [truth EXCEPT ![r.t] = r.v] ELSE truth
    [] r.op = "evict" -> [truth EXCEPT ![r.t] = 0]
    [] OTHER -> truth
Next == \/ \E t \in Tags, v \in Values : \E r \in Ops(t, v) : Do(r) /\ truth' = Truth(r) /\ last' = r.op
        \/ \E h \in DOMAIN s.hv, v \in Values :
             /\ Do([op |-> "set", h |-> h, v |-> v])
             /\ truth' = [t \in Tags |-> IF s.cache[t] = <<h>> THEN v ELSE truth[t]]
             /\ last' = "set"
        \/ \E t \in Tags, v \in Values \cup {0} : Do([op |-> "external", t |-> t, v |-> v]) /\ UNCHANGED truth /\ last' = "external"
Spec == Init /\ [][Next]_vars
Bound == Cardinality(DOMAIN s.hv) <= MaxHandles
Coherent == \A t \in Tags : (truth[t] = 0) = ~Cached(s, t) /\ (Cached(s, t) => CurrentIn(s, t) = truth[t])
(* two tags never share an object *)
Separate == \A t, u \in Tags : t # u /\ Cached(s, t) /\ Cached(s, u) /\ Len(s.cache[t]) = 1 => s.cache[t] # s.cache[u]
(* nothing but a commit, an instant save or somebody else changes the backing tree *)
WriteBack == [][s'.inner # s.inner => \/ last' \in {"commit", "commit_all", "external"}
                                      \/ last' = "save" /\ ~s.manual]_vars
(* with the instant strategy a successful save is at once in both *)
Instant == \A t \in Tags, v \in Values : LET r == [op |-> "save", t |-> t, v |-> v] n == After(s, r) IN
             ~s.manual => IF Result(s, r) = 1 THEN n.inner[t] = v /\ CurrentIn(n, t) = v ELSE n = s
CommitAll == LET n == After(s, [op |-> "commit_all"]) IN
             \A t \in CachedTags(s) : n.inner[t] = CurrentIn(s, t) \/ t \in Failures(s)
=============================================================================
