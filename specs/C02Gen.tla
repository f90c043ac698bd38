-------------------------------- MODULE C02Gen --------------------------------
(* Every sequence of operations up to a length, from every start within the    *)
(* bounds, with the results and backing tree contents prescribed.              *)
EXTENDS CacheTree, TLC, Json, IOUtils, SequencesExt
CONSTANTS Tags, MaxLen, AllOps
Fresh(s) == Cardinality(DOMAIN s.hv) + 1
Handle(s, t) == IF Len(s.cache[t]) = 1 THEN s.cache[t][1] ELSE Fresh(s)
TagOps(s, t) == {[op |-> "open_shared", t |-> t, h |-> Handle(s, t)], [op |-> "open_copy", t |-> t], [op |-> "get", t |-> t, h |-> Handle(s, t)],
                 [op |-> "save", t |-> t, v |-> 2], [op |-> "save", t |-> t, v |-> 3], [op |-> "commit", t |-> t], [op |-> "evict", t |-> t],
                 [op |-> "external", t |-> t, v |-> 3]}
HandleOps(s) == {[op |-> "set", h |-> h, v |-> 2] : h \in DOMAIN s.hv}
Ops(s) == (UNION {TagOps(s, t) : t \in (IF AllOps THEN Tags ELSE {1})}) \cup HandleOps(s) \cup {[op |-> "commit_all"]}
          \cup (IF AllOps THEN {} ELSE {[op |-> "open_copy", t |-> 2], [op |-> "save", t |-> 2, v |-> 2], [op |-> "commit", t |-> 2]})
Inner(s) == [t \in 1..Cardinality(Tags) |-> s.inner[t]]
Step(s, r) == [op |-> r, want |-> [ret |-> Result(s, r), h |-> IF GivesHandle(s, r) THEN r.h ELSE 0,
               fails |-> IF r.op = "commit_all" THEN SetToSortSeq(Failures(s), <) ELSE <<>>, inner |-> Inner(After(s, r))]]
Starts == [manual : {TRUE, FALSE}, inner : {[t \in Tags |-> 1], [t \in Tags |-> IF t = 1 THEN 0 ELSE 1]}, cache : {[t \in Tags |-> None]}, hv : {<<>>}, wfail : {{}, {1}}, ofail : {{}}]
VARIABLES s, start, hist
Init == s \in Starts /\ start = s /\ hist = <<>>
Next == Len(hist) < MaxLen /\ \E r \in Ops(s) : s' = After(s, r) /\ hist' = Append(hist, Step(s, r)) /\ UNCHANGED start
Spec == Init /\ [][Next]_<<s, start, hist>>
Emit == Len(hist) = MaxLen => PrintT("CASE " \o ToJson([manual |-> start.manual, inner |-> Inner(start), wfail |-> SetToSeq(start.wfail), steps |-> hist]))
=============================================================================
