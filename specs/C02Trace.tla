------------------------------- MODULE C02Trace -------------------------------
(* Sequential histories, and linearizability of concurrent ones.               *)
EXTENDS CacheTree, HistBase
AsSet(q) == {q[i] : i \in 1..Len(q)}
SStart(r) == [manual |-> r.manual, inner |-> [t \in 1..Len(r.inner) |-> r.inner[t]], cache |-> [t \in 1..Len(r.inner) |-> None], hv |-> <<>>,
              wfail |-> AsSet(r.wfail), ofail |-> AsSet(r.ofail)]
(* an operation is possible in s with the result the record shows *)
Allowed(s, r) ==
  /\ r.ret = Result(s, r)
  /\ r.op = "peek" \/ r.op = "set" => r.h \in DOMAIN s.hv
  /\ GivesHandle(s, r) => MayBe(Loaded(s, r.t), r.t, r.h)
  /\ r.op = "commit_all" => AsSet(r.fails) = Failures(s) /\ Len(r.fails) = Cardinality(Failures(s))
  /\ r.op = "list" => AsSet(r.list) = Listing(s)
(* what reached the backing tree during the operation *)
Reached(s, r) ==
  /\ AsSet(r.writes) = Writes(s, r) /\ Len(r.writes) = Cardinality(Writes(s, r))
  /\ IF MayLoad(s, r) THEN Len(r.loads) <= 1 /\ AsSet(r.loads) \subseteq {r.t} ELSE r.loads = <<>>
  /\ r.inner = [t \in 1..Len(r.inner) |-> After(s, r).inner[t]]
(* a concurrent history: operations with the times of their calls and returns *)
RECURSIVE Lin(_, _)
Lin(s, ops) ==
  ops = {} \/ \E o \in ops :
    /\ \A p \in ops : ~(p.done < o.call)
    /\ (o.op \in {"peek", "set"} => o.h \in DOMAIN s.hv) /\ Allowed(s, o)
    /\ Lin(After(s, o), ops \ {o})
Concurrent(r) ==
  /\ Lin(SStart(r), AsSet(r.ops))
  (* without evictions in the history a tag is loaded at most once *)
  /\ \A t \in 1..Len(r.inner) : r.loads[t] <= 1
SAfter(s, r) == IF r.op = "concurrent" THEN s ELSE After(s, r)
SOk(s, r) == IF r.op = "concurrent" THEN Concurrent(r) ELSE Allowed(s, r) /\ Reached(s, r)
=============================================================================
