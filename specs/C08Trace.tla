------------------------------- MODULE C08Trace -------------------------------
EXTENDS Verify, Closure, TraceBase
AsSet(q) == {q[i] : i \in 1..Len(q)}
W == [own |-> Rec.own, chains |-> Rec.chains, child |-> Rec.child]
G == [st |-> [i \in 1..Len(Rec.refs) |-> "ok"], leaf |-> [i \in 1..Len(Rec.refs) |-> FALSE], refs |-> [i \in 1..Len(Rec.refs) |-> AsSet(Rec.refs[i])]]
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ Rec.out = "ok"
  (* a result for everything the map needs, once *)
  /\ AsSet(Rec.reported) = Reach(G, AsSet(Rec.roots)) /\ Len(Rec.reported) = Cardinality(AsSet(Rec.reported))
  (* the same as with one thread *)
  /\ Rec.findings = Rec.single
  (* and what they are *)
  /\ \A i \in 1..Len(Rec.reported) :
       LET t == Rec.reported[i] IN
       /\ Rec.bad[i] <=> t \in BadTags(W)
       /\ AsSet(Rec.blamed[i]) = Blamed(W, t)
       /\ Rec.loop[i] <=> Looping(W, t)
       /\ Rec.nan[t] => Rec.own[t]
===============================================================================
