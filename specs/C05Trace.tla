------------------------------- MODULE C05Trace -------------------------------
EXTENDS Closure, TraceBase
AsSet(q) == {q[i] : i \in 1..Len(q)}
World(r) == [st |-> r.st, leaf |-> r.leaf, refs |-> [i \in 1..Len(r.refs) |-> AsSet(r.refs[i])]]
Res(o) == IF o.kind # "ok" THEN o
          ELSE [kind |-> "ok", found |-> AsSet(o.found), refs |-> [i \in AsSet(o.found) |-> AsSet(o.refs[CHOOSE k \in 1..Len(o.found) : o.found[k] = i])]]
NoDup(q) == Cardinality(AsSet(q)) = Len(q)
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ CASE Rec.op = "deps" -> DepsOk(World(Rec), Rec.root, Rec.allow, Res(Rec.out)) /\ (Rec.out.kind = "ok" => NoDup(Rec.out.found))
       [] Rec.op = "direct" -> AsSet(Rec.out) = AsSet(Rec.want)
       [] Rec.op = "reverse" -> IF Rec.out.kind = "ok" THEN AsSet(Rec.out.found) = Reverse(World(Rec), Rec.t) /\ NoDup(Rec.out.found)
                                ELSE \E i \in Nodes(World(Rec)) : Rec.st[i] = "unreadable"
       [] Rec.op = "map" -> MapOk(World(Rec), Rec.root, AsSet(Rec.required), IF Rec.out.kind = "ok" THEN [kind |-> "ok", found |-> AsSet(Rec.out.found)] ELSE Rec.out)
       [] Rec.op = "referenceable" -> AsSet(Rec.out) = AsSet(Rec.want)
=============================================================================
