------------------------------- MODULE C14Trace -------------------------------
EXTENDS TagDiff, TraceBase
Pair(es) == [i \in 1..Len(es) |-> [p |-> es[i].p, d |-> es[i].d]]
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ LET want == Diff(Rec.group, Rec.a, Rec.b, Rec.all, FALSE) IN
     /\ Pair(Rec.full) = want
     (* the other way around it is the same *)
     /\ Pair(Rec.back) = want
     /\ Diff(Rec.group, Rec.b, Rec.a, Rec.all, FALSE) = want
     (* with more than one difference in a list of several items summed up *)
     /\ Pair(Rec.short) = Diff(Rec.group, Rec.a, Rec.b, Rec.all, TRUE)
===============================================================================
