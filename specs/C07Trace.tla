------------------------------- MODULE C07Trace -------------------------------
EXTENDS GroupRefactor, TraceBase
Present == {<<Rec.present[i].g, Rec.present[i].p>> : i \in 1..Len(Rec.present)}
Want(v) == Refactor(Groups[Rec.group].struct, v, Rec.from, Rec.to, Present, Rec.ro)
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ LET w == Want(Rec.before) IN
     /\ Rec.after = w
     /\ Rec.changed <=> w # Rec.before
     (* idempotent: as specified, and as done *)
     /\ Want(w) = w /\ Rec.again = w /\ ~Rec.changed2
=============================================================================
