------------------------------- MODULE C27Trace -------------------------------
EXTENDS Bsp, TraceBase
VB == <<11, 11, 10>>
Cell(c) == [start |-> c.start, count |-> c.count, layers |-> Of(c.bits)]
Objs(q) == [i \in Ids(q) |-> [q[i] EXCEPT !.cells = [k \in Ids(@) |-> Cell(@[k])]]]
B(b) == [b EXCEPT !.objs = Objs(@)]
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ LET a == B(Rec.a)  pal == Of(Rec.palette) IN
     /\ IF CanRestore(a) THEN /\ Len(Rec.restored) = 1 /\ IsRestored(a, B(Rec.restored[1]))
                              /\ Rec.did = Touched(a)
                         ELSE Rec.restored = <<>>
     /\ Rec.done = CanRepair(a)
     /\ IF CanRepair(a) THEN IsRepaired(a, B(Rec.repaired)) ELSE Rec.repaired = Rec.a
     /\ Rec.bad = Flawed(a, pal)
     /\ (CanRepair(a) => Of(Rec.missing) = Missing(a, pal) /\ Len(Rec.missing) = Cardinality(Of(Rec.missing)))
     /\ Rec.after = ~Flawed(B(Rec.repaired), pal)
     /\ (CanRepair(a) => ~Skewed(B(Rec.repaired)))
     /\ Rec.rest = <<TRUE, TRUE>>
===============================================================================
