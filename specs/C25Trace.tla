------------------------------- MODULE C25Trace -------------------------------
EXTENDS Anim, TraceBase
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ \A i \in 1..Len(Rec.anims) : LET a == Rec.anims[i]  o == Rec.walks[i]
        IN o.own = Order(a) /\ o.rest = Rest(a) /\ o.size = SizeOf(Order(a)) /\ o.left = SizeOf(Rest(a))
  /\ Rec.ok = \A i \in 1..Len(Rec.anims) : Fine(Rec.anims[i])
  /\ Rec.ok => /\ Len(Rec.got) = Len(Rec.anims)
               /\ \A i \in 1..Len(Rec.anims) : Rec.got[i] = Extracted(Rec.anims[i])
               /\ Rec.rest
===============================================================================
