------------------------------ MODULE C18Trace ------------------------------
EXTENDS Plate, TraceBase
Files == Rec.files
(* grey with opacity in TIFF and separate planes may be refused *)
Maybe(f) == f.kind = "planar" \/ (f.kind = "greya" /\ f.ext \notin {"png", "Png"})
Good(f) == f.kind \in Kinds /\ ~Maybe(f)
Seen(f) == IF f.kind = "planar" THEN [f EXCEPT !.kind = "rgb"] ELSE f
(* every file on its own *)
Loaded(f, g) ==
  IF Good(f) THEN g.ok /\ g.pic = Picture(f)
  ELSE IF Maybe(f) THEN g.ok => g.pic = Picture(Seen(f))
  ELSE ~g.ok
PadOk == ~Rec.haspad \/ Padding(Rec.pad) >= 0
Chosen == [i \in 1..Len(Rec.order) |-> Files[Rec.order[i]]]
Images == LET c == Chosen IN Group([i \in 1..Len(c) |-> Picture(Seen(c[i]))], Counts(Files, 0), 1)
Made ==
  LET c == Chosen
      hopeless == ~PadOk \/ c = <<>> \/ \E i \in 1..Len(c) : ~Good(c[i]) /\ ~Maybe(c[i])
      sure == ~hopeless /\ \A i \in 1..Len(c) : Good(c[i])
  IN /\ hopeless => ~Rec.ok
     /\ sure => Rec.ok
     /\ Rec.ok => \E m \in {Images}, p \in {Rec.plate} : IsPlate(p, m, IF Rec.haspad THEN Padding(Rec.pad) ELSE -1) /\ Rec.again
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ Len(Rec.loaded) = Len(Files) /\ \A i \in 1..Len(Files) : Loaded(Files[i], Rec.loaded[i])
  /\ IsOrder(Files, Rec.order)
  /\ Made
=============================================================================
