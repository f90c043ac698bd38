------------------------------ MODULE C11Trace ------------------------------
EXTENDS TagCodec, TraceBase
(* the bits of a value that files keep, everything else as it is *)
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ Rec.file = Encode(Rec.group, Rec.v)
  /\ LET d == Decode(Rec.file, FALSE) IN d.ok /\ d.g = Rec.group /\ d.v = Rec.w /\ Rec.rg = Rec.group
  /\ Rec.same
=============================================================================
