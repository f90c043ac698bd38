------------------------------ MODULE C12Trace ------------------------------
EXTENDS TagCodec, TraceBase
(* memory: values in memory are larger than on disk by a bounded factor *)
MemoryOk == Rec.peak_kb <= 256 + Len(Rec.file) \div 8
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ MemoryOk
  /\ LET d == Decode(Rec.file, Rec.relaxed)
     IN Rec.ok = d.ok /\ (d.ok => Rec.rg = d.g /\ Rec.w = d.v)
=============================================================================
