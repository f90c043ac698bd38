------------------------------- MODULE C20Trace -------------------------------
EXTENDS Defaults, TraceBase
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ Rec.has = HasDefaults(Rec.group)
  /\ LET set == Set(Rec.group, Rec.a) strip == Strip(Rec.group, Rec.a) IN
     /\ Rec.set = set
     /\ Rec.strip = strip
     /\ Set(Rec.group, set) = set
     /\ Strip(Rec.group, strip) = strip
     /\ Rec.again = <<set, strip>>
     /\ Rec.back = Set(Rec.group, strip)
     /\ Restores(Rec.group, Rec.a)
===============================================================================
