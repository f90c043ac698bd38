------------------------------- MODULE C16Trace -------------------------------
(* before: the files there were; after: those there are then *)
EXTENDS Script, TraceBase
S == Rec.s
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ Rec.ok = CanDecompile(S)
  /\ (Rec.ok => Rec.same /\ IF S.globals = <<>> /\ S.scripts = <<>> THEN Rec.after = Rec.before ELSE IsSource(S, Rec.after))
===============================================================================
