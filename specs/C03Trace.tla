------------------------------ MODULE C03Trace ------------------------------
EXTENDS TagFilter, TraceBase
Want(r) == CASE r.op = "passes" -> Passes(r.f, r.g, r.path, r.pg)
             [] r.op = "null" -> NullPasses(r.f, r.g, r.pg)
             [] r.op = "ref" -> Passes(r.f, r.g, r.path, r.pg)
             [] r.op = "clean" -> Cleanup(r.f, r.g)
             [] r.op = "is_filter" -> \E i \in 1..Len(r.f) : r.f[i] \in {Star, Quest}
Accepted == ~Has(Rec, "crash") /\ Rec.out = Want(Rec)
=============================================================================
