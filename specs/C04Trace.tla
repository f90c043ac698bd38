------------------------------- MODULE C04Trace -------------------------------
EXTENDS TagPath, TraceBase
Groups == {Trace[1].groups[i].name : i \in 1..Len(Trace[1].groups)}
FourCCs == {Trace[1].groups[i].fourcc : i \in 1..Len(Trace[1].groups)}
Forms(o, p, g) == /\ o.p = p /\ o.g = g /\ o.base = BaseName(p) /\ o.internal = Internal(p, g)
                  /\ o.native = NativeForm(p, g) /\ o.zip = NativeForm(p, g) /\ o.display = NativeForm(p, g)
                  /\ o.inside /\ \A i \in 1..Len(o.again) : o.again[i]
Want(r) ==
  CASE r.op = "new" -> LET w == Parse(r.t) IN r.out.ok = w.ok /\ (w.ok => Forms(r.out, w.p, r.g))
    [] r.op = "full" -> LET w == ParseFull(r.t, Groups) IN r.out.ok = w.ok /\ (w.ok => Forms(r.out, w.p, w.g))
    [] r.op = "split" -> LET d == LastDot(r.t) g == SubSeq(r.t, d + 1, Len(r.t)) IN
         IF d = 0 \/ g \notin Groups THEN ~r.out.ok ELSE r.out.ok /\ r.out.p = SubSeq(r.t, 1, d - 1) /\ r.out.g = g
    [] r.op = "group" -> r.out = (r.t \in Groups)
    [] r.op = "groups" -> /\ Cardinality(Groups) = Len(r.groups) /\ Cardinality(FourCCs) = Len(r.groups)
                          /\ \A i \in 1..Len(r.groups) : r.groups[i] = r.out[i]
    [] r.op = "order" -> r.out = (IF r.a = r.b THEN 0 ELSE 1)
    [] r.op = "setgroup" -> r.out = [p |-> r.p, g |-> r.g]
Accepted == ~Has(Rec, "crash") /\ Want(Rec)
=============================================================================
