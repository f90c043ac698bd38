------------------------------- MODULE C21Trace -------------------------------
EXTENDS Nudge, TraceBase
Values == \A i \in 1..Len(Rec.list) : LET v == Rec.list[i] IN
  /\ v.b \in Nudged(v.a)
  /\ v.again = v.b
  /\ v.changed = (v.a # v.b)
Tags ==
  /\ Rec.nudgeable = Nudgeable(Rec.group)
  /\ Rec.rest
  /\ \A i \in 1..Len(Rec.fields) : LET f == Rec.fields[i] IN IF f.p \in Fields(Rec.group) THEN f.b \in Nudged(f.a) ELSE f.b = f.a
  /\ \A i \in 1..Len(Rec.weights) : LET w == Rec.weights[i] IN IF Rec.group \in Objects THEN Weights(w.a, w.b) ELSE w.b = w.a
  /\ Rec.changed = ((\E i \in 1..Len(Rec.fields) : Rec.fields[i].a # Rec.fields[i].b) \/ (\E i \in 1..Len(Rec.weights) : Rec.weights[i].a # Rec.weights[i].b))
  /\ Rec.again = <<FALSE, TRUE>>
Accepted == ~Has(Rec, "crash") /\ IF Rec.op = "values" THEN Values ELSE Tags
===============================================================================
