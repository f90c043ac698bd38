------------------------------- MODULE C23Trace -------------------------------
EXTENDS Sound, TraceBase
Set(q) == {q[i] : i \in Ids(q)}
Errors(s, o) ==
  /\ (Flawed(s) => o.errors) /\ (o.errors => Flawed(s) \/ Hollow(s))
  /\ {x \in Pairs(s) : BadChain(s, x) \/ BadPart(s, x)} = Set(o.named)
  /\ {i \in Ids(s.prs) : Unused(s, i) \/ BadBend(s.prs[i])} = Set(o.warned)
Sounds ==
  /\ Errors(Rec.a, Rec.seen)
  /\ Rec.done = ~Hopeless(Rec.a)
  /\ Rec.b = Repair(Rec.a)
  /\ Rec.rest
  /\ Errors(Rec.b, Rec.after)
Conversions ==
  /\ \A i \in Ids(Rec.ch) : Rec.ch[i][2] = IF Rec.ch[i][1] \in {1, 2} THEN Rec.ch[i][1] ELSE -1
  /\ \A i \in Ids(Rec.rate) : Rec.rate[i][2] = IF Rec.rate[i][1] \in {22050, 44100} THEN Rec.rate[i][1] ELSE -1
  /\ Rec.names = <<1, 2, 22050, 44100>>
Accepted == ~Has(Rec, "crash") /\ IF Rec.op = "sound" THEN Sounds ELSE Conversions
===============================================================================
