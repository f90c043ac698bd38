------------------------------- MODULE C24Trace -------------------------------
EXTENDS ModelTag, TraceBase
VB == <<11, 11, 10>>
Models ==
  LET m == Rec.a IN
  /\ Rec.ok = IndicesFine(m)
  /\ Rec.bad = Flawed(Rec.stored)          \* verification reads the tag as stored
  /\ Rec.done = ~Hopeless(m)
  /\ (~Hopeless(m) => IsRepaired(m, Rec.repaired) /\ Rec.rest[1])
  /\ IsRecompressed(m, Rec.recompressed) /\ Rec.rest[2]
  /\ ((\E x \in Parts(m) : P(m, x).unc # <<>>) => Rec.did)
  /\ (Parts(m) = {} => ~Rec.did)
  /\ IF IndicesFine(m) THEN Rec.converted = <<IF m.gbx THEN ToModel(m) ELSE ToGBX(m)>> /\ Rec.rest[3] ELSE Rec.converted = <<>>
  /\ Rec.flip = <<FlipCut(m.cut), m.cut>>
Groups == \A i \in Ids(Rec.pairs) : LET x == Rec.pairs[i] IN (x[3] = 1) = Convertible(x[1], x[2])
Others == Rec.kept = Kept(Rec.from, Rec.to) /\ Rec.was = Rec.now /\ Rec.rest
Accepted == ~Has(Rec, "crash") /\ CASE Rec.op = "model" -> Models [] Rec.op = "groups" -> Groups [] OTHER -> Others
===============================================================================
