------------------------------- MODULE C13Trace -------------------------------
EXTENDS Matcher, TraceBase
Events == Walk(Root(Rec.struct, Rec.v), <<>>, Rec.m)
(* insertion into a block *)
Inserted(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ CASE Rec.op = "walk" ->
            LET es == Events  seen == Until(es, Rec.stop) IN
            /\ Rec.read = seen \/ (Odd(Rec.m) /\ ~AllOk(Rec.read))
            /\ Rec.write = Rec.read
            /\ IF Rec.stop = 0 THEN Rec.valid <=> AllOk(Rec.read) ELSE Rec.valid \/ Odd(Rec.m) \/ ~AllOk(es)
       [] Rec.op = "insert" ->
            /\ Rec.after = Inserted(Rec.before, Rec.at, IF Rec.how = "default" THEN Rec.blank ELSE Rec.item)
            /\ Rec.left = IF Rec.how = "moved" THEN Rec.blank ELSE Rec.item
===============================================================================
