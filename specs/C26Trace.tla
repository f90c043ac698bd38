------------------------------- MODULE C26Trace -------------------------------
EXTENDS Repair, TraceBase
Plain(g) == Own[g] = {}
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ LET g == Rec.group IN
     /\ IsRepaired(g, Rec.a, Rec.b)
     /\ (Plain(g) \/ g = "unicode_string_list" => Rec.done)
     /\ (g = "scenario" /\ ~Rec.done => Rec.lacks)     \* only scripts without a source can be beyond repair
     /\ (g = "unicode_string_list" => StringsRepaired(Rec.a, Rec.b))
     /\ Rec.again                                        \* nothing is left to repair
     \* verification
     /\ Rec.nan = NotANumber(g, Rec.a)
     /\ Rec.colour = BadColour(g, Rec.a)
     /\ (g = "unicode_string_list" => Rec.strings = BadString(Rec.a))
     /\ Rec.after = <<FALSE, FALSE, FALSE>>
===============================================================================
