------------------------------- MODULE C19Trace -------------------------------
EXTENDS UnicodeText, TraceBase
(* a text: what it compiles to *)
Text == LET want == Compile(Rec.text) IN
  IF want = Refused THEN ~Has(Rec, "list") ELSE Has(Rec, "list") /\ <<Rec.list>> = want
(* a list: how its strings are read, how it is written, what that compiles to *)
List ==
  /\ \A i \in 1..Len(Rec.list) : LET r == Read(Rec.list[i]) IN Rec.read[i] = [ok |-> r.ok, s |-> r.s]
  /\ Rec.fixed = [i \in 1..Len(Rec.list) |-> LET r == Read(Rec.list[i]) IN IF r.ok THEN Rec.list[i] ELSE Stored(r.s)]
  /\ Has(Rec, "text") = Sound(Rec.list)
  /\ Has(Rec, "text") =>
       /\ Rec.recovered = Rec.text
       /\ Rec.name = "a/b.txt"
       /\ (Survives(Rec.list) => Rec.again = Rec.list /\ Compile(Rec.text) = <<Rec.list>>)
Accepted == ~Has(Rec, "crash") /\ IF Rec.op = "text" THEN Text ELSE List
===============================================================================
