------------------------------ MODULE C10Trace ------------------------------
EXTENDS CommandLine, TraceBase
AsSet(q) == {q[i] : i \in 1..Len(q)}
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ LET v == VerbOf(Rec.verb) IN
     CASE v = "?" -> Rec.code = 1 /\ Rec.changed = <<>>
       [] v \in {"version", "v"} -> Rec.code = 0 /\ Rec.changed = <<>>
       [] v = "list-engines" -> /\ Rec.changed = <<>>
                                /\ Rec.code = IF Rec.argv = <<>> \/ Rec.argv[1] \in Builds \cup ReadOnly THEN 0 ELSE 1
       [] OTHER ->
         \E verb \in {Table[v]} : \E s \in {Parse(verb, Rec.argv)} :
           LET end == IF s.end # "run" THEN s.end ELSE IF Folders(verb, s) \subseteq AsSet(Rec.dirs) THEN "run" ELSE "refuse" IN
           CASE end = "help" -> /\ Rec.code = 0
                                /\ Rec.changed = <<>>
                                /\ AsSet(Rec.help) = NamesOf(verb) \cup {"help"}
             [] end = "refuse" -> /\ Rec.code = 1
                                  /\ Rec.changed = <<>>
                                  /\ Rec.help = <<>>
             [] OTHER -> /\ ~Rec.argerr
                         /\ Rec.help = <<>>
                         /\ Rec.code \in {0, 1}
                         /\ {Rec.changed[i].dir : i \in 1..Len(Rec.changed)} \subseteq Target(v, verb, s)
                         /\ Has(Rec, "canon") => /\ Rec.canon.argv = Spell(verb, s)
                                                 /\ Rec.canon.out = Rec.out
                                                 /\ Rec.canon.code = Rec.code
                                                 /\ Rec.canon.changed = Rec.changed
                         /\ Sure(v, verb, s) => /\ Rec.code = 0
                                                /\ {[dir |-> c.dir, file |-> c.file, from |-> c.from] : c \in AsSet(Rec.changed)} = Effect(v, verb, s)
                                                /\ AsSet(Rec.says) = Says(v, verb, s)
=============================================================================
