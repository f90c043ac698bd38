------------------------------- MODULE C06Trace -------------------------------
EXTENDS PathRefactor, TraceBase
AsSet(q) == {q[i] : i \in 1..Len(q)}
P(n) == Rec.paths[n]
World(w) == [i \in 1..Len(w) |-> [p |-> P(w[i].path).p, g |-> P(w[i].path).g, loc |-> w[i].loc, st |-> w[i].st, body |-> w[i].body,
                                  refs |-> [j \in 1..Len(w[i].refs) |-> P(w[i].refs[j])]]]
Req == [from |-> Rec.from, to |-> Rec.to, all |-> Rec.all, nomove |-> Rec.nomove, filter |-> Rec.filter, fgroup |-> Rec.fgroup,
        blocked |-> {<<b[1], P(b[2])>> : b \in AsSet(Rec.blocked)}, files |-> {<<b[1], b[2]>> : b \in AsSet(Rec.files)}]
Bag(w) == AsSet(w)
Pairs == {<<P(a[1]), P(a[2])>> : a \in AsSet(Rec.out.renames)}
Explains ==
  LET w == World(Rec.before) o == Req after == World(Rec.after) IN
  /\ Len(after) = Len(w) /\ Bag(after) = Bag(Moved(w, o))
  /\ Rec.noise
  /\ IF Fails(w, o) THEN Rec.out.kind = "err"
     ELSE /\ Rec.out.kind = "ok" /\ Pairs = Renames(w, o) /\ Len(Rec.out.renames) = Cardinality(Pairs)
          (* only tags that cannot be read are complained about *)
          /\ \A e \in AsSet(Rec.out.errors) : \E i \in Tags(after) : Key(after[i]) = P(e) /\ after[i].st = "unreadable"
Accepted == ~Has(Rec, "crash") /\ Explains
===============================================================================
