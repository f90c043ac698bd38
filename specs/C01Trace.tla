------------------------------- MODULE C01Trace -------------------------------
EXTENDS TagTree, TagFilter, HistBase
(* r.names: path and group of each tag; names beyond those are files that are no tags *)
AsSet(q) == {q[i] : i \in 1..Len(q)}
SStart(r) == [dirs |-> r.dirs, cow |-> r.cow, fs |-> AsSet(r.fs), strict |-> TRUE, names |-> r.names]
Tags(s) == 1..Len(s.names)
Value(x) == x
SAfter(s, r) ==
  CASE r.op = "save" -> [s EXCEPT !.fs = Save(s, r.t, r.v, IF Visible(s, r.t) = 0 THEN 1 ELSE Visible(s, r.t)).fs]
    [] r.op = "save_to" -> [s EXCEPT !.fs = Save(s, r.t, r.v, r.d).fs]
    [] r.op = "put" -> [s EXCEPT !.fs = Put(s.fs, r.loc, r.t, r.c)]
    [] r.op = "remove" -> [s EXCEPT !.fs = Remove(s.fs, r.loc, r.t)]
    [] r.op = "strict" -> [s EXCEPT !.strict = r.v]
    [] OTHER -> s
Selected(s, r) == {t \in All(s, Tags(s)) : IF r.all THEN TRUE ELSE Passes(r.f, r.g, s.names[t].p, s.names[t].g)}
NoRepeat(q) == Len(q) = Cardinality(AsSet(q))
Result(s, r) ==
  CASE r.op = "save" -> r.ret = Save(s, r.t, r.v, 1).ret
    [] r.op = "save_to" -> r.ret = Save(s, r.t, r.v, r.d).ret
    [] r.op = "open" -> r.ret = Read(s, r.t)
    [] r.op = "contains" -> r.ret = (Visible(s, r.t) # 0)
    [] r.op = "where" -> r.ret = Visible(s, r.t) /\ (r.ret # 0 => r.loc = s.dirs[r.ret])
    [] r.op \in {"list", "walk"} -> NoRepeat(r.ret) /\ AsSet(r.ret) = Selected(s, r)
    [] r.op = "new" -> r.ret = (\A i \in 1..Len(r.exist) : r.exist[i])
    [] OTHER -> TRUE
(* nothing but what the operation may change has changed on disk *)
SOk(s, r) == Result(s, r) /\ AsSet(r.disk) = SAfter(s, r).fs
=============================================================================
