---------------------------- MODULE GroupRefactor ----------------------------
(* C07.  Changing the group of references.  A field that may hold references  *)
(* to a group may hold ones to every group below it; `present' is the set of  *)
(* tags in the tree as <<group, path>>.                                       *)
EXTENDS TagCodec
Up(g) == IF g \in DOMAIN Groups THEN Groups[g].up ELSE ""
RECURSIVE Line(_)
Line(g) == IF g = "" THEN {} ELSE {g} \cup Line(Up(g))
Lines == [g \in DOMAIN Groups |-> Line(g)]
Allows(f, g) == g \in DOMAIN Groups /\ (f.g[1] = "*" \/ \E i \in 1..Len(f.g) : f.g[i] \in Lines[g])
(* what a reference becomes *)
Moved(f, v, from, to, present) ==
  IF v.g = FourCC[from] /\ Allows(f, to) /\ (v.p = <<>> \/ <<to, v.p>> \in present) THEN [g |-> FourCC[to], p |-> v.p] ELSE v
RECURSIVE Refactor(_, _, _, _, _, _)
RefOne(f, v, from, to, present, ro) ==
  CASE f.k = "ref" -> Moved(f, v, from, to, present)
    [] f.k = "struct" -> Refactor(f.s, v, from, to, present, ro)
    [] f.k = "refl" -> [i \in 1..Len(v) |-> Refactor(f.s, v[i], from, to, present, ro)]
    [] OTHER -> v
Refactor(s, v, from, to, present, ro) ==
  LET fs == Structs[s].fields IN
  [i \in 1..Len(v) |->
     IF fs[i].k \notin {"ref", "struct", "refl"} \/ ~Stored(fs[i]) \/ (fs[i].ro /\ ~ro) THEN v[i]
     ELSE IF fs[i].form = "one" THEN RefOne(fs[i], v[i], from, to, present, ro)
     ELSE [j \in 1..Len(v[i]) |-> RefOne(fs[i], v[i][j], from, to, present, ro)]]
=============================================================================
