------------------------------- MODULE Closure -------------------------------
(* C05.  A world of tags numbered 1..n: w.st[i] is "ok", "missing" or         *)
(* "unreadable"; w.leaf[i]: its group cannot refer to anything, so it is      *)
(* never opened; w.refs[i]: the tags its references name.                     *)
EXTENDS Integers, Sequences, FiniteSets
Nodes(w) == 1..Len(w.st)
Opens(w, i) == w.st[i] = "ok" \/ (w.leaf[i] /\ w.st[i] # "missing")
Refs(w, i) == IF w.leaf[i] \/ w.st[i] # "ok" THEN {} ELSE w.refs[i]
RECURSIVE Grow(_, _)
Grow(w, S) == LET T == S \cup UNION {Refs(w, i) : i \in S} IN IF T = S THEN S ELSE Grow(w, T)
Reach(w, roots) == Grow(w, roots)
Found(w, roots) == {i \in Reach(w, roots) : Opens(w, i)}
Broken(w, roots) == Reach(w, roots) \ Found(w, roots)
(* is this error one that may be reported? *)
ErrorOk(w, root, e) ==
  \/ e.kind = "not_found" /\ e.t = root /\ w.st[root] = "missing"
  \/ e.kind = "broken" /\ e.t \in Broken(w, {root}) /\ w.st[e.t] = "missing" /\ e.d \in Found(w, {root}) /\ e.t \in Refs(w, e.d)
  \/ e.kind = "unreadable" /\ e.t \in Broken(w, {root}) /\ w.st[e.t] = "unreadable"
(* dependencies of a tag: a result or an error *)
DepsOk(w, root, allow, r) ==
  IF allow \/ Broken(w, {root}) = {}
  THEN r.kind = "ok" /\ r.found = Found(w, {root}) /\ \A i \in r.found : r.refs[i] = Refs(w, i)
  ELSE r.kind # "ok" /\ ErrorOk(w, root, r)
(* tags that directly refer to t; tags nobody can read make it fail *)
Reverse(w, t) == {i \in Nodes(w) : w.st[i] = "ok" /\ t \in Refs(w, i)}
(* a map: the scenario and the engine's required tags with all they need *)
MapOk(w, scenario, required, r) ==
  LET roots == {scenario} \cup required IN
  IF Broken(w, roots) = {} THEN r.kind = "ok" /\ r.found = Reach(w, roots)
  ELSE r.kind # "ok" /\ \E root \in roots : ErrorOk(w, root, r)
=============================================================================
