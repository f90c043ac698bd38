----------------------------- MODULE PathRefactor -----------------------------
(* C06.  Renaming tags by find and replace.  Texts are sequences of code      *)
(* points.  A world has tags [p, g, loc, st, body, refs]: path, group, tags   *)
(* directory, "ok" or "unreadable", all contents but the references, and the  *)
(* set references in field order, each [p, g].  A request o has from, to,     *)
(* all (everywhere or only at the start), nomove, filter, fgroup; obstacles   *)
(* of the file system are o.blocked, a set of <<directory, path, group>> no   *)
(* file can be moved to, and o.files, a set of <<directory, path>> where a    *)
(* plain file is in the way of a folder.                                      *)
EXTENDS TagFilter, TagPath
StartsWith(t, f) == Len(t) >= Len(f) /\ SubSeq(t, 1, Len(f)) = f
Contains(t, f) == \E k \in 0..(Len(t) - Len(f)) : SubSeq(t, k + 1, k + Len(f)) = f
RECURSIVE ReplaceAll(_, _, _)
ReplaceAll(t, f, x) ==
  IF f = <<>> THEN (IF t = <<>> THEN x ELSE x \o <<Head(t)>> \o ReplaceAll(Tail(t), f, x))
  ELSE IF Len(t) < Len(f) THEN t
  ELSE IF StartsWith(t, f) THEN x \o ReplaceAll(SubSeq(t, Len(f) + 1, Len(t)), f, x)
  ELSE <<Head(t)>> \o ReplaceAll(Tail(t), f, x)
ReplaceStart(t, f, x) == x \o SubSeq(t, Len(f) + 1, Len(t))
From(o) == Native(o.from)
To(o) == Native(o.to)
Tags(w) == 1..Len(w)
Matches(o, t) == /\ Passes(o.filter, o.fgroup, t.p, t.g)
                 /\ IF o.all THEN Contains(t.p, From(o)) ELSE StartsWith(t.p, From(o))
Selected(w, o) == {i \in Tags(w) : Matches(o, w[i])}
Renamed(o, p) == Parse(IF o.all THEN ReplaceAll(p, From(o), To(o)) ELSE ReplaceStart(p, From(o), To(o)))
Key(t) == [p |-> t.p, g |-> t.g]
Dest(w, o, i) == [p |-> Renamed(o, w[i].p).p, g |-> w[i].g]
Present(w) == {Key(w[i]) : i \in Tags(w)}
(* the folders a path lies in *)
Folders(p) == {SubSeq(p, 1, k - 1) : k \in {j \in 1..Len(p) : p[j] = PBack}}
Obstructed(w, o, i) == \/ <<w[i].loc, Dest(w, o, i)>> \in o.blocked
                       \/ \E f \in Folders(Dest(w, o, i).p) : <<w[i].loc, f>> \in o.files
Impossible(w, o) ==
  LET S == Selected(w, o) IN
  \/ S = {}
  \/ \E i \in S : ~Renamed(o, w[i].p).ok \/ Renamed(o, w[i].p).p = <<>>      \* no reference can name the empty path
  \/ o.nomove /\ \E i \in S : Dest(w, o, i) \notin Present(w)
  \/ ~o.nomove /\ \E i \in S : Dest(w, o, i) \in Present(w) \/ Obstructed(w, o, i)
  \/ ~o.nomove /\ \E i, j \in S : i # j /\ Dest(w, o, i) = Dest(w, o, j)
Nothing(o) == From(o) = To(o)
Fails(w, o) == ~Nothing(o) /\ Impossible(w, o)
(* where everything is afterwards *)
Target(w, o, k) == IF \E i \in Selected(w, o) : Key(w[i]) = k
                   THEN Dest(w, o, CHOOSE i \in Selected(w, o) : Key(w[i]) = k) ELSE k
Moved(w, o) ==
  IF Nothing(o) \/ Fails(w, o) THEN w
  ELSE LET S == Selected(w, o)
           T == [i \in S |-> Dest(w, o, i)]
           Old == {Key(w[i]) : i \in S}
           New(k) == IF k \in Old THEN T[CHOOSE i \in S : Key(w[i]) = k] ELSE k
       IN [i \in Tags(w) |-> [w[i] EXCEPT !.p = IF i \in S /\ ~o.nomove THEN T[i].p ELSE @,
                                          !.refs = IF w[i].st = "ok" THEN [j \in 1..Len(@) |-> New(@[j])] ELSE @]]
Renames(w, o) == IF Nothing(o) THEN {} ELSE {<<Key(w[i]), Dest(w, o, i)>> : i \in Selected(w, o)}
===============================================================================
