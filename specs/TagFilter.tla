------------------------------ MODULE TagFilter ------------------------------
(* C03.  A filter is a pattern text and possibly a group.                     *)
EXTENDS Glob
Slash == 47
Backslash == 92
Dot == 46
Native(t) == [i \in 1..Len(t) |-> IF t[i] = Slash THEN Backslash ELSE t[i]]
EndsWith(t, e) == Len(t) >= Len(e) /\ SubSeq(t, Len(t) - Len(e) + 1, Len(t)) = e
(* one trailing ".group" of the filter's own group is not part of the pattern *)
Cleanup(t, ext) == IF EndsWith(t, <<Dot>> \o ext) THEN SubSeq(t, 1, Len(t) - Len(ext) - 1) ELSE t
(* g, pg: names of groups as code points; g = <<>> means the filter has no group *)
Passes(f, g, path, pg) ==
  IF g = <<>> THEN Accepts(Native(f), path \o <<Dot>> \o pg)
  ELSE pg = g /\ Accepts(Native(Cleanup(f, g)), path)
NullPasses(f, g, pg) ==
  /\ g = <<>> \/ pg = g
  /\ Accepts(IF g = <<>> THEN Native(f) ELSE Native(Cleanup(f, g)), <<>>)
=============================================================================
