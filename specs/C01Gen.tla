-------------------------------- MODULE C01Gen --------------------------------
(* All stacks, outputs, disk contents and saves within the bounds, one save    *)
(* each and then a second one; with the prescribed results and disk contents.  *)
EXTENDS TagTree, TLC, Json, IOUtils, SequencesExt
CONSTANTS Locs, Values, MaxDirs, TagsToSave
Stacks == {d \in UNION {[1..n -> Locs] : n \in 1..MaxDirs} : \A i, j \in 1..Len(d) : i # j => d[i] # d[j]}
(* tag 1 anywhere, tag 2 only in location 2, with any content *)
Disks == {UNION {IF m[loc] = 0 THEN {} ELSE {<<loc, 1, m[loc]>>} : loc \in Locs} \cup (IF o = 0 THEN {} ELSE {<<2, 2, o>>}) :
            m \in [Locs -> Values \cup {0}], o \in {0, 1}}
Matrix(fs) == [loc \in 1..Cardinality(Locs) |-> [t \in 1..2 |-> Content([fs |-> fs], loc, t)]]
Case(d, c, fs, t, v, k) ==
  LET s0 == [dirs |-> d, cow |-> c, fs |-> fs, strict |-> TRUE]
      r1 == Save(s0, t, v, k)
      s1 == [s0 EXCEPT !.fs = r1.fs]
  IN [dirs |-> d, cow |-> c, fs |-> Matrix(fs), t |-> t, v |-> v, d |-> k,
      want |-> [before |-> <<Read(s0, 1), Read(s0, 2)>>, index |-> Visible(s0, t), ret |-> r1.ret, fs |-> Matrix(r1.fs), after |-> <<Read(s1, 1), Read(s1, 2)>>]]
VARIABLE i
Init == i \in [d : Stacks, c : Locs \cup {0}, fs : Disks, t : TagsToSave, v : {1, 2}, k : 1..(MaxDirs + 1)]
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
Emit == PrintT("CASE " \o ToJson(Case(i.d, i.c, i.fs, i.t, i.v, i.k)))
=============================================================================
