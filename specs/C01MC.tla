-------------------------------- MODULE C01MC --------------------------------
(* Every stack of directories, output and disk content within the bounds, and *)
(* what every save and open promises there.                                   *)
EXTENDS TagTree, TLC
CONSTANTS Locs, Tags, Values, MaxDirs
VARIABLE s
Stacks == {d \in UNION {[1..n -> Locs] : n \in 1..MaxDirs} : \A i, j \in 1..Len(d) : i # j => d[i] # d[j]}
Init == s \in [dirs : Stacks, cow : Locs \cup {0}, fs : {{}}, strict : {TRUE}]
SaveOp(t, v, d) == s' = [s EXCEPT !.fs = Save(s, t, v, d).fs]
External(loc, t, c) == s' = [s EXCEPT !.fs = IF c = 0 THEN Remove(@, loc, t) ELSE Put(@, loc, t, c)]
Next == \/ \E t \in Tags, v \in Values, d \in 1..MaxDirs : SaveOp(t, v, d)
        \/ \E loc \in Locs, t \in Tags, c \in Values \cup {0, 1001} : External(loc, t, c)
Spec == Init /\ [][Next]_s
OneCopy == \A loc \in Locs, t \in Tags : Cardinality(In(s, loc, t)) <= 1
Promise(t, v, d) ==
  LET r == Save(s, t, v, d)
      n == [s EXCEPT !.fs = r.fs]
      diff == (s.fs \ n.fs) \cup (n.fs \ s.fs)
  IN /\ \A u \in Tags \ {t} : Read(n, u) = Read(s, u)
     /\ \A f \in diff : f[2] = t
     /\ \A f, g \in diff : f[1] = g[1]
     /\ (r.ret = "stored") <=> (diff # {})
     /\ r.ret # "invalid_directory" /\ s.cow = 0 => Read(n, t) = v
     /\ s.cow # 0 => \A f \in diff : f[1] = s.cow
     /\ s.cow # 0 /\ s.dirs[1] = s.cow => Read(n, t) = v
     /\ r.ret = "stored" => Content(n, IF s.cow # 0 THEN s.cow ELSE s.dirs[Visible(n, t)], t) = v
     /\ r.ret = "stored" /\ (s.cow = 0 \/ s.cow \in {s.dirs[i] : i \in 1..Len(s.dirs)}) => t \in All(n, Tags)
     (* saving the same value again does nothing *)
     /\ r.ret # "invalid_directory" => Save(n, t, v, d).ret = "unchanged"
     (* a tag that was visible elsewhere stays where it is seen from *)
     /\ Visible(s, t) # 0 => Visible(n, t) # 0 /\ Visible(n, t) <= Visible(s, t)
Promises == \A t \in Tags, v \in Values, d \in 1..(MaxDirs + 1) : Promise(t, v, d)
=============================================================================
