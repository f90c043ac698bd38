------------------------------- MODULE TagTree -------------------------------
(* C01.  A stack of tags directories as one prioritised store.                *)
(* A state: dirs  sequence of location numbers, highest priority first        *)
(*          cow   location of the copy-on-write output, 0 if there is none    *)
(*                (it may also be one of dirs)                                *)
(*          fs    what the disk holds: a set of <<location, name, content>>   *)
(*          strict  whether files are read strictly                           *)
(* Contents are numbers: 1..999 the file that saving value n produces,        *)
(* n + 1000 another file with the same value, n + 2000 a file of value n with *)
(* a bad checksum, others are not tags.                                       *)
EXTENDS Integers, Sequences, FiniteSets
In(s, loc, t) == {f \in s.fs : f[1] = loc /\ f[2] = t}
Holders(s, t) == {i \in 1..Len(s.dirs) : In(s, s.dirs[i], t) # {}}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Visible(s, t) == IF Holders(s, t) = {} THEN 0 ELSE Min(Holders(s, t))    \* index into dirs
Content(s, loc, t) == IF In(s, loc, t) = {} THEN 0 ELSE (CHOOSE f \in In(s, loc, t) : TRUE)[3]
VisibleContent(s, t) == IF Visible(s, t) = 0 THEN 0 ELSE Content(s, s.dirs[Visible(s, t)], t)
(* the value a reader gets: -1 no such tag, 0 not readable *)
ValueOf(c, strict) == IF c \in 1..999 THEN c
                      ELSE IF c \in 1001..1999 THEN c - 1000
                      ELSE IF c \in 2001..2999 /\ ~strict THEN c - 2000 ELSE 0
Read(s, t) == IF Visible(s, t) = 0 THEN -1 ELSE ValueOf(VisibleContent(s, t), s.strict)
Put(fs, loc, t, c) == {f \in fs : ~(f[1] = loc /\ f[2] = t)} \cup {<<loc, t, c>>}
Remove(fs, loc, t) == {f \in fs : ~(f[1] = loc /\ f[2] = t)}
(* saving value v of tag t, asking for directory d (1-based) if the tag is nowhere yet *)
Save(s, t, v, d) ==
  LET vis == Visible(s, t) IN
  IF vis # 0 /\ VisibleContent(s, t) = v THEN [ret |-> "unchanged", fs |-> s.fs]
  ELSE IF s.cow # 0 THEN
    IF Content(s, s.cow, t) = v THEN [ret |-> "unchanged", fs |-> s.fs]
    ELSE [ret |-> "stored", fs |-> Put(s.fs, s.cow, t, v)]
  ELSE IF vis # 0 THEN [ret |-> "stored", fs |-> Put(s.fs, s.dirs[vis], t, v)]
  ELSE IF d \notin 1..Len(s.dirs) THEN [ret |-> "invalid_directory", fs |-> s.fs]
  ELSE [ret |-> "stored", fs |-> Put(s.fs, s.dirs[d], t, v)]
All(s, tags) == {t \in tags : Visible(s, t) # 0}
=============================================================================
