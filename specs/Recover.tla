------------------------------- MODULE Recover -------------------------------
(* What a tag keeps of the files it was made from, and how it is taken out:    *)
(* a bitmap keeps its colour plate (compressed, blue-green-red-opacity), a     *)
(* scenario the sources of its scripts (each perhaps ended by a zero byte).    *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE IndexOfLast(_, _, _)
IndexOfLast(s, c, i) == IF i = 0 \/ s[i] = c THEN i ELSE IndexOfLast(s, c, i - 1)
(* paths as bytes; the folder keeps its slash *)
Folder(p) == SubSeq(p, 1, IndexOfLast(p, 47, Len(p)))
Base(p) == SubSeq(p, 1, IndexOfLast(p, 46, Len(p)) - 1)
Tif == <<46, 116, 105, 102>>
Hsc == <<46, 104, 115, 99>>
ScriptsDir == <<115, 99, 114, 105, 112, 116, 115, 47>>
GlobalScripts == <<103, 108, 111, 98, 97, 108, 95, 115, 99, 114, 105, 112, 116, 115>>

(* ---- scripts ---- *)
RECURSIVE UpToZero(_, _)
UpToZero(s, i) == IF i > Len(s) \/ s[i] = 0 THEN SubSeq(s, 1, i - 1) ELSE UpToZero(s, i + 1)
Source(path, f) ==
  [name |-> IF f.name = GlobalScripts THEN GlobalScripts \o Hsc ELSE Folder(path) \o ScriptsDir \o f.name \o Hsc,
   data |-> UpToZero(f.src, 1)]
(* each has a file of its own, inside that folder *)
Nameable(files) ==
  /\ \A i \in 1..Len(files) : \A k \in 1..Len(files[i].name) : files[i].name[k] # 47
  /\ \A i, j \in 1..Len(files) : i # j => files[i].name # files[j].name
Sources(path, files) == {Source(path, files[i]) : i \in 1..Len(files)}

(* ---- colour plates ---- *)
Stored(b) == b.len >= 4 /\ b.w > 0 /\ b.h > 0
Honest(b) == b.head >= 0 /\ b.w <= 536870911 \div b.h /\ b.head = 4 * b.w * b.h
Whole(b) == Len(b.raw) = 4 * b.w * b.h
Colour(b, i) == LET k == 4 * (i - 1) IN (b.raw[k + 3] * 65536) + (b.raw[k + 2] * 256) + b.raw[k + 1]
Picture(b) == LET n == b.w * b.h IN
  [w |-> b.w, h |-> b.h, rgb |-> [i \in 1..n |-> Colour(b, i)], al |-> [i \in 1..n |-> b.raw[4 * i]]]
==============================================================================
