-------------------------------- MODULE C29MC --------------------------------
(* Keeping files in a tag and taking them out again: whatever was kept comes   *)
(* back, each into a file of its own inside the folder of the tag.             *)
EXTENDS Recover, TLC
CONSTANTS Letters, MaxName, MaxSource, MaxFiles
VARIABLES path, files, disk, done
vars == <<path, files, disk, done>>
Texts(S, n) == UNION {[1..k -> S] : k \in 0..n}
Names == Texts(Letters \cup {47}, MaxName) \cup {GlobalScripts}
Paths == {<<97, 46, 115>>, <<98, 47, 97, 46, 115>>, <<98, 46, 47, 97, 46, 46, 115>>}
Init == path \in Paths /\ files = <<>> /\ disk = {} /\ done = FALSE
Keep == /\ ~done /\ Len(files) < MaxFiles
        /\ \E n \in Names, s \in Texts({0, 40}, MaxSource) : files' = Append(files, [name |-> n, src |-> s])
        /\ UNCHANGED <<path, disk, done>>
TakeOut == /\ ~done /\ done' = TRUE
           /\ disk' = IF Nameable(files) THEN Sources(path, files) ELSE {}
           /\ UNCHANGED <<path, files>>
Spec == Init /\ [][Keep \/ TakeOut]_vars
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
(* one file each, none outside, nothing after a zero byte, every byte before it *)
Recovered == done /\ Nameable(files) =>
  /\ Cardinality({d.name : d \in disk}) = Len(files) /\ Cardinality(disk) = Len(files)
  /\ \A d \in disk : /\ \A i \in 1..Len(d.data) : d.data[i] # 0
                     /\ d.name = GlobalScripts \o Hsc \/ (/\ Starts(d.name, Folder(path) \o ScriptsDir)
                        /\ \A k \in (Len(Folder(path) \o ScriptsDir) + 1)..Len(d.name) : d.name[k] # 47)
  /\ \A i \in 1..Len(files) : \E d \in disk : Starts(files[i].src, d.data) /\ (d.data = files[i].src \/ files[i].src[Len(d.data) + 1] = 0)
==============================================================================
