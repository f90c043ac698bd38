-------------------------------- MODULE C06Gen --------------------------------
(* Small worlds and requests for replay on real directories: the harness      *)
(* gives every tag references to all names, and C06Trace judges the outcome.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
CONSTANTS NNames, NFrom, NTo
VARIABLE x
Cases == {[present |-> s, from |-> f, to |-> t, all |-> a, nomove |-> n, filter |-> fl] :
            s \in (SUBSET (1..NNames)) \ {{}}, f \in 1..NFrom, t \in 1..NTo, a \in BOOLEAN, n \in BOOLEAN, fl \in BOOLEAN}
Init == x = ndJsonSerialize(IOEnv.CASES, SetToSeq({[c EXCEPT !.present = SetToSeq(c.present)] : c \in Cases}))
Spec == Init /\ [][FALSE]_x
===============================================================================
