-------------------------------- MODULE C06MC --------------------------------
(* The renaming step by step: files are moved one after the other into        *)
(* folders that are created as needed, folders left empty are removed; at any *)
(* move the file system may refuse, then everything is moved back; then       *)
(* threads take tags and retarget their references, and the changed ones are  *)
(* saved.  Whatever fails and whichever order things happen in, the end is    *)
(* all or nothing and every reference follows the renaming exactly once.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names, Threads
(* names are numbers; the folder of name n is n \div 10 *)
Dir(n) == n \div 10
VARIABLES plan, nomove, refs0, files, dirs, refs, pc, k, undo, todo, busy, opened, changed, failed
vars == <<plan, nomove, refs0, files, dirs, refs, pc, k, undo, todo, busy, opened, changed, failed>>
Old == {p[1] : p \in {plan[i] : i \in 1..Len(plan)}}
NewOf(n) == plan[CHOOSE i \in 1..Len(plan) : plan[i][1] = n][2]
Ren(n) == IF n \in Old THEN NewOf(n) ELSE n
Dup(q) == \E i, j \in 1..Len(q) : i # j /\ (q[i][1] = q[j][1])
(* files: name -> identity of the tag stored there *)
Init ==
  /\ \E present \in {S \in SUBSET Names : Cardinality(S) \in 2..3} :
       /\ files = [n \in present |-> n]
       /\ dirs = {Dir(n) : n \in present}
       /\ refs0 \in [present -> Names]
       /\ nomove \in BOOLEAN
       /\ \E q \in {<<a>> : a \in present \X Names} \cup {<<a, b>> : a, b \in present \X Names} :
            /\ ~Dup(q) /\ \A i \in 1..Len(q) : q[i][1] # q[i][2]
            /\ nomove => \A i \in 1..Len(q) : q[i][2] \in present
            /\ ~nomove => \A i, j \in 1..Len(q) : q[i][2] \notin present /\ (i # j => q[i][2] # q[j][2])
            /\ plan = q
  /\ refs = refs0 /\ pc = (IF nomove THEN "rewrite" ELSE "move") /\ k = 1 /\ undo = <<>>
  /\ todo = DOMAIN refs0 /\ busy = [t \in Threads |-> 0] /\ opened = {} /\ changed = {} /\ failed = FALSE
Sweep(f, d, x) == IF \E n \in DOMAIN f : Dir(n) = x THEN d ELSE d \ {x}
Put(f, a, b) == [n \in (DOMAIN f \ {a}) \cup {b} |-> IF n = b THEN f[a] ELSE f[n]]
Move == /\ pc = "move" /\ k <= Len(plan)
        /\ LET a == plan[k][1] b == plan[k][2] IN
           \/ /\ files' = Put(files, a, b) /\ dirs' = Sweep(Put(files, a, b), dirs \cup {Dir(b)}, Dir(a))
              /\ undo' = Append(undo, plan[k]) /\ k' = k + 1 /\ UNCHANGED <<pc, failed>>
           \/ pc' = "undo" /\ failed' = TRUE /\ UNCHANGED <<files, dirs, undo, k>>
        /\ UNCHANGED <<plan, nomove, refs0, refs, todo, busy, opened, changed>>
MoveBack == /\ pc = "undo" /\ undo # <<>>
            /\ LET a == undo[Len(undo)][1] b == undo[Len(undo)][2] IN
               files' = Put(files, b, a) /\ dirs' = dirs \cup {Dir(a)}
            /\ undo' = SubSeq(undo, 1, Len(undo) - 1)
            /\ UNCHANGED <<plan, nomove, refs0, refs, pc, k, todo, busy, opened, changed, failed>>
Moved == /\ pc = "move" /\ k > Len(plan) /\ pc' = "rewrite"
         /\ UNCHANGED <<plan, nomove, refs0, files, dirs, refs, k, undo, todo, busy, opened, changed, failed>>
Undone == /\ pc = "undo" /\ undo = <<>> /\ pc' = "done"
          /\ UNCHANGED <<plan, nomove, refs0, files, dirs, refs, k, undo, todo, busy, opened, changed, failed>>
Take(t) == /\ pc = "rewrite" /\ busy[t] = 0
           /\ \E x \in todo : todo' = todo \ {x} /\ busy' = [busy EXCEPT ![t] = x]
           /\ UNCHANGED <<plan, nomove, refs0, files, dirs, refs, pc, k, undo, opened, changed, failed>>
Rewrite(t) == /\ pc = "rewrite" /\ busy[t] # 0
              /\ LET x == busy[t] IN
                 /\ opened' = opened \cup {x}
                 /\ changed' = IF Ren(refs0[x]) # refs0[x] THEN changed \cup {x} ELSE changed
              /\ busy' = [busy EXCEPT ![t] = 0]
              /\ UNCHANGED <<plan, nomove, refs0, files, dirs, refs, pc, k, undo, todo, failed>>
Commit == /\ pc = "rewrite" /\ todo = {} /\ \A t \in Threads : busy[t] = 0
          /\ refs' = [x \in DOMAIN refs |-> IF x \in changed THEN Ren(refs[x]) ELSE refs[x]] /\ pc' = "done"
          /\ UNCHANGED <<plan, nomove, refs0, files, dirs, k, undo, todo, busy, opened, changed, failed>>
Next == Move \/ MoveBack \/ Moved \/ Undone \/ Commit \/ \E t \in Threads : Take(t) \/ Rewrite(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* a file always lies in a folder that exists, and none is ever lost *)
Housed == \A n \in DOMAIN files : Dir(n) \in dirs
Kept == {files[n] : n \in DOMAIN files} = DOMAIN refs0 /\ Cardinality(DOMAIN files) = Cardinality(DOMAIN refs0)
AllOrNothing == pc = "done" =>
  IF failed THEN /\ \A n \in DOMAIN files : files[n] = n
                 /\ refs = refs0
  ELSE /\ \A n \in DOMAIN files : n = IF nomove THEN files[n] ELSE Ren(files[n])
       /\ refs = [x \in DOMAIN refs0 |-> Ren(refs0[x])]
EachOnce == pc = "done" /\ ~failed => opened = DOMAIN refs0
Terminates == <>(pc = "done")
===============================================================================
