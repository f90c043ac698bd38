------------------------------- MODULE C03Gen -------------------------------
(* Every pattern and text within the bounds, with the prescribed verdict.     *)
EXTENDS TagFilter, TLC, Json, IOUtils, SequencesExt
CONSTANTS LettersP, LettersS, MaxP, MaxS
Seqs(A, m) == UNION {[1..n -> A] : n \in 0..m}
Cases == {[f |-> f, s |-> s, want |-> Accepts(f, s)] : f \in Seqs(LettersP \cup {Star, Quest}, MaxP), s \in Seqs(LettersS, MaxS)}
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = ndJsonSerialize(IOEnv.CASES, SetToSeq(Cases))
Spec == Init /\ [][Next]_done
=============================================================================
