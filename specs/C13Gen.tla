-------------------------------- MODULE C13Gen --------------------------------
(* every subscript within the bounds and what it selects *)
EXTENDS Matcher, SequencesExt, IOUtils
CONSTANTS Letters, MaxLen, Lens
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {""} ELSE LET s == Strings(n - 1) IN s \cup {a \o b : a \in s, b \in Letters}
Cases == {[r |-> r, len |-> n, want |-> LET s == Selected(r, n) IN IF s = Invalid THEN <<-1>> ELSE SetToSortSeq(s, LAMBDA a, b : a < b)] : r \in Strings(MaxLen), n \in Lens}
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = ndJsonSerialize(IOEnv.CASES, SetToSeq(Cases))
Spec == Init /\ [][Next]_done
===============================================================================
