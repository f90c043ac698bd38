-------------------------------- MODULE Glob --------------------------------
(* Wildcard patterns over sequences of code points.                           *)
EXTENDS Integers, Sequences, FiniteSets
Star == 42
Quest == 63
(* Declarative meaning: pattern p from position i covers s from position j.   *)
RECURSIVE Covers(_, _, _, _)
Covers(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF p[i] = Star THEN Covers(p, i + 1, s, j) \/ (j <= Len(s) /\ Covers(p, i, s, j + 1))
  ELSE j <= Len(s) /\ (p[i] = Quest \/ p[i] = s[j]) /\ Covers(p, i + 1, s, j + 1)
Match(p, s) == Covers(p, 1, s, 1)

(* The same language as an automaton over sets of pattern positions, which is *)
(* linear in the text; GlobMC shows the two agree.                            *)
RECURSIVE CloseFrom(_, _)
CloseFrom(p, i) == IF i <= Len(p) /\ p[i] = Star THEN {i} \cup CloseFrom(p, i + 1) ELSE {i}
Close(p, S) == UNION {CloseFrom(p, i) : i \in S}
Start(p) == Close(p, {1})
Step(p, S, c) ==
  Close(p, {i \in S : i <= Len(p) /\ p[i] = Star}
           \cup {i + 1 : i \in {k \in S : k <= Len(p) /\ p[k] # Star /\ (p[k] = Quest \/ p[k] = c)}})
Final(p, S) == (Len(p) + 1) \in S
RECURSIVE RunFrom(_, _, _, _)
RunFrom(p, S, s, j) == IF j > Len(s) THEN S ELSE RunFrom(p, Step(p, S, s[j]), s, j + 1)
Accepts(p, s) == Final(p, RunFrom(p, Start(p), s, 1))
=============================================================================
