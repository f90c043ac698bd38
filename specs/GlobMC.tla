------------------------------- MODULE GlobMC -------------------------------
(* The automaton of Glob, one character per transition, over every pattern    *)
(* and every text up to the bounds.                                           *)
EXTENDS Glob, TLC
CONSTANTS Letters, MaxP, MaxS
VARIABLES p, s, S
vars == <<p, s, S>>
Pats == UNION {[1..n -> Letters \cup {Star, Quest}] : n \in 0..MaxP}
Init == p \in Pats /\ s = <<>> /\ S = Start(p)
Next == /\ Len(s) < MaxS
        /\ \E c \in Letters : s' = Append(s, c) /\ S' = Step(p, S, c)
        /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
Agree == Final(p, S) = Match(p, s)
(* laws every wildcard matcher obeys *)
Laws == /\ (\A i \in 1..Len(p) : p[i] \notin {Star, Quest}) => (Match(p, s) = (p = s))
        /\ (\A i \in 1..Len(p) : p[i] = Quest) => (Match(p, s) = (Len(p) = Len(s)))
        /\ (Len(p) > 0 /\ \A i \in 1..Len(p) : p[i] = Star) => Match(p, s)
        /\ Match(p, s) => Match(<<Star>> \o p, s) /\ Match(p \o <<Star>>, s)
=============================================================================
