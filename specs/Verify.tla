-------------------------------- MODULE Verify --------------------------------
(* C08.  What verification finds.  For every tag t of a world: own[t], there  *)
(* is something wrong with it alone; chains[t], sequences of tags that are    *)
(* verified one after the other until one is bad, which is then held against  *)
(* t; child[t], the child HUD of a weapon HUD interface (0: none), held       *)
(* against t likewise unless following the children leads back to t, which    *)
(* is wrong with t.                                                           *)
EXTENDS Integers, Sequences, FiniteSets
Tags(w) == 1..Len(w.own)
RECURSIVE Walk(_, _, _)
Walk(w, t, seen) == IF t = 0 \/ t \in seen THEN seen ELSE Walk(w, w.child[t], seen \cup {t})
Looping(w, t) == w.child[t] # 0 /\ t \in Walk(w, w.child[t], {})
AllChains(w, t) == w.chains[t] \o (IF w.child[t] # 0 /\ ~Looping(w, t) THEN <<<<w.child[t]>>>> ELSE <<>>)
(* least fixed point; what is verified on behalf of a tag never leads back *)
RECURSIVE Bad(_, _)
FirstBad(w, B, c) == IF \E i \in 1..Len(c) : c[i] \in B THEN {c[CHOOSE i \in 1..Len(c) : c[i] \in B /\ \A j \in 1..(i - 1) : c[j] \notin B]} ELSE {}
Blames(w, B, t) == UNION {FirstBad(w, B, AllChains(w, t)[i]) : i \in 1..Len(AllChains(w, t))}
Bad(w, B) == LET C == B \cup {t \in Tags(w) : w.own[t] \/ Looping(w, t) \/ Blames(w, B, t) # {}} IN IF C = B THEN B ELSE Bad(w, C)
BadTags(w) == Bad(w, {})
Blamed(w, t) == Blames(w, BadTags(w), t)
===============================================================================
