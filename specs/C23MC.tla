------------------------------- MODULE C23MC -------------------------------
(* Every small sound: links of all kinds, right and wrong counts, flags,      *)
(* formats and metadata.                                                      *)
EXTENDS Sound, TLC
CONSTANTS Parts, Data
Oggs == {<<1, 22050, 5>>, <<2, 22050, 5>>, <<3, 44100, 5>>, <<>>}
Datas == IF Data THEN {[fmt |-> "pcm", len |-> n, ogg |-> <<>>, buf |-> b] : n \in {2, 4}, b \in {2, 4}}
              \cup {[fmt |-> "ogg", len |-> 9, ogg |-> o, buf |-> b] : o \in Oggs, b \in {10, 20}}
              \cup {[fmt |-> "xbox_adpcm", len |-> n, ogg |-> <<>>, buf |-> 0] : n \in {36, 37}}
         ELSE {[fmt |-> "ima_adpcm", len |-> 9, ogg |-> <<>>, buf |-> 0]}
Perm(d, n) == [next |-> n, fmt |-> d.fmt, buf |-> d.buf, len |-> d.len, ogg |-> d.ogg]
VARIABLE s
Init == /\ \E sp \in BOOLEAN, f \in {d.fmt : d \in Datas}, c \in IF Data THEN {1, 2} ELSE {1} :
             s = [split |-> sp, fmt |-> f, ch |-> c, rate |-> 22050, prs |-> <<[count |-> 1, nat |-> 4, lo |-> 0, hi |-> 0, perms |-> <<>>]>>]
AddPart == /\ Len(s.prs[1].perms) < Parts
           /\ \E d \in Datas, n \in {-1} \cup 0..(Parts + 1) : s' = [s EXCEPT !.prs[1].perms = Append(@, Perm(d, n))]
Recount == \E c \in 1..Parts : s.prs[1].count = 1 /\ c # 1 /\ s' = [s EXCEPT !.prs[1].count = c]
Next == AddPart \/ Recount
Spec == Init /\ [][Next]_s
-----------------------------------------------------------------------------
r == Repair(s)
RepairSettles == LET x == Repair(s) IN Repair(x) = x
(* repaired sounds have nothing wrong with them but chains that cannot be followed; correct ones are left alone *)
RepairWorks == /\ (~Hopeless(s) => LET x == Repair(s) IN ~BadFlag(x) /\ ~NextZero(x) /\ ~BadCount(x, 1) /\ ~(\E y \in Pairs(x) : BadPart(x, y)))
               /\ (~Flawed(s) => Repair(s) = s)
               /\ (Hopeless(s) => Flawed(s))
(* repairing never changes which chains there are *)
RepairKeepsChains == LET x == Repair(s) IN \A y \in Pairs(s) : NextOf(P(x, y)) = NextOf(P(s, y)) /\ (~Hopeless(s) => (BadChain(x, y) <=> BadChain(s, y)))
(* a sound whose chains are followed completely has each part in a chain; no part but a first one starts a chain *)
Chains == (~ChainFlaw(s) /\ ~Unused(s, 1) /\ IsSplit(s)) =>
             /\ Reached(s, 1) = 0..(Len(s.prs[1].perms) - 1)
             /\ \A j \in Heads(s, 1) : \A k \in Ids(s.prs[1].perms) : NextOf(s.prs[1].perms[k]) # j
=============================================================================
