------------------------------- MODULE Sound -------------------------------
(* Sounds: permutations split into chains of parts, what is wrong with a      *)
(* sound, and what repairing it does.                                         *)
(*   sound       [split, fmt, ch, rate, prs]                                  *)
(*   pitch range [count, nat, lo, hi (times four), perms]                     *)
(*   permutation [next (-1: none), fmt, buf, len, ogg]                        *)
(*   ogg         <<channels, rate, samples>> of the Ogg data, <<>> if bad     *)
EXTENDS Integers, Sequences, FiniteSets
Ids(q) == 1..Len(q)
Pairs(s) == {<<i, j>> \in Ids(s.prs) \X (1..64) : j \in Ids(s.prs[i].perms)}
P(s, x) == s.prs[x[1]].perms[x[2]]
-----------------------------------------------------------------------------
(* chains *)
NextOf(p) == IF p.next = 0 THEN -1 ELSE p.next
IsSplit(s) == s.split \/ \E x \in Pairs(s) : NextOf(P(s, x)) # -1
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
(* the first parts come first; the lowest link leads to the first of the other parts *)
ActualCount(s, i) ==
  LET n == Len(s.prs[i].perms)
  IN IF IsSplit(s) THEN Least({n} \cup {NextOf(s.prs[i].perms[j]) : j \in {j \in Ids(s.prs[i].perms) : NextOf(s.prs[i].perms[j]) # -1}}) ELSE n
RECURSIVE Walk(_, _, _)
(* the parts (from 0) visited from part j on, ending with "out" or "loop" if it does not just end *)
Walk(perms, j, seen) ==
  IF j >= Len(perms) THEN [seen |-> seen, bad |-> TRUE]
  ELSE IF j \in seen THEN [seen |-> seen, bad |-> TRUE]
  ELSE LET n == NextOf(perms[j + 1]) IN IF n = -1 THEN [seen |-> seen \cup {j}, bad |-> FALSE] ELSE Walk(perms, n, seen \cup {j})
Heads(s, i) == 0..(ActualCount(s, i) - 1)
BadChain(s, x) == IsSplit(s) /\ (x[2] - 1) \in Heads(s, x[1]) /\ Walk(s.prs[x[1]].perms, x[2] - 1, {}).bad
Reached(s, i) == UNION {Walk(s.prs[i].perms, j, {}).seen : j \in Heads(s, i)}
Unused(s, i) == IsSplit(s) /\ Reached(s, i) # 0..(Len(s.prs[i].perms) - 1)
-----------------------------------------------------------------------------
(* sample data *)
BadSize(s, p) == LET m == CASE p.fmt = "pcm" -> 2 * s.ch [] p.fmt = "xbox_adpcm" -> 36 * s.ch [] OTHER -> 1 IN p.len % m # 0
(* buffer size, channels and sample rate a permutation should have *)
Meta(s, p) ==
  CASE p.fmt = "ogg" -> IF p.ogg # <<>> /\ p.ogg[1] \in {1, 2} /\ p.ogg[2] \in {22050, 44100}
                        THEN [ok |-> TRUE, buf |-> p.ogg[3] * p.ogg[1] * 2, ch |-> p.ogg[1], rate |-> p.ogg[2]] ELSE [ok |-> FALSE, buf |-> 0, ch |-> 0, rate |-> 0]
    [] p.fmt = "pcm" -> [ok |-> TRUE, buf |-> p.len, ch |-> s.ch, rate |-> s.rate]
    [] OTHER -> [ok |-> TRUE, buf |-> 0, ch |-> s.ch, rate |-> s.rate]
BadMeta(s, p) == LET m == Meta(s, p) IN ~m.ok \/ m.ch # s.ch \/ m.rate # s.rate \/ m.buf # p.buf
BadPart(s, x) == BadSize(s, P(s, x)) \/ BadMeta(s, P(s, x)) \/ P(s, x).fmt # s.fmt
-----------------------------------------------------------------------------
(* flaws *)
BadFlag(s) == IsSplit(s) # s.split
BadCount(s, i) == s.prs[i].count # ActualCount(s, i)
NextZero(s) == \E x \in Pairs(s) : P(s, x).next = 0
ChainFlaw(s) == \E x \in Pairs(s) : BadChain(s, x)
Flawed(s) == BadFlag(s) \/ NextZero(s) \/ ChainFlaw(s) \/ (\E i \in Ids(s.prs) : BadCount(s, i)) \/ (\E x \in Pairs(s) : BadPart(s, x))
(* a pitch range without permutations may be reported *)
Hollow(s) == \E i \in Ids(s.prs) : s.prs[i].perms = <<>>
BadBend(r) == LET nat == IF r.nat <= 0 THEN 4 ELSE r.nat IN (r.lo > nat /\ r.lo # 0) \/ (r.hi < nat /\ r.hi # 0)
-----------------------------------------------------------------------------
(* repair *)
Hopeless(s) ==
  \/ \E x \in Pairs(s) : BadSize(s, P(s, x)) \/ ~Meta(s, P(s, x)).ok
  \/ /\ \E x \in Pairs(s) : BadMeta(s, P(s, x))
     /\ \E x, y \in Pairs(s) : Meta(s, P(s, x)).ch # Meta(s, P(s, y)).ch \/ Meta(s, P(s, x)).rate # Meta(s, P(s, y)).rate
  \/ /\ \E x \in Pairs(s) : P(s, x).fmt # s.fmt
     /\ \E x, y \in Pairs(s) : P(s, x).fmt # P(s, y).fmt
Repair(s) ==
  IF Hopeless(s) THEN s
  ELSE LET any == Pairs(s)
           one == IF any = {} THEN <<>> ELSE P(s, CHOOSE x \in any : TRUE)
           m == Meta(s, one)
       IN [split |-> IsSplit(s),
           fmt |-> IF any = {} THEN s.fmt ELSE one.fmt, ch |-> IF any = {} THEN s.ch ELSE m.ch, rate |-> IF any = {} THEN s.rate ELSE m.rate,
           prs |-> [i \in Ids(s.prs) |-> [s.prs[i] EXCEPT !.count = ActualCount(s, i),
                       !.perms = [j \in Ids(s.prs[i].perms) |-> LET p == s.prs[i].perms[j] IN [p EXCEPT !.buf = Meta(s, p).buf, !.next = NextOf(p)]]]]]
=============================================================================
