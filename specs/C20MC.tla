-------------------------------- MODULE C20MC --------------------------------
(* The rule with memory, that of pitch ranges and their chained permutations: *)
(* setting and stripping settle at once, and stripping loses nothing unless   *)
(* a part belongs to no permutation.                                          *)
EXTENDS Defaults
CONSTANTS Perms, Gains
VARIABLE r
NumOf == [n \in 0..3 |-> <<F0, F1, F4, F5>>[n + 1]]
MakeRange(split, actual, natural, lower, upper, gains, next) ==
  LET perm(i) == [j \in 1..Len(Structs[P].fields) |->
         CASE Structs[P].fields[j].n = "gain" -> <<NumOf[gains[i]]>>
           [] Structs[P].fields[j].n = "next_permutation_index" -> <<<<next[i] \div 256, next[i] % 256>>>>
           [] OTHER -> <<>>]
      s == "SoundPitchRange"
  IN [split |-> split, v |-> [j \in 1..Len(Structs[s].fields) |->
         LET n == Structs[s].fields[j].n IN
         CASE n = "natural_pitch" -> <<natural>>
           [] n = "bend_bounds" -> <<<<lower>>, <<upper>>>>
           [] n = "actual_permutation_count" -> <<<<0, actual>>>>
           [] n = "permutations" -> [i \in 1..Perms |-> perm(i)]
           [] OTHER -> <<>>]]
Numbers == {F0, F1, F4, <<191, 128, 0, 0>>}
Init == r = <<>>
Next == /\ r = <<>>
        /\ \/ \E split \in BOOLEAN, actual \in 0..(Perms + 1), gains \in [1..Perms -> Gains], next \in [1..Perms -> (0..Perms) \cup {65535}] :
                r' = MakeRange(split, actual, F1, F0, F1, gains, next)
           \/ \E natural \in Numbers, lower \in Numbers, upper \in Numbers : r' = MakeRange(FALSE, 0, natural, lower, upper, [i \in 1..Perms |-> 0], [i \in 1..Perms |-> 65535])
Spec == Init /\ [][Next]_r
S(set, v) == PitchRule(v, r.split, set)
All == r # <<>> =>
  LET s == "SoundPitchRange" set == S(TRUE, r.v) strip == S(FALSE, r.v)
      ps == Get(s, r.v, "permutations") n == Num(s, r.v, "actual_permutation_count")[2]
      whole == ~r.split \/ n > Len(ps) \/ \A j \in (n + 1)..Len(ps) : \E k \in 1..n : (j - 1) \in After(ps, k) IN
  /\ S(TRUE, set) = set
  /\ S(FALSE, strip) = strip
  /\ whole => S(TRUE, strip) = set
  (* the parts of a permutation that is part of no other sound alike *)
  /\ \A k \in 1..Len(ps) : r.split /\ n <= Len(ps) /\ k <= n => \A j \in After(ps, k) :
       ((\A m \in 1..n : m # k => j \notin After(ps, m)) /\ j >= n) => Get(P, Get(s, set, "permutations")[j + 1], "gain") = Get(P, Get(s, set, "permutations")[k], "gain") \/ (k - 1) \in UNION {After(ps, m) : m \in 1..n}
==============================================================================
