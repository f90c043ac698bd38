-------------------------------- MODULE C22MC --------------------------------
(* The packings themselves are lossless, for every value of a small width.    *)
EXTENDS Packed, FiniteSets
CONSTANTS Width, Bits, Den
VARIABLES id, num
Init == id = <<0, 0>> /\ num = 0
Next == /\ id = <<0, 0>> /\ num = 0
        /\ \/ id' \in (0..Ones(Width)) \X (0..Ones(Width)) /\ UNCHANGED num
           \/ num' \in (-2 * Den)..(2 * Den) /\ UNCHANGED id
Spec == Init /\ [][Next]_<<id, num>>
(* a valid identifier is its index and salt, and nothing else is *)
Rebuilds == Valid(Width, id) => MakeId(Width, IndexOf(Width, id), SaltOf(Width, id)) = id
Splits == \/ id = Null(Width)
          \/ id[2] = Ones(Width) /\ id[1] % Top(Width) = 0      \* looks like none
          \/ LET made == MakeId(Width, id[2], id[1] % Top(Width)) IN Valid(Width, made) /\ IndexOf(Width, made) = id[2] /\ SaltOf(Width, made) = id[1] % Top(Width)
Codes == 0..(Pow2(Bits) - 1)
SomeCode == \E c \in Codes : Nearest(Bits, num, Den, c)
(* different codes stand for different numbers, and each is the nearest to what it stands for *)
Injective == \A c, e \in Codes : c # e => Decode(Bits, c)[1] * Decode(Bits, e)[2] # Decode(Bits, e)[1] * Decode(Bits, c)[2]
Stable == \A c, e \in Codes : Nearest(Bits, Decode(Bits, c)[1], Decode(Bits, c)[2], e) <=> c = e
ASSUME Injective /\ Stable
==============================================================================
