------------------------------- MODULE C21MC -------------------------------
(* Rounding to two digits, on all short decimals: the result is the nearest   *)
(* number with two digits, rounding again changes nothing.                    *)
EXTENDS Nudge, TLC
CONSTANTS MaxBefore, MaxAfter
VARIABLE x
Init == \E n \in BOOLEAN : x = <<n, <<>>, <<>>>>
Next == \/ x[3] = <<>> /\ Len(x[2]) < MaxBefore /\ \E d \in 0..9 : (x[2] = <<0>> => FALSE) /\ x' = [x EXCEPT ![2] = Append(@, d)]
        \/ x[2] # <<>> /\ Len(x[3]) < MaxAfter /\ \E d \in 0..9 : x' = [x EXCEPT ![3] = Append(@, d)]
Spec == Init /\ [][Next]_x
K == 2
Scaled(y) == Value(y[2] \o y[3] \o Zeros(MaxAfter - Len(y[3])))
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 10 * Pow(n - 1)
Sig(y) == Len(Trail(Lead(y[2] \o y[3])))
Ready == x[2] # <<>>
(* the unit of the last digit kept *)
Ulp(y) == LET l == Len(Lead(y[2] \o y[3] \o Zeros(MaxAfter - Len(y[3])))) IN IF l <= K THEN 1 ELSE Pow(l - K)
Nearest == Ready => \A y \in Round(x, K) :
             /\ y[1] = x[1] /\ Sig(y) <= K
             /\ 2 * Abs(Scaled(y) - Scaled(x)) <= Ulp(x)
             /\ (Sig(x) <= K <=> Scaled(y) = Scaled(x))
             /\ Round(y, K) = {y}
Decided == Ready => Cardinality(Round(x, K)) \in {1, 2}
=============================================================================
