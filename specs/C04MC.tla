-------------------------------- MODULE C04MC --------------------------------
(* Every text over a small alphabet, grown one character at a time.           *)
EXTENDS TagPath, TLC, Json
CONSTANTS Letters, MaxLen, EmitCases
VARIABLE t
G == <<115, 107, 121>>        \* sky
Seeds == {<<>>, <<99, 111, 109>>, <<110, 117>>, <<97, 92>>}
Init == t \in Seeds
Next == Len(t) < MaxLen /\ \E c \in Letters : t' = Append(t, c)
Spec == Init /\ [][Next]_t
P == Parse(t)
NormalForm == P.ok => /\ Parse(P.p) = P
                      /\ ParseFull(Internal(P.p, G), {G}) = [ok |-> TRUE, p |-> P.p, g |-> G]
                      /\ ParseFull(NativeForm(P.p, G), {G}) = [ok |-> TRUE, p |-> P.p, g |-> G]
Contained == P.ok => Stays(NativeForm(P.p, G))
NoDouble == P.ok => \A i \in 2..Len(P.p) : ~(P.p[i] = PBack /\ P.p[i - 1] = PBack)
LowerCase == P.ok => \A i \in 1..Len(P.p) : P.p[i] \notin 65..90 /\ P.p[i] # PSlash
Base == P.ok => \A i \in 1..Len(BaseName(P.p)) : BaseName(P.p)[i] # PBack
Emit == EmitCases => PrintT("CASE " \o ToJson([t |-> t, g |-> G, want |->
   IF P.ok THEN [ok |-> TRUE, p |-> P.p, base |-> BaseName(P.p), internal |-> Internal(P.p, G), native |-> NativeForm(P.p, G)]
   ELSE [ok |-> FALSE, p |-> <<>>, base |-> <<>>, internal |-> <<>>, native |-> <<>>]]))
=============================================================================
