------------------------------ MODULE TraceBase ------------------------------
(* Code -> model binding shared by the stateless properties.  The harness     *)
(* writes one JSON record per observed call of the real code; the behaviour   *)
(* below visits every record once (in C parallel runs) and the property's     *)
(* module says in `Accepted' whether the record is one the specification      *)
(* allows.  TLC stops at the first record that is not.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Chunk == IF N <= 16 THEN 1 ELSE (N \div 16) + 1
TInit == l \in {k \in 1..N : (k - 1) % Chunk = 0}
TNext == l < N /\ l % Chunk # 0 /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Rec == Trace[l]
Has(r, f) == f \in DOMAIN r
=============================================================================
