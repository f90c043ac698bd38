------------------------------- MODULE HistBase -------------------------------
(* Code -> model binding of the stateful properties.  The harness records     *)
(* histories of the real code; each begins with a record op = "reset" that    *)
(* describes the initial state.  The property's specification gives           *)
(*   HStart(r)    the state a reset record describes,                         *)
(*   HAfter(s, r) the state after the operation r,                            *)
(*   HOk(s, r)    whether r may be observed (results and effects) in s,       *)
(* and TLC follows every history.  `st' is the state before Trace[l].         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS HStart(_), HAfter(_, _), HOk(_, _)
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
TInit == l \in {k \in 1..N : Trace[k].op = "reset"} /\ st = {}
TNext == /\ l < N /\ Trace[l + 1].op # "reset"
         /\ l' = l + 1
         /\ st' = IF Trace[l].op = "reset" THEN HStart(Trace[l]) ELSE HAfter(st, Trace[l])
TSpec == TInit /\ [][TNext]_<<l, st>>
Has(r, f) == f \in DOMAIN r
Accepted == /\ ~Has(Trace[l], "crash")
            /\ Trace[l].op = "reset" \/ HOk(st, Trace[l])
=============================================================================
