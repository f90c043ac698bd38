------------------------------- MODULE C10Gen -------------------------------
(* Hands the table of verbs to the harness, which builds command lines of it. *)
EXTENDS CommandLine, Json, IOUtils
VARIABLE x
GInit == x = 0 /\ ndJsonSerialize(IOEnv.CASES, <<Table>>)
GSpec == GInit /\ [][FALSE]_x
=============================================================================
