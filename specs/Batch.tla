-------------------------------- MODULE Batch --------------------------------
(* C09.  A command run over all tags that pass a filter.                      *)
(* Tags are 1..N; kind[t] says what becomes of tag t: "ok", "skip", "fail" or *)
(* "ignored" (the command has no business with it).                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Of(kind, S, k) == {t \in S : kind[t] = k}
Viable(kind, S) == S \ Of(kind, S, "ignored")
Plural(n) == IF n = 1 THEN "" ELSE "s"
(* What a command that reports every tag says at the end.                     *)
ShowAll(kind, S) ==
  LET t == Cardinality(Viable(kind, S))  s == Cardinality(Of(kind, S, "ok"))  f == Cardinality(Of(kind, S, "fail")) IN
  IF t <= 1 THEN <<>>
  ELSE <<"Processed " \o ToString(s) \o " / " \o ToString(t) \o " tags in # ms"
         \o (IF f = 0 THEN "" ELSE ", with " \o ToString(f) \o " error" \o Plural(f))>>
(* A command that reports errors only.                                        *)
Silent(kind, S) ==
  LET f == Cardinality(Of(kind, S, "fail")) IN
  IF f = 0 THEN <<>> ELSE <<"Failed to parse " \o ToString(f) \o " tag" \o Plural(f)>>
Recovered(kind, S) ==
  LET t == Cardinality(Viable(kind, S))  s == Cardinality(Of(kind, S, "ok"))  f == Cardinality(Of(kind, S, "fail")) IN
  IF t <= 1 THEN <<>>
  ELSE <<"Recovered " \o ToString(s) \o " / " \o ToString(t) \o " tags "
         \o (IF s = 0 /\ f = 0 THEN "(all skipped)" ELSE "with " \o ToString(f) \o " error(s)")>>
Compared(kind, S, matched) ==
  LET s == Cardinality(Of(kind, S, "ok"))  m == Cardinality({t \in Of(kind, S, "ok") : matched[t]}) IN
  <<"Matched " \o ToString(m) \o " / " \o ToString(s) \o " tag" \o Plural(s)>>
=============================================================================
