-------------------------------- MODULE C10MC --------------------------------
(* The grammar on every command line of up to MaxLen words over a small verb: *)
(* a repeatable option with a value (-t), one with a number (-j), a flag (-o),*)
(* one positional argument.                                                   *)
EXTENDS CommandLine
CONSTANT MaxLen
V == Verb(<<TagsMany, Jobs, Over>>, 1)
Words == {"--tags", "--jobs", "--overwrite", "--help", "-t", "-j", "-o", "-h", "-to", "-jt", "-oh", "-x", "--x", "-", "--", "1", "a"}
VARIABLES argv, s
vars == <<argv, s>>
MInit == argv \in UNION {[1..n -> Words] : n \in 0..MaxLen} /\ s = Init(V)
MNext == s.end = "" /\ s' = Step(V, argv, s) /\ UNCHANGED argv
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(MNext)
Ends == <>(s.end # "")
Used(st) == LET Sum[n \in SUBSET DOMAIN st.given] ==
                  IF n = {} THEN 0 ELSE LET k == CHOOSE k \in n : TRUE IN Len(st.given[k]) + Sum[n \ {k}]
            IN Sum[DOMAIN st.given]
(* the machine never runs past the words, and every value is of its type      *)
Within == s.i <= Len(argv) + 1
Typed1 == "jobs" \in DOMAIN s.given => Len(s.given["jobs"]) = 1 /\ IsUint(s.given["jobs"][1])
Arity == s.end = "run" => Len(s.extra) = V.n /\ s.i = Len(argv) + 1 /\ s.group = ""
Positional == \A k \in 1..Len(s.extra) : ~Starts(s.extra[k], "-")
(* reading on from here gives what reading the whole gives (the machine is    *)
(* the function), and the spelled-out form means the same                     *)
Same(a, b) == a.end = b.end /\ (a.end = "run" => a.given = b.given /\ a.extra = b.extra)
Filled(st) == [k \in DOMAIN st.given \cup {"tags"} |-> Value(V, st, k)]
Spelled == s.end = "run" =>
  LET t == Parse(V, Spell(V, s)) IN t.end = "run" /\ t.extra = s.extra /\ Filled(t) = Filled(s) /\ Spell(V, t) = Spell(V, s)
(* a group means its options one by one                                       *)
Grouped == s.end = "run" => Same(s, Parse(V, Ungroup(V, argv, 1, "")))
(* help is given exactly if it is asked for before anything is wrong          *)
Helps == s.end = "help" => \E k \in 1..Len(argv) : argv[k] = "--help" \/ \E i \in 2..Len(argv[k]) : Ch(argv[k], i) = "h"
(* moving the argument to the end or the front changes nothing                *)
Order == s.end = "run" =>
  \A k \in 1..Len(argv) : argv[k] = s.extra[1] =>
     LET rest == SubSeq(argv, 1, k - 1) \o SubSeq(argv, k + 1, Len(argv)) IN
     (Parse(V, rest).end = "refuse" /\ Parse(V, rest).extra = <<>> /\ Parse(V, rest).i = Len(rest) + 1)
       => /\ Parse(V, Append(rest, argv[k])).extra = s.extra => Same(s, Parse(V, Append(rest, argv[k])))
          /\ Parse(V, <<argv[k]>> \o rest).extra = s.extra => Same(s, Parse(V, <<argv[k]>> \o rest))
(* numbers                                                                    *)
ASSUME /\ IsUint("0") /\ IsUint("+7") /\ IsUint("0004294967295") /\ IsUint("4294967295") /\ IsUint("4199999999")
       /\ ~IsUint("4294967296") /\ ~IsUint("") /\ ~IsUint("+") /\ ~IsUint("-1") /\ ~IsUint("1 ") /\ ~IsUint("99999999999") /\ ~IsUint("++1")
(* in every verb no two options share a name or a letter, none is called help *)
ASSUME \A v \in DOMAIN Table : LET o == Table[v].opts IN
         \A i \in 1..Len(o) : o[i].short # "h" /\ o[i].name # "help"
                              /\ \A j \in 1..Len(o) : i # j => o[i].name # o[j].name /\ o[i].short # o[j].short
ASSUME VerbOf("StRiP") = "strip" /\ VerbOf("CMP") = "compare" /\ VerbOf("") = "?" /\ VerbOf("--help") = "?"
=============================================================================
