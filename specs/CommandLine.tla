----------------------------- MODULE CommandLine -----------------------------
(* C10.  What a command line of the invader program means.                    *)
(*                                                                            *)
(* The grammar is a machine that reads one word at a time.  A word is a long  *)
(* option (--name), a group of short options (-abc), or an argument.  Every   *)
(* option takes its declared number of values (none or one here) from the     *)
(* words that follow, whatever they look like; in a group each option takes   *)
(* its value in turn.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ch(s, i) == SubSeq(s, i, i)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
From(s, i) == SubSeq(s, i, Len(s))
------------------------------------------------------------------------------
(* The verbs and what they declare.                                           *)
Opt(name, short, type, default) ==
  [name |-> name, short |-> short, type |-> type, default |-> default, many |-> FALSE, need |-> FALSE]
Flag(name, short) == Opt(name, short, "none", <<>>)
Tags == Opt("tags", "t", "path", <<"tags">>)
TagsMany == [Tags EXCEPT !.many = TRUE]
Data == Opt("data", "d", "path", <<"data">>)
Cow == Opt("cow", "c", "path", <<>>)
Over == Flag("overwrite", "o")
Jobs == Opt("jobs", "j", "uint", <<>>)
Engine == [Opt("engine", "e", "engine", <<>>) EXCEPT !.need = TRUE]
Filter == Opt("filter", "f", "text", <<"*">>)
Out == Opt("output", "O", "path", <<>>)
Level == Opt("level", "l", "uint", <<"7">>)
Verb(opts, n) == [opts |-> opts, n |-> n]
Table ==
  [v \in {"strip", "nudge", "undefault", "bludgeon", "recompress-vertices"} |-> Verb(<<Tags, Cow, Jobs>>, 1)]
  @@ [v \in {"unicode-strings", "tag-collection", "ui-widget-collection"} |-> Verb(<<Tags, Data, Cow, Jobs>>, 1)]
  @@ "archive-tag" :> Verb(<<TagsMany, Over, Out, Level>>, 1)
  @@ "archive-scenario" :> Verb(<<TagsMany, Over, Out, Level, Engine>>, 1)
  @@ "compare" :> Verb(<<Flag("verbose", "v"), Opt("show", "s", "text", <<"mismatched">>), Filter, Flag("abbreviated", "a"), Jobs, Flag("raw", "r")>>, 2)
  @@ "convert" :> Verb(<<Tags, Over, Cow, Jobs>>, 2)
  @@ "dependency-list" :> Verb(<<TagsMany, Flag("recursive", "r"), Flag("reverse", "R")>>, 1)
  @@ "dependency-tree" :> Verb(<<TagsMany, Flag("broken", "b"), Opt("depth", "d", "uint", <<>>)>>, 1)
  @@ "extract" :> Verb(<<Tags, Over, Filter, Jobs, Flag("non-mp-globals", "n")>>, 1)
  @@ "info" :> Verb(<<Opt("type", "T", "text", <<"general">>)>>, 1)
  @@ "list-scenario-tags" :> Verb(<<TagsMany, Engine>>, 1)
  @@ "plate" :> Verb(<<Tags, Data, Jobs>>, 1)
  @@ "recover" :> Verb(<<Tags, Data, Over, Jobs>>, 1)
  @@ "refactor-groups" :> Verb(<<Tags, Cow, Jobs, Filter>>, 2)
  @@ "refactor-paths" :> Verb(<<TagsMany, Jobs, Flag("no-move", "N"), Opt("replace-type", "r", "text", <<"start">>), Filter>>, 2)
  @@ "verify-scenario" :> Verb(<<TagsMany, Engine, Jobs>>, 1)
Alias == "cmp" :> "compare" @@ "unicode-string-list" :> "unicode-strings"
Bare == {"version", "v", "list-engines"}
Builds == {"mac-demo", "mac-retail", "mcc-cea", "pc-custom", "pc-demo", "pc-retail", "xbox-demo", "xbox-jp", "xbox-pal", "xbox-tw",
           "xbox-us", "pc-custom-chimera", "pc-custom-ex", "xbox-nhe", "xbox-pro"}
ReadOnly == {"pc-0268", "pc-0452", "xbox-1749", "xbox-2247"}
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
LowerOf(c) == IF \E k \in 1..26 : Ch(Upper, k) = c THEN Ch(Lower, CHOOSE k \in 1..26 : Ch(Upper, k) = c) ELSE c
RECURSIVE Lowered(_)
Lowered(s) == IF s = "" THEN "" ELSE LowerOf(Ch(s, 1)) \o Lowered(From(s, 2))
VerbOf(word) == LET w == Lowered(word) IN
  IF w \in DOMAIN Table \cup Bare THEN w ELSE IF w \in DOMAIN Alias THEN Alias[w] ELSE "?"
------------------------------------------------------------------------------
(* Values.                                                                    *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitOf(c) == CHOOSE d \in 0..9 : ToString(d) = c
RECURSIVE Bare0(_)
Bare0(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN Bare0(From(s, 2)) ELSE s
RECURSIVE NotAbove(_, _)
NotAbove(s, t) == \/ s = ""
                  \/ DigitOf(Ch(s, 1)) < DigitOf(Ch(t, 1))
                  \/ Ch(s, 1) = Ch(t, 1) /\ NotAbove(From(s, 2), From(t, 2))
IsUint(w) == LET d == IF Starts(w, "+") THEN From(w, 2) ELSE w
                 n == Bare0(d)
             IN /\ d # ""
                /\ \A i \in 1..Len(d) : Ch(d, i) \in Digits
                /\ Len(n) < 10 \/ (Len(n) = 10 /\ NotAbove(n, "4294967295"))
Typed(type, w) == CASE type = "uint" -> IsUint(w) [] type = "engine" -> w \in Builds [] OTHER -> TRUE
------------------------------------------------------------------------------
(* The machine.  given: the values of every option seen so far.               *)
Init(verb) == [i |-> 1, group |-> "", given |-> <<>>, extra |-> <<>>, end |-> ""]
NamesOf(verb) == {verb.opts[k].name : k \in 1..Len(verb.opts)}
Take(o, argv, s) ==
  LET seen == o.name \in DOMAIN s.given IN
  IF seen /\ ~o.many THEN [s EXCEPT !.end = "refuse"]
  ELSE IF o.type = "none" THEN [s EXCEPT !.given = (o.name :> <<>>) @@ @]
  ELSE IF s.i > Len(argv) THEN [s EXCEPT !.end = "refuse"]
  ELSE IF ~Typed(o.type, argv[s.i]) THEN [s EXCEPT !.end = "refuse"]
  ELSE [s EXCEPT !.given = (o.name :> Append(IF seen THEN s.given[o.name] ELSE <<>>, argv[s.i])) @@ @, !.i = @ + 1]
Named(verb, n) == {k \in 1..Len(verb.opts) : verb.opts[k].name = n}
Short(verb, c) == {k \in 1..Len(verb.opts) : verb.opts[k].short = c}
Option(verb, found, argv, s) ==
  IF found = {} THEN [s EXCEPT !.end = "refuse"] ELSE Take(verb.opts[CHOOSE k \in found : TRUE], argv, s)
Finish(verb, s) ==
  IF Len(s.extra) # verb.n \/ \E k \in 1..Len(verb.opts) : verb.opts[k].need /\ verb.opts[k].name \notin DOMAIN s.given
  THEN [s EXCEPT !.end = "refuse"] ELSE [s EXCEPT !.end = "run"]
Step(verb, argv, s) ==
  IF s.group # "" THEN
    LET c == Ch(s.group, 1)  t == [s EXCEPT !.group = From(@, 2)] IN
    IF c = "h" THEN [t EXCEPT !.end = "help"] ELSE Option(verb, Short(verb, c), argv, t)
  ELSE IF s.i > Len(argv) THEN Finish(verb, s)
  ELSE LET w == argv[s.i]  t == [s EXCEPT !.i = @ + 1] IN
    IF Starts(w, "--") THEN
      (IF w = "--help" THEN [t EXCEPT !.end = "help"] ELSE Option(verb, Named(verb, From(w, 3)), argv, t))
    ELSE IF Starts(w, "-") THEN [t EXCEPT !.group = From(w, 2)]
    ELSE IF Len(s.extra) >= verb.n THEN [t EXCEPT !.end = "refuse"]
    ELSE [t EXCEPT !.extra = Append(@, w)]
RECURSIVE Run(_, _, _)
Run(verb, argv, s) == IF s.end # "" THEN s ELSE Run(verb, argv, Step(verb, argv, s))
Parse(verb, argv) == Run(verb, argv, Init(verb))
------------------------------------------------------------------------------
(* The fully spelled-out form: every option by its long name, also those left *)
(* at their default, in the order of the table; then the arguments.           *)
Value(verb, s, n) ==
  IF n \in DOMAIN s.given THEN s.given[n]
  ELSE LET k == CHOOSE k \in Named(verb, n) : TRUE IN verb.opts[k].default
RECURSIVE Each(_, _)
Each(n, vs) == IF vs = <<>> THEN <<>> ELSE <<"--" \o n, Head(vs)>> \o Each(n, Tail(vs))
RECURSIVE SpellFrom(_, _, _)
SpellFrom(verb, s, k) ==
  IF k > Len(verb.opts) THEN s.extra
  ELSE LET o == verb.opts[k] IN
       (IF o.type = "none" THEN IF o.name \in DOMAIN s.given THEN <<"--" \o o.name>> ELSE <<>>
        ELSE Each(o.name, Value(verb, s, o.name))) \o SpellFrom(verb, s, k + 1)
Spell(verb, s) == SpellFrom(verb, s, 1)
(* The same command with one option per word (used to state what groups mean) *)
TakesOne(verb, c) == \E k \in Short(verb, c) : verb.opts[k].type # "none"
RECURSIVE Ungroup(_, _, _, _)
Ungroup(verb, argv, i, g) ==
  IF g # "" THEN
    LET v == TakesOne(verb, Ch(g, 1)) /\ i <= Len(argv) IN
    <<"-" \o Ch(g, 1)>> \o (IF v THEN <<argv[i]>> ELSE <<>>) \o Ungroup(verb, argv, IF v THEN i + 1 ELSE i, From(g, 2))
  ELSE IF i > Len(argv) THEN <<>>
  ELSE LET w == argv[i] IN
    IF Starts(w, "--") /\ Named(verb, From(w, 3)) # {} /\ verb.opts[CHOOSE k \in Named(verb, From(w, 3)) : TRUE].type # "none" /\ i < Len(argv)
    THEN <<w, argv[i + 1]>> \o Ungroup(verb, argv, i + 2, "")
    ELSE IF Starts(w, "-") /\ ~Starts(w, "--") THEN Ungroup(verb, argv, i + 1, From(w, 2))
    ELSE <<w>> \o Ungroup(verb, argv, i + 1, "")
------------------------------------------------------------------------------
(* What an accepted command works on.  dirs: the folders that exist.          *)
Folders(verb, s) == UNION {{Value(verb, s, n)[i] : i \in 1..Len(Value(verb, s, n))} : n \in NamesOf(verb) \cap {"tags", "data", "cow"}}
Verdict(verb, argv, dirs) ==
  LET s == Parse(verb, argv) IN
  IF s.end # "run" THEN s.end ELSE IF Folders(verb, s) \subseteq dirs THEN "run" ELSE "refuse"
(* Where an accepted command may write.                                       *)
Target(v, verb, s) ==
  CASE v \in {"plate", "recover"} -> {Value(verb, s, "data")[1]}
    [] v \in {"archive-tag", "archive-scenario"} -> {"."}
    [] v = "refactor-paths" -> {Value(verb, s, "tags")[i] : i \in 1..Len(Value(verb, s, "tags"))}
    [] "cow" \in NamesOf(verb) -> {IF "cow" \in DOMAIN s.given THEN s.given["cow"][1] ELSE Value(verb, s, "tags")[1]}
    [] v = "extract" -> {Value(verb, s, "tags")[1]}
    [] OTHER -> {}
(* Commands whose whole effect is known in the world the harness prepares     *)
(* (every tags folder holds s.scenery, o.object and others, untidily saved    *)
(* and referring to a tag named after the folder; every data folder holds     *)
(* texts naming it).  The effect is a set of [dir, file, from]: the file      *)
(* written, where, and the folder its contents come from.                     *)
TagDirs == {"tags", "tags2", "-t"}
DataDirs == {"data", "data2", "--data"}
CowDirs == {"cow", "-c"}
Usual(verb, s) == /\ Value(verb, s, "tags")[1] \in TagDirs
                  /\ "data" \in NamesOf(verb) => Value(verb, s, "data")[1] \in DataDirs
                  /\ "cow" \in DOMAIN s.given => s.given["cow"][1] \in CowDirs
Subject(v, s) ==
  CASE v = "strip" -> s.extra = <<"s.scenery">>
    [] v = "convert" -> s.extra = <<"o.object", "scenery">>
    [] v \in {"unicode-strings", "tag-collection", "ui-widget-collection"} -> s.extra = <<"x">>
    [] v = "archive-tag" -> s.extra = <<"s.scenery">>
    [] v = "dependency-list" -> s.extra = <<"s.scenery">> /\ "reverse" \notin DOMAIN s.given
    [] OTHER -> FALSE
(* a level of at most 9, as the command itself demands                        *)
LevelOk(verb, s) == LET w == Value(verb, s, "level")[1] IN Len(Bare0(IF Starts(w, "+") THEN From(w, 2) ELSE w)) = 1
Sure(v, verb, s) ==
  /\ Subject(v, s)
  /\ Usual(verb, s)
  /\ v = "archive-tag" => LevelOk(verb, s) /\ ("output" \in DOMAIN s.given => s.given["output"][1] \in {"out.7z", "-O"})
Wrote(w, f, t) == {[dir |-> w, file |-> f, from |-> t]}
Effect(v, verb, s) ==
  LET t == Value(verb, s, "tags")[1]
      Where == CHOOSE d \in Target(v, verb, s) : TRUE
      From1 == Value(verb, s, "data")[1]
  IN CASE v = "strip" -> Wrote(Where, "s.scenery", t)
       [] v = "convert" -> IF "overwrite" \in DOMAIN s.given THEN Wrote(Where, "o.scenery", t) ELSE {}
       [] v = "unicode-strings" -> Wrote(Where, "x.unicode_string_list", From1)
       [] v = "tag-collection" -> Wrote(Where, "x.tag_collection", From1)
       [] v = "ui-widget-collection" -> Wrote(Where, "x.ui_widget_collection", From1)
       [] v = "archive-tag" -> Wrote(".", IF "output" \in DOMAIN s.given THEN s.given["output"][1] ELSE "s.7z", "?")
       [] OTHER -> {}
Says(v, verb, s) == IF v = "dependency-list" THEN {Value(verb, s, "tags")[1]} ELSE {}
=============================================================================
