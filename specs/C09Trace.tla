------------------------------ MODULE C09Trace ------------------------------
(* A record is a world of tags and one command: what it did with each tag     *)
(* alone, and with all that pass the filter under several numbers of jobs.    *)
EXTENDS Batch, TagFilter, TraceBase
Tag == Rec.tags
S == {t \in 1..Len(Tag) : Passes(Rec.filter, Rec.group, Tag[t].p, Tag[t].g)}
ASet(q) == {q[i] : i \in 1..Len(q)}
Bad == {"junk", "cut", "crc"}
Txt(t) == Tag[t].gname
(* what becomes of a tag on its own, as far as the specification knows        *)
Wants(v, t) ==
  CASE v = "strip" -> (CASE Tag[t].state = "tidy" -> {"skip"} [] Tag[t].state = "untidy" -> {"ok"} [] OTHER -> {"fail"})
    [] v = "bludgeon" -> (CASE Tag[t].state \in {"junk", "cut"} -> {"fail"} [] Tag[t].state = "crc" -> (IF Txt(t) \in {"scenario", "model", "gbxmodel"} THEN {"ok", "skip"} ELSE {"ok"}) [] OTHER -> {"ok", "skip"})
    [] v = "recompress-vertices" -> IF Txt(t) \notin {"model", "gbxmodel", "scenario_structure_bsp"} THEN {"ignored"}
                                    ELSE IF Tag[t].state \in Bad THEN {"fail"} ELSE {"ok", "skip", "fail"}
    [] v = "recover" -> IF Txt(t) \notin {"bitmap", "scenario", "unicode_string_list"} THEN {"ignored"}
                        ELSE IF Tag[t].state \in Bad THEN {"fail"} ELSE {"ok", "skip", "fail"}
    [] v = "convert" -> IF Tag[t].state \in Bad THEN {"fail", "skip"} ELSE {"ok", "skip", "fail"}
    [] v \in {"nudge", "undefault", "refactor-groups"} -> IF Tag[t].state \in Bad THEN {"fail", "ignored"} ELSE {"ok", "skip", "ignored"}
    [] v = "compare" -> IF ~Tag[t].second THEN {"skip"} ELSE IF Tag[t].state \in Bad THEN {"fail"} ELSE {"ok"}
    [] v = "verify-scenario" -> IF Tag[t].state \in Bad THEN {"fail"} ELSE {"ok", "fail"}
    [] v \in {"unicode-strings", "tag-collection"} ->
         (CASE Tag[t].data \in {"none", "bad"} -> {"fail"} [] OTHER -> IF Rec.cow THEN {"ok", "skip"} ELSE {"ok", "skip"})
    [] OTHER -> {}
SilentVerbs == {"recover", "compare", "verify-scenario"}
(* the lines of several runs put together, as [line |-> how often]            *)
RECURSIVE Count(_, _)
Count(q, x) == IF q = <<>> THEN 0 ELSE (IF Head(q) = x THEN 1 ELSE 0) + Count(Tail(q), x)
RECURSIVE Cat(_, _)
Cat(f, T) == IF T = {} THEN <<>> ELSE LET t == CHOOSE t \in T : \A u \in T : t <= u IN f[t] \o Cat(f, T \ {t})
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ \E s \in {S} :
     \E kind \in {[t \in s |-> Rec.alone[t].kind]} :
     \E all \in {Cat([t \in s |-> Rec.alone[t].lines], s)} :
     LET v == Rec.verb
         viable == Viable(kind, s)
         sum == IF viable = {} THEN <<"Error executing " \o v \o ": No viable tags matched `" \o Rec.ftext \o "`">>
                ELSE IF v \notin SilentVerbs THEN ShowAll(kind, s)
                ELSE Silent(kind, s) \o (CASE v = "recover" -> Recovered(kind, s)
                                           [] v = "compare" -> Compared(kind, s, [t \in s |-> Rec.alone[t].matched])
                                           [] OTHER -> <<>>)
     IN /\ \A t \in s : kind[t] \in Wants(v, t)
        /\ \A t, u \in s : Tag[t].gname = Tag[u].gname => (kind[t] = "ignored") = (kind[u] = "ignored")
        /\ \A t \in s : kind[t] \in {"ignored", "fail", "skip"} => Rec.alone[t].changed = <<>>
        /\ v \notin SilentVerbs => \A t \in s : Len(Rec.alone[t].lines) = IF kind[t] = "ignored" THEN 0 ELSE 1
        /\ \A r \in 1..Len(Rec.runs) :
             LET run == Rec.runs[r] IN
             /\ run.code = IF viable = {} THEN 1 ELSE 0
             /\ run.sum = sum
             /\ Len(run.lines) = Len(all)
             /\ \A x \in ASet(all) : Count(run.lines, x) = Count(all, x)
             /\ ASet(run.changed) = UNION {ASet(Rec.alone[t].changed) : t \in s}
=============================================================================
