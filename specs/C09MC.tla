-------------------------------- MODULE C09MC --------------------------------
(* The queue and its workers: every schedule of W workers over N tags.        *)
EXTENDS Batch
CONSTANTS MaxTags, MaxWorkers
Kinds == {"ok", "skip", "fail", "ignored"}
VARIABLES n, w, kind, queue, at, done, count, lines
vars == <<n, w, kind, queue, at, done, count, lines>>
Init == /\ n \in 0..MaxTags
        /\ w \in 1..MaxWorkers
        /\ kind \in [1..n -> Kinds]
        /\ queue = [i \in 1..n |-> i]
        /\ at = [p \in 1..w |-> [pc |-> "next", t |-> 0]]
        /\ done = [t \in 1..n |-> 0]
        /\ count = [k \in Kinds \cup {"total"} |-> 0]
        /\ lines = <<>>
Take(p) == /\ at[p].pc = "next"
           /\ IF queue = <<>> THEN at' = [at EXCEPT ![p].pc = "end"] /\ UNCHANGED queue
              ELSE at' = [at EXCEPT ![p] = [pc |-> "work", t |-> Head(queue)]] /\ queue' = Tail(queue)
           /\ UNCHANGED <<n, w, kind, done, count, lines>>
Work(p) == /\ at[p].pc = "work"
           /\ done' = [done EXCEPT ![at[p].t] = @ + 1]
           /\ count' = [count EXCEPT !["total"] = @ + 1]
           /\ at' = [at EXCEPT ![p].pc = "tell"]
           /\ UNCHANGED <<n, w, kind, queue, lines>>
Tell(p) == /\ at[p].pc = "tell"
           /\ LET k == kind[at[p].t] IN
              /\ count' = [count EXCEPT ![k] = @ + 1]
              /\ lines' = IF k = "ignored" THEN lines ELSE Append(lines, at[p].t)
           /\ at' = [at EXCEPT ![p].pc = "next"]
           /\ UNCHANGED <<n, w, kind, queue, done>>
Next == \E p \in 1..w : Take(p) \/ Work(p) \/ Tell(p)
Spec == Init /\ [][Next]_vars /\ \A p \in 1..MaxWorkers : WF_vars(p \in 1..w /\ (Take(p) \/ Work(p) \/ Tell(p)))
Over == \A p \in 1..w : at[p].pc = "end"
AtMostOnce == \A t \in 1..n : done[t] <= 1
Right == Over => /\ \A t \in 1..n : done[t] = 1
                 /\ \A k \in Kinds : count[k] = Cardinality(Of(kind, 1..n, k))
                 /\ count["total"] = n
                 /\ Len(lines) = Cardinality(Viable(kind, 1..n))
                 /\ {lines[i] : i \in 1..Len(lines)} = Viable(kind, 1..n)
Ends == <>Over
=============================================================================
