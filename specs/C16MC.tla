--------------------------------- MODULE C16MC --------------------------------
(* 1. Every small atom, written down with or without quotes as it needs, is    *)
(*    read back as it was, whatever comes after it.                            *)
(* 2. A machine that walks node tables with a stack: for every small table it  *)
(*    finds a node a second time (or one that is not there) exactly when the   *)
(*    nodes are not a tree; otherwise it writes what the table says.           *)
EXTENDS Script, TLC
CONSTANTS Chars, MaxLen, Nodes
VARIABLES mode, text, s, todo, out, seen, bad
vars == <<mode, text, s, todo, out, seen, bad>>
Atoms == UNION {[1..n -> Chars] : n \in 0..MaxLen}
Needs(t) == t = <<>> \/ \E i \in 1..Len(t) : t[i] \in {40, 41, 59, Quote} \/ White(t[i])
RECURSIVE Escape(_)
Escape(t) == IF t = <<>> THEN <<>> ELSE (IF t[1] = Quote THEN <<Slash, Quote>> ELSE <<t[1]>>) \o Escape(Tail(t))
Write(t) == IF Needs(t) THEN <<Quote>> \o Escape(t) \o <<Quote>> ELSE t
(* a backslash at the end of what is quoted would take the quote with it *)
Writable(t) == Needs(t) /\ t # <<>> => t[Len(t)] # Slash
Ends == {<<>>, <<41>>, <<10>>, <<32, 41>>, <<32, 97>>}
ReadsBack == mode = "text" => (Writable(text) => \A e \in Ends : Read(<<40, 97, 32>> \o Write(text) \o e) = <<Open, <<97>>, text>> \o Read(e))
(* without quotes, exactly these would not be *)
QuotesNeeded == mode = "text" /\ text # <<>> /\ (\A i \in 1..Len(text) : text[i] # Quote) => (Needs(text) = (Read(text) # <<text>>))
-----------------------------------------------------------------------------
N(prim, next, child, k) == [prim |-> prim, glob |-> FALSE, loc |-> FALSE, ty |-> "string", next |-> next, child |-> child, txt |-> <<IF k = 0 THEN Begin ELSE <<96 + k>>>>, val |-> <<>>]
Refs == -1..(Nodes - 1)
Tables == {[i \in 1..Nodes |-> N(p[i], n[i], c[i], i % 3)] : p \in [1..Nodes -> BOOLEAN], n \in [1..Nodes -> Refs], c \in [1..Nodes -> Refs]}
(* children of atoms do not matter *)
Sane(t) == \A i \in 1..Nodes : t[i].prim => t[i].child = -1
Init ==
  /\ out = <<>> /\ seen = {} /\ bad = FALSE
  /\ \/ mode = "text" /\ text \in Atoms /\ s = <<>> /\ todo = <<>>
     \/ mode = "walk" /\ text = <<>> /\ \E t \in Tables, outer \in BOOLEAN : Sane(t) /\ s = [nodes |-> t, outer |-> outer] /\ todo = <<[at |-> 0, close |-> FALSE, outer |-> outer]>>
Top == todo[Len(todo)]
Rest == SubSeq(todo, 1, Len(todo) - 1)
Walk ==
  /\ mode = "walk" /\ todo # <<>> /\ ~bad
  /\ UNCHANGED <<mode, text, s>>
  /\ IF Top.at = -1 THEN todo' = Rest /\ out' = (IF Top.close THEN Append(out, Close) ELSE out) /\ UNCHANGED <<seen, bad>>
     ELSE IF Top.at \in seen THEN bad' = TRUE /\ UNCHANGED <<todo, out, seen>>
     ELSE LET n == Node(s, Top.at)  back == [Top EXCEPT !.at = n.next] IN
          /\ seen' = seen \cup {Top.at}
          /\ IF n.prim THEN todo' = Append(Rest, back) /\ out' = Append(out, Text(n)) /\ UNCHANGED bad
             ELSE IF n.child = -1 THEN bad' = TRUE /\ UNCHANGED <<todo, out>>
             ELSE IF Top.outer /\ Text(Node(s, n.child)) = Begin
             THEN /\ todo' = Rest \o <<back, [at |-> Node(s, n.child).next, close |-> FALSE, outer |-> FALSE]>>
                  /\ out' = out
                  \* what is left out is seen as well
                  /\ bad' = (n.child \in seen \/ n.child = Top.at \/ ~Node(s, n.child).prim)
             ELSE todo' = Rest \o <<back, [at |-> n.child, close |-> TRUE, outer |-> FALSE]>> /\ out' = Append(out, Open) /\ UNCHANGED bad
Spec == Init /\ [][Walk]_vars
Done == mode = "walk" /\ (todo = <<>> \/ bad)
(* (a call in place of the word `begin' is left to the traces) *)
Odd == \E i \in 1..Nodes : ~s.nodes[i].prim /\ s.nodes[i].child # -1 /\ ~Node(s, s.nodes[i].child).prim
Fits == Done /\ ~(s.outer /\ Odd) => IF bad THEN ~Tree(s, 0) \/ s.outer ELSE (Tree(s, 0) \/ s.outer) /\ (Tree(s, 0) => out = Says(s, 0, s.outer) /\ (Balanced(<<Open>> \o out \o <<Close>>, 1, 0)))
TreesFine == Done /\ ~s.outer => (bad = ~Tree(s, 0))
(* on trees the walk never goes wrong *)
NoAlarm == Done /\ Tree(s, 0) /\ ~(s.outer /\ Odd) => ~bad
Deepest == Done /\ ~s.outer /\ ~bad => Depth(s, 0) <= Cardinality({i \in seen : ~Node(s, i).prim})
=============================================================================
