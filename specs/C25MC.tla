--------------------------------- MODULE C25MC --------------------------------
(* The walk as a machine (node after node, kind after kind, turning each number *)
(* round where it lies), for every small animation with every choice of flags.  *)
EXTENDS Anim
CONSTANTS MaxNodes, MaxFrames
VARIABLES a, frame, node, kind, at, list, data, marks
vars == <<a, frame, node, kind, at, list, data, marks>>
Flags == {<<x, 0, 0, 0>> : x \in 0..(Pow2(MaxNodes) - 1)}
Bytes(n) == [i \in 1..n |-> i]
Init == /\ \E r \in Flags, p \in Flags, s \in Flags, n \in 0..MaxNodes, f \in 0..MaxFrames :
             LET b == [nodes |-> n, frames |-> f, rot |-> r, pos |-> p, scale |-> s, kind |-> "none", compressed |-> FALSE, offset |-> 0, info |-> <<>>, data |-> <<>>, default |-> <<>>]
             IN a = [b EXCEPT !.data = Bytes(SizeOf(Order(b)) * f), !.default = Bytes(SizeOf(Rest(b)))]
        /\ frame = 0 /\ node = 0 /\ kind = 1 /\ at = 0 /\ list = <<>> /\ data = a.data /\ marks = [i \in 1..Len(a.data) |-> 0]
Step ==
  /\ frame < a.frames /\ node < a.nodes
  /\ LET k == Kinds[kind]
         hit == Own(a, k, node)
         w == Width[k]
     IN /\ kind' = IF kind = 3 THEN 1 ELSE kind + 1
        /\ node' = IF kind = 3 THEN node + 1 ELSE node
        /\ at' = IF hit THEN at + w ELSE at
        /\ list' = IF hit /\ frame = 0 THEN Append(list, k) ELSE list
        /\ data' = IF hit THEN SubSeq(data, 1, at) \o Turned(SubSeq(data, at + 1, at + w), Parts[k], 0) \o SubSeq(data, at + w + 1, Len(data)) ELSE data
        /\ marks' = IF hit THEN [i \in 1..Len(marks) |-> IF i > at /\ i <= at + w THEN marks[i] + 1 ELSE marks[i]] ELSE marks
  /\ UNCHANGED <<a, frame>>
Wrap == frame < a.frames /\ node = a.nodes /\ frame' = frame + 1 /\ node' = 0 /\ kind' = 1 /\ UNCHANGED <<a, at, list, data, marks>>
Spec == Init /\ [][Step \/ Wrap]_vars
Inside == at <= Len(a.data)
Once == \A i \in 1..Len(marks) : marks[i] = IF i <= at THEN 1 ELSE 0
Done == frame = a.frames
Whole == Done => /\ at = Len(a.data) /\ data = Extracted(a).data
                 /\ (a.frames > 0 => list = Order(a))
                 /\ Fine(a) /\ Extracted(Extracted(a)) = a
                 /\ Len(Order(a)) + Len(Rest(a)) = 3 * a.nodes
Short == Done /\ a.data # <<>> => ~Fine([a EXCEPT !.data = Tail(@)]) /\ ~Fine([a EXCEPT !.data = Append(@, 0)])
===============================================================================
