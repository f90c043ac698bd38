------------------------------- MODULE C19MC -------------------------------
(* Every short list and every short text, made of pieces that matter.         *)
EXTENDS UnicodeText, TLC
CONSTANTS MaxPieces, MaxStrings
Pieces == {<<97>>, <<CR, LF>>, <<LF>>, <<CR>>, End, <<1>>, <<128512>>}
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
VARIABLES list, cur
Init == list = <<>> /\ cur = <<>>
Piece == /\ Len(cur) < MaxPieces /\ \E p \in Pieces : cur' = Append(cur, p)
         /\ UNCHANGED list
NextString == /\ Len(list) < MaxStrings /\ list' = Append(list, Stored(Flat(cur))) /\ cur' = <<>>
Next == Piece \/ NextString
Spec == Init /\ [][Next]_<<list, cur>>
(* what is stored is always proper, and compiles back from its text *)
Proper == Sound(list)
RoundTrip == Survives(list) => CompileCharacters(TextOf(list)) = <<list>>
(* the pieces taken as a text: what it compiles to survives as well; nothing is lost silently *)
Texts == LET t == Flat(cur) c == CompileCharacters(t)
         IN c # Refused => /\ Sound(c[1])
                           /\ (Survives(c[1]) => CompileCharacters(TextOf(c[1])) = c)
                           /\ (c = <<<<>>>> <=> TrimBlank(Lines(t)) = <<>>)
                           /\ CompileCharacters(t \o <<CR, LF>>) = c
(* cleaning settles at once *)
Settles == LET s == Clean(Flat(cur)) IN Clean(s) = s
=============================================================================
