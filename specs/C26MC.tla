-------------------------------- MODULE C26MC --------------------------------
(* Every kind of field, alone, doubled and in lists, holding every kind of     *)
(* number: what may come of a repair (IsRepaired) is determined but for the    *)
(* sign of a zero in colours, needs no further repair, and is what it was if   *)
(* there was nothing wrong.                                                    *)
EXTENDS Repair
Numbers == {<<0, 0, 0, 0>>, <<128, 0, 0, 0>>, <<63, 128, 0, 0>>, <<63, 128, 0, 1>>, <<63, 127, 255, 255>>, <<191, 128, 0, 0>>, <<128, 0, 0, 1>>, <<0, 0, 0, 1>>,
            <<127, 128, 0, 0>>, <<255, 128, 0, 0>>, <<127, 192, 0, 0>>, <<255, 128, 0, 1>>, <<127, 128, 1, 0>>, <<64, 0, 0, 0>>}
Kinds == {"float", "Vector2D", "ColorRGBFloat", "uint32"}
Field(t) == [k |-> "prim", t |-> t, form |-> "one", c |-> FALSE, x |-> FALSE, n |-> t]
VARIABLES kind, before, after
vars == <<kind, before, after>>
Init == /\ kind \in Kinds
        /\ before \in UNION {[1..n -> Numbers] : n \in 1..2}
        /\ after = <<>>
Repair == /\ after = <<>>
          /\ \E a \in [1..Len(before) -> Numbers] : PrimFixed(Field(kind), before, a) /\ after' = a
          /\ UNCHANGED <<kind, before>>
Again == /\ after # <<>>
         /\ before # after
         /\ before' = after
         /\ after' = <<>>
         /\ UNCHANGED kind
Next == Repair \/ Again
Spec == Init /\ [][Next]_vars
Flaw(v) == SomeOne(Field(kind), v, "nan") \/ SomeOne(Field(kind), v, "colour")
Same(a, b) == \A i \in 1..Len(a) : a[i] = b[i] \/ (IsZero(a[i]) /\ IsZero(b[i]))
NothingLeft == after # <<>> => ~Flaw(after)
NothingElse == after # <<>> /\ ~Flaw(before) => Same(before, after)
Possible == \E a \in [1..Len(before) -> Numbers] : PrimFixed(Field(kind), before, a)
Determined == \A a, b \in {x \in [1..Len(before) -> Numbers] : PrimFixed(Field(kind), before, x)} : Same(a, b)
=============================================================================
