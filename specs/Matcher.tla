------------------------------- MODULE Matcher -------------------------------
(* C13.  Field matchers.  A tag is a tree of nodes; a matcher is a string:    *)
(* names separated by dots, each followed by any number of [subscripts].      *)
(* The meaning of a matcher is the sequence of events its visitor sees: the   *)
(* paths of the nodes it describes, or errors.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Layout == JsonDeserialize("layout.json")
Structs == Layout.structs
BitFields == Layout.bitfields
Char(m, i) == SubSeq(m, i, i)
From(m, i) == SubSeq(m, i, Len(m))
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitValue == [d \in Digit |-> CHOOSE n \in 0..9 : ToString(n) = d]

------------------------------------------------------------------ \* ranges
RECURSIVE Split(_, _)
Split(m, c) == LET at == {i \in 1..Len(m) : Char(m, i) = c}
               IN IF at = {} THEN <<m>> ELSE <<SubSeq(m, 1, Min(at) - 1)>> \o Split(From(m, Min(at) + 1), c)
RECURSIVE NoZeros(_)
NoZeros(m) == IF Len(m) > 1 /\ Char(m, 1) = "0" THEN NoZeros(From(m, 2)) ELSE m
RECURSIVE Value(_, _)
Value(m, i) == IF i = 0 THEN 0 ELSE 10 * Value(m, i - 1) + DigitValue[Char(m, i)]
(* a position: -1 if it is none (too large ones are out of bounds anyway) *)
Position(m, len) ==
  IF m = "e" THEN len - 1
  ELSE IF m = "" \/ \E i \in 1..Len(m) : Char(m, i) \notin Digit THEN -1
  ELSE IF Len(NoZeros(m)) > 6 THEN -1 ELSE Value(m, Len(m))
(* the positions that a range selects; {-1}: it is not a valid one *)
Invalid == {-1}
Range(m, len) ==
  IF m = "*" THEN 0..(len - 1)
  ELSE LET ps == Split(m, "-")
           a == Position(ps[1], len)
           b == Position(ps[Len(ps)], len)
       IN IF len = 0 \/ Len(ps) > 2 \/ a < 0 \/ b < 0 \/ a > b \/ b >= len THEN Invalid ELSE a..b
Selected(m, len) == LET rs == Split(m, ",") s == [i \in 1..Len(rs) |-> Range(rs[i], len)]
                    IN IF \E i \in 1..Len(rs) : s[i] = Invalid THEN Invalid ELSE UNION {s[i] : i \in 1..Len(rs)}

------------------------------------------------------------------- \* nodes
Elem(f, v) == [t |-> IF f.k \in {"struct", "bits", "refl"} THEN f.k ELSE "leaf", f |-> f, v |-> v]
FieldNode(f, v) == IF f.form = "one" THEN Elem(f, v) ELSE [t |-> f.form, f |-> f, v |-> v]
Root(s, v) == [t |-> "struct", f |-> [s |-> s], v |-> v]
Part(n, i) == IF n.v = <<>> THEN <<>> ELSE n.v[i]
None == [t |-> "none"]
Child(n, name) ==
  CASE n.t = "struct" -> LET fs == Structs[n.f.s].fields  at == {i \in 1..Len(fs) : fs[i].n = name /\ ~fs[i].x /\ fs[i].k # "pad"}
                         IN IF at = {} THEN None ELSE FieldNode(fs[Min(at)], n.v[Min(at)])
    [] n.t = "bits" -> LET fs == BitFields[n.f.s].fields IN IF \E i \in 1..Len(fs) : fs[i].n = name /\ ~fs[i].x THEN [t |-> "leaf", f |-> n.f, v |-> <<>>] ELSE None
    [] n.t = "bounds" -> IF name = "lower" THEN Elem(n.f, Part(n, 1)) ELSE IF name = "upper" THEN Elem(n.f, Part(n, 2)) ELSE None
    [] OTHER -> None
(* how many items there are to subscript; -1: it is no array *)
Items(n) == CASE n.t = "refl" -> Len(n.v) [] n.t = "bounds" -> 2 [] n.t = "array" -> n.f.cnt [] OTHER -> -1
Item(n, i) == IF n.t = "refl" THEN [t |-> "struct", f |-> n.f, v |-> n.v[i + 1]] ELSE Elem(n.f, Part(n, i + 1))
ItemName(n, i) == IF n.t = "bounds" THEN (IF i = 0 THEN "lower" ELSE "upper") ELSE "[" \o ToString(i) \o "]"

-------------------------------------------------------------------- \* walk
Error == <<[ok |-> FALSE, p |-> <<>>]>>
RECURSIVE Walk(_, _, _)
RECURSIVE WalkItems(_, _, _, _, _)
WalkItems(n, p, sel, i, m) ==
  IF \A j \in sel : j < i THEN <<>>
  ELSE LET k == Min({j \in sel : j >= i}) IN Walk(Item(n, k), Append(p, ItemName(n, k)), m) \o WalkItems(n, p, sel, k + 1, m)
Walk(n, p, m) ==
  IF m = "" THEN <<[ok |-> TRUE, p |-> p]>>
  ELSE IF Char(m, 1) = "." THEN Error
  ELSE IF Char(m, 1) = "[" THEN
    LET close == {i \in 1..Len(m) : Char(m, i) = "]"} IN
    IF Items(n) < 0 \/ close = {} THEN Error
    ELSE LET e == Min(close)
             sel == Selected(SubSeq(m, 2, e - 1), Items(n))
             next == From(m, IF e < Len(m) /\ Char(m, e + 1) = "." THEN e + 2 ELSE e + 1)
         IN IF sel = Invalid THEN Error ELSE WalkItems(n, p, sel, 0, next)
  ELSE LET stop == {i \in 1..Len(m) : Char(m, i) \in {".", "["}}
           e == IF stop = {} THEN Len(m) ELSE Min(stop) - 1
           name == SubSeq(m, 1, e)
           next == From(m, IF e < Len(m) /\ Char(m, e + 1) = "." THEN e + 2 ELSE e + 1)
           c == Child(n, name)
       IN IF c = None THEN Error ELSE Walk(c, Append(p, name), next)
(* odd ones that are understood nonetheless: a dot at the end or before a     *)
(* subscript, no dot after a subscript                                        *)
Odd(m) == \/ m # "" /\ Char(m, Len(m)) = "."
          \/ \E i \in 1..(Len(m) - 1) : Char(m, i) = "." /\ Char(m, i + 1) = "["
          \/ \E i \in 1..(Len(m) - 1) : Char(m, i) = "]" /\ Char(m, i + 1) \notin {".", "["}
(* the visitor stops at its k-th event (0: never) *)
Until(es, k) == IF k = 0 \/ k >= Len(es) THEN es ELSE SubSeq(es, 1, k)
AllOk(es) == \A i \in 1..Len(es) : es[i].ok
===============================================================================
