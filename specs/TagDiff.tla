------------------------------- MODULE TagDiff -------------------------------
(* C14.  Where two values of a structure differ: a sequence of [p, d]: path   *)
(* and depth, in order of fields.  Numbers with a fraction are compared as    *)
(* such: both zeros are the same, what is not a number differs from itself.   *)
EXTENDS TagCodec, TLC
IsNaN(c) == c[1] % 128 = 127 /\ c[2] >= 128 /\ (c[2] > 128 \/ c[3] # 0 \/ c[4] # 0)
IsZero(c) == c[1] % 128 = 0 /\ c[2] = 0 /\ c[3] = 0 /\ c[4] = 0
SameFloat(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ (a = b \/ (IsZero(a) /\ IsZero(b)))
SamePrim(f, a, b) == IF f.t \in FloatTypes THEN \A i \in 1..Len(a) : SameFloat(a[i], b[i]) ELSE a = b
At1(p, d) == <<[p |-> p, d |-> d]>>
Dot(p, n) == IF p = "" THEN n ELSE p \o "." \o n
Sub(p, i) == p \o "[" \o ToString(i - 1) \o "]"
Members(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE DiffStruct(_, _, _, _, _, _, _)
RECURSIVE DiffItems(_, _, _, _, _, _, _)
RECURSIVE DiffBits(_, _, _, _, _, _, _)
(* more than one difference in a list of several items becomes one *)
Brief(es, many, p, d, short) == IF short /\ many /\ Len(es) > 1 THEN At1(p, d) ELSE es
DiffOne(f, a, b, p, d, all, short) ==
  CASE f.k = "prim" -> IF SamePrim(f, a, b) THEN <<>> ELSE At1(p, d)
    [] f.k = "struct" -> DiffStruct(f.s, a, b, p, d, all, short)
    [] f.k = "bits" -> DiffBits(f.s, 1, Members(a), Members(b), p, d, all)
    [] f.k = "refl" -> (IF Len(a) # Len(b) THEN At1(p, d) ELSE <<>>) \o DiffItems([f EXCEPT !.k = "struct"], 1, a, b, p, d, <<all, short>>)
    [] OTHER -> IF a = b THEN <<>> ELSE At1(p, d)
DiffBits(s, i, a, b, p, d, all) ==
  LET fs == Bits[s].fields IN
  IF i > Len(fs) THEN <<>>
  ELSE (IF fs[i].x \/ (fs[i].c /\ ~all) \/ ((i - 1) \in a <=> (i - 1) \in b) THEN <<>> ELSE At1(Dot(p, fs[i].n), d + 1)) \o DiffBits(s, i + 1, a, b, p, d, all)
DiffItems(f, i, a, b, p, d, o) ==
  IF i > Len(a) \/ i > Len(b) THEN <<>> ELSE DiffOne(f, a[i], b[i], Sub(p, i), d + 1, o[1], o[2]) \o DiffItems(f, i + 1, a, b, p, d, o)
DiffField(f, a, b, p, d, all, short) ==
  IF f.form = "bounds" THEN Brief(DiffOne(f, a[1], b[1], Dot(p, "lower"), d + 1, all, short) \o DiffOne(f, a[2], b[2], Dot(p, "upper"), d + 1, all, short), TRUE, p, d, short)
  ELSE IF f.form = "array" THEN Brief(DiffItems(f, 1, a, b, p, d, <<all, short>>), f.cnt > 1, p, d, short)
  ELSE IF f.k = "refl" THEN Brief(DiffOne(f, a, b, p, d, all, short), Len(a) > 1, p, d, short)
  ELSE DiffOne(f, a, b, p, d, all, short)
Seen(f, all) == f.k # "pad" /\ ~f.x /\ (~f.c \/ all)
RECURSIVE DiffFields(_, _, _, _, _, _, _)
DiffFields(fs, i, a, b, p, d, o) ==
  IF i > Len(fs) THEN <<>>
  ELSE (IF Seen(fs[i], o[1]) /\ (a[i] # b[i] \/ fs[i].k \in {"prim", "struct", "refl"}) THEN DiffField(fs[i], a[i], b[i], Dot(p, fs[i].n), d + 1, o[1], o[2]) ELSE <<>>)
       \o DiffFields(fs, i + 1, a, b, p, d, o)
DiffStruct(s, a, b, p, d, all, short) == DiffFields(Structs[s].fields, 1, a, b, p, d, <<all, short>>)
Diff(g, a, b, all, short) == DiffStruct(Groups[g].struct, a, b, "", 0, all, short)
==============================================================================
