--------------------------------- MODULE C28MC --------------------------------
(* Building and extracting as a machine: a small tag is made, built into a     *)
(* cache file, and taken out of it again; what comes out is what was made.     *)
(* Numbers are whole thousandths here, so that what Decimal does with digits   *)
(* is compared with what integers do.                                          *)
EXTENDS Extract, TLC
CONSTANTS Most, MaxSide, MaxLayers
DM == INSTANCE Decimal
NG == INSTANCE Nudge
MP == INSTANCE Mip
VARIABLES what, step, tag, file, got
vars == <<what, step, tag, file, got>>
Abs(n) == IF n < 0 THEN -n ELSE n
(* n / 10^k as decimal number, and back *)
RECURSIVE Dig(_)
Dig(n) == IF n < 10 THEN <<n>> ELSE Append(Dig(n \div 10), n % 10)
Num(n, k) == DM!Shift(<<n < 0, Dig(Abs(n)), <<>>>>, k)
RECURSIVE Whl(_, _)
Whl(d, acc) == IF d = <<>> THEN acc ELSE Whl(Tail(d), (10 * acc) + d[1])
Back(x, k) == LET v == Whl(x[2] \o x[3] \o [i \in 1..(k - Len(x[3])) |-> 0], 0) IN IF x[1] THEN -v ELSE v
Nums == -Most..Most
Engines == {[swizzled |-> TRUE, modulo |-> FALSE, apart |-> a, align |-> n, packed |-> TRUE] : a \in BOOLEAN, n \in {1, 4}}
Sides == {1, 2, 4, 8} \cap 1..MaxSide
Textures == {[w |-> w, h |-> h, d |-> d, type |-> ty, f |-> f, comp |-> f = "dxt1", swiz |-> z /\ f # "dxt1", ext |-> FALSE, mips |-> m, len |-> 0, map |-> <<>>, file |-> <<>>] :
             w \in Sides, h \in Sides, d \in Sides, ty \in {"2d", "3d", "cube"}, f \in {"a8", "dxt1"}, z \in BOOLEAN, m \in {0, 1, 5}}
Good(t) == (t.type # "3d" => t.d = 1) /\ (t.type = "cube" => t.w = t.h) /\ (t.swiz => Orderly(t, t.mips))
Length(e, t) == IF Apart(e, t) THEN 6 * Rounded(FaceBytes(t, t.mips), e.align) ELSE Rounded(Bytes(t, t.mips), e.align)
Hide(e, t) == LET n == Length(e, t) IN [t EXCEPT !.len = n, !.map = <<[i \in 1..n |-> i]>>]
Cells == {[count |-> c, layers |-> l] : c \in 0..1, l \in SUBSET (0..(MaxLayers - 1))}
Pals == [1..2 -> {<<>>, <<3>>, <<-8>>}]
Made ==
  \/ what = "sum" /\ \E a \in Nums, b \in Nums : tag = <<a, b>>
  \/ what = "rate" /\ \E a \in Nums, m \in {3, 7, 30} : tag = <<a, m>>
  \/ what = "power" /\ \E a \in 0..12, n \in 0..5 : tag = <<a, n>>
  \/ what = "weights" /\ \E n \in 1..3 : \E q \in [1..n -> 0..6] : (\E i \in 1..n : q[i] > 0) /\ tag = q
  \/ what = "samples" /\ \E n \in 0..3 : \E q \in [1..(2 * n) -> 0..1] : tag = q
  \/ what = "texels" /\ \E e \in Engines, t \in Textures : Good(t) /\ tag = [e |-> e, t |-> t]
  \/ what = "heights" /\ \E p \in Pals, c \in Cells, c2 \in Cells, n \in 0..3 : tag = [pal |-> p, o |-> [cells |-> <<c, c2>>, heights |-> [i \in 1..n |-> 10 * i]]]
Init == /\ what \in {"sum", "rate", "power", "weights", "samples", "texels", "heights"}
        /\ step = "made" /\ file = <<>> /\ got = <<>> /\ Made
RECURSIVE Total(_, _)
Total(q, n) == IF n = 0 THEN 0 ELSE q[n] + Total(q, n - 1)
Raise(pal, o) == [o EXCEPT !.heights = [v \in 1..Len(@) |-> @[v] + (@[v] - Lowered(pal, o)[v])]]
Build ==
  /\ step = "made" /\ step' = "built" /\ UNCHANGED <<what, tag, got>>
  /\ file' = CASE what = "sum" -> DM!Minus(Num(tag[1], 3), Num(-tag[2], 1))
               [] what = "rate" -> DM!Over(Num(tag[1], 3), tag[2])
               [] what = "power" -> DM!Pow(Num(tag[1], 1), tag[2])
               [] what = "weights" -> LET all == Total(tag, Len(tag)) IN [i \in 1..Len(tag) |-> IF i = Len(tag) THEN One ELSE DM!Over(Num(Total(tag, i), 0), all)]
               [] what = "samples" -> Swapped(tag)
               [] what = "texels" -> Hide(tag.e, tag.t)
               [] what = "heights" -> Raise(tag.pal, tag.o)
Take ==
  /\ step = "built" /\ step' = "taken" /\ UNCHANGED <<what, tag, file>>
  /\ got' = CASE what = "sum" -> DM!Minus(file, Num(tag[2], 1))
              [] what = "rate" -> DM!Times(file, tag[2])
              [] what = "power" -> file
              [] what = "weights" -> Shares(file)
              [] what = "samples" -> Swapped(file)
              [] what = "texels" -> Texels(tag.e, file)
              [] what = "heights" -> Lowered(tag.pal, file)
Spec == Init /\ [][Build \/ Take]_vars
Taken2 == step = "taken"
(* as near as the digits kept *)
Near(x, y) == LET d == DM!Minus(x, y) IN ~DM!Below(Num(1, 9), <<FALSE, d[2], d[3]>>)
SumsRight == what = "sum" => /\ (step # "made" => Back(file, 3) = tag[1] + (100 * tag[2]))
                             /\ (Taken2 => got = Num(tag[1], 3))
                             /\ DM!Below(Num(tag[1], 0), Num(tag[2], 0)) = (tag[1] < tag[2])
                             /\ (Back(DM!Minus(Num(tag[1], 3), Num(tag[2], 3)), 3) = tag[1] - tag[2])
RatesRight == what = "rate" => /\ Back(DM!Times(Num(tag[1], 2), tag[2]), 2) = tag[1] * tag[2]
                               /\ (Taken2 => Near(got, Num(tag[1], 3)))
                               /\ (Taken2 /\ tag[1] % tag[2] = 0 => file = Num((Abs(tag[1]) \div tag[2]) * (IF tag[1] < 0 THEN -1 ELSE 1), 3))
RECURSIVE IntPow(_, _)
IntPow(a, n) == IF n = 0 THEN 1 ELSE a * IntPow(a, n - 1)
PowersRight == what = "power" /\ Taken2 => file = Num(IntPow(tag[1], tag[2]), tag[2])
WeightsRight == what = "weights" =>
  /\ (step # "made" => Summed(file))
  /\ (Taken2 => \A i \in 1..Len(tag) : Near(DM!Times(got[i], Total(tag, Len(tag))), Num(tag[i], 0)))
SamplesRight == what = "samples" /\ Taken2 => got = tag /\ (tag # <<>> => CanSwap(file) /\ ~CanSwap(Tail(file)))
(* every texel comes out, once; when nothing was moved and nothing rounded up, as it was *)
TexelsRight == what = "texels" /\ Taken2 =>
  /\ CanTake(tag.e, file)
  /\ Len(got) = Bytes(file, file.mips) /\ Cardinality({got[i] : i \in 1..Len(got)}) = Len(got)
  /\ \A i \in 1..Len(got) : got[i] \in 1..file.len
  /\ (~file.swiz /\ file.type # "cube" => got = [i \in 1..Len(got) |-> i])
  /\ ~CanTake(tag.e, [file EXCEPT !.len = @ + tag.e.align])
  /\ ~CanTake(tag.e, [file EXCEPT !.map = <<>>])
  /\ (tag.e.align = 4 => ~CanTake(tag.e, [file EXCEPT !.len = @ + 1]))
(* the layers a cell has, up to where vectors are *)
HeightsRight == what = "heights" /\ Taken2 =>
  /\ got = tag.o.heights
  /\ CanLower(tag.o) = \A i \in 1..2 : LET c == tag.o.cells[i] IN c.layers = {} \/ c.count + Cardinality(c.layers) <= Len(tag.o.heights)
  /\ ((\A i \in 1..2 : tag.pal[i] = <<>>) => file = tag.o)
===============================================================================
