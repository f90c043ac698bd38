-------------------------------- MODULE Anim --------------------------------
(* C25.  The frame data of an animation: for every frame and every node its   *)
(* rotation, position and scale, each only where the node has one of its own; *)
(* the default data is laid out the same way with what the frames leave out.  *)
(* In cache files all of it is stored low byte first, in tags high byte first.*)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* flags: two 32-bit words as 16-bit pieces, the lowest first *)
Bit(m, i) == i < 64 /\ ((m[(i \div 16) + 1] \div Pow2(i % 16)) % 2) = 1
Own(a, k, i) == Bit(IF k = "rotate" THEN a.rot ELSE IF k = "transform" THEN a.pos ELSE a.scale, i)
Kinds == <<"rotate", "transform", "scale">>
(* the widths of the numbers in each *)
Parts == [rotate |-> <<2, 2, 2, 2>>, transform |-> <<4, 4, 4>>, scale |-> <<4>>]
Width == [rotate |-> 8, transform |-> 12, scale |-> 4]
Nodes(a) == IF a.nodes < 64 THEN a.nodes ELSE 64
Here(a, i, inverted) == SelectSeq(Kinds, LAMBDA k : Own(a, k, i) # inverted)
RECURSIVE Walk(_, _, _)
Walk(a, i, inverted) == IF i >= Nodes(a) THEN <<>> ELSE Here(a, i, inverted) \o Walk(a, i + 1, inverted)
(* beyond the 64th node there are no flags: such a node has nothing of its own, and no defaults either *)
Order(a) == Walk(a, 0, FALSE)
Rest(a) == Walk(a, 0, TRUE)
RECURSIVE SizeOf(_)
SizeOf(w) == IF w = <<>> THEN 0 ELSE Width[w[1]] + SizeOf(Tail(w))
RECURSIVE Widths(_)
Widths(w) == IF w = <<>> THEN <<>> ELSE Parts[w[1]] \o Widths(Tail(w))

Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
(* each number turned round; what lies behind them stays *)
RECURSIVE Turned(_, _, _)
Turned(b, ws, at) == IF ws = <<>> THEN SubSeq(b, at + 1, Len(b)) ELSE Rev(SubSeq(b, at + 1, at + ws[1])) \o Turned(b, Tail(ws), at + ws[1])
RECURSIVE Frames(_, _, _, _)
Frames(b, ws, size, n) == IF n = 0 THEN b ELSE Turned(SubSeq(b, 1, size), ws, 0) \o Frames(SubSeq(b, size + 1, Len(b)), ws, size, n - 1)
InfoFields == [none |-> 0, dx_dy |-> 2, dx_dy_dyaw |-> 3, dx_dy_dz_dyaw |-> 4]
Zeros(n) == [i \in 1..n |-> 0]

(* what extracting makes of it *)
Moved(a) ==
  IF ~a.compressed THEN a
  ELSE LET n == SizeOf(Order(a)) * a.frames
       IN [a EXCEPT !.data = Zeros(n) \o @, !.offset = n, !.default = Zeros(SizeOf(Rest(a)))]
Fine(a) ==
  /\ a.nodes <= 64
  /\ Len(a.info) = IF a.kind = "none" THEN 0 ELSE 4 * InfoFields[a.kind] * a.frames
  /\ IF a.compressed THEN TRUE ELSE Len(a.data) = SizeOf(Order(a)) * a.frames /\ Len(a.default) = SizeOf(Rest(a))
Extracted(a0) ==
  LET a == Moved(a0)
      w == Widths(Order(a))
      k == InfoFields[a.kind]
  IN [a EXCEPT !.info = IF k = 0 THEN @ ELSE Frames(@, [i \in 1..k |-> 4], 4 * k, a.frames),
               !.data = IF w = <<>> THEN @ ELSE Frames(@, w, SizeOf(Order(a)), a.frames),
               !.default = Turned(@, Widths(Rest(a)), 0)]
=============================================================================
