-------------------------------- MODULE Plate --------------------------------
(* Colour plates: one picture that holds every image of a bitmap.              *)
(*                                                                              *)
(* The first pixels of the first row are the key: background, divider and       *)
(* (perhaps) padding colour. A row of nothing but divider begins a sequence;    *)
(* an image is a rectangle without background pixels in it, with background     *)
(* all around it. Images are kept as loose files, s<sequence>_<number> with the *)
(* extension of a kind of picture, next to a text file with the padding colour. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Blue == 255
Magenta == 16711935
MinOf(S) == CHOOSE m \in S : \A n \in S : m <= n
MaxOf(S) == CHOOSE m \in S : \A n \in S : m >= n

(* ---- loose files ---- *)
(* kinds of picture: what the samples of one pixel are *)
Samples == [grey |-> 1, greya |-> 2, rgb |-> 3, rgba |-> 4]
Kinds == DOMAIN Samples
(* an image: width, height, colours (0xRRGGBB) and opacities, row by row *)
Picture(f) ==
  LET n == Samples[f.kind]
      s == f.s
      S(i, k) == s[((i - 1) * n) + k]
      N == f.w * f.h
  IN TLCEval([w |-> f.w, h |-> f.h,
      rgb |-> [i \in 1..N |-> IF n <= 2 THEN S(i, 1) * 65793 ELSE (S(i, 1) * 65536) + (S(i, 2) * 256) + S(i, 3)],
      al |-> [i \in 1..N |-> CASE n = 2 -> S(i, 2) [] n = 4 -> S(i, 4) [] OTHER -> 255]])
Here(files, q, i) == \E k \in 1..Len(files) : files[k].seq = q /\ files[k].idx = i
RECURSIVE Count(_, _, _)
(* numbers 0, 1, .. of the sequence until one is missing *)
Count(files, q, i) == IF Here(files, q, i) THEN Count(files, q, i + 1) ELSE i
RECURSIVE Counts(_, _)
Counts(files, q) == LET n == Count(files, q, 0) IN IF n = 0 THEN <<>> ELSE <<n>> \o Counts(files, q + 1)
RECURSIVE Places(_, _)
Places(counts, q) == IF q > Len(counts) THEN <<>> ELSE [i \in 1..counts[q] |-> <<q - 1, i - 1>>] \o Places(counts, q + 1)
(* the files in order: any of those of a place that has several *)
IsOrder(files, order) ==
  LET p == Places(Counts(files, 0), 1)
  IN /\ Len(order) = Len(p)
     /\ \A i \in 1..Len(p) : LET f == files[order[i]] IN f.seq = p[i][1] /\ f.idx = p[i][2]
RECURSIVE Group(_, _, _)
Group(list, counts, q) ==
  IF q > Len(counts) THEN <<>> ELSE <<SubSeq(list, 1, counts[q])>> \o Group(SubSeq(list, counts[q] + 1, Len(list)), counts, q + 1)

(* ---- the padding colour: #RGB or #RRGGBB, white space around it ignored ---- *)
Space == {9, 10, 11, 12, 13, 32}
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ s[1] \in Space THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in Space THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Hex(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> -1
Padding(text) ==
  LET t == TrimR(TrimL(text))
      d == [i \in 1..(Len(t) - 1) |-> Hex(t[i + 1])]
  IN IF Len(t) \notin {4, 7} \/ t[1] # 35 \/ (\E i \in 1..Len(d) : d[i] < 0) THEN -1
     ELSE IF Len(t) = 4 THEN (d[1] * 1114112) + (d[2] * 4352) + (d[3] * 17)
     ELSE (d[1] * 1048576) + (d[2] * 65536) + (d[3] * 4096) + (d[4] * 256) + (d[5] * 16) + d[6]

(* ---- reading a plate ---- *)
Rgb(p, x, y) == p.rgb[(y * p.w) + x + 1]
Alpha(p, x, y) == p.al[(y * p.w) + x + 1]
Back(p) == Rgb(p, 0, 0)
Divider(p) == Rgb(p, 1, 0)
Pad(p) == IF Rgb(p, 2, 0) = Back(p) THEN -1 ELSE Rgb(p, 2, 0)
Keyed(p) ==
  /\ p.w >= 4 /\ p.h >= 1 /\ Len(p.rgb) = p.w * p.h /\ Len(p.al) = p.w * p.h
  /\ Back(p) # Divider(p) /\ Pad(p) # Divider(p)
  /\ \A x \in 3..(p.w - 1) : Rgb(p, x, 0) = Back(p)
Cut(p, x0, x1, y0, y1) ==
  LET w == x1 - x0 + 1  h == y1 - y0 + 1
      X(i) == x0 + ((i - 1) % w)  Y(i) == y0 + ((i - 1) \div w)
  IN TLCEval([w |-> w, h |-> h, rgb |-> [i \in 1..(w * h) |-> Rgb(p, X(i), Y(i))], al |-> [i \in 1..(w * h) |-> Alpha(p, X(i), Y(i))]])
(* the rectangles between rows a and b, from left to right *)
Rectangles(p, a, b) ==
  LET bg == Back(p)
      used == {x \in 0..(p.w - 1) : \E y \in a..b : Rgb(p, x, y) # bg}
      starts == {x \in used : x - 1 \notin used}
      Nth(i) == CHOOSE x \in starts : Cardinality({y \in starts : y < x}) = i - 1
      EndOf(x) == MinOf({e \in used : e >= x /\ e + 1 \notin used})
      Bounds(x) == LET e == EndOf(x)
                       rows == {y \in a..b : \E c \in x..e : Rgb(p, c, y) # bg}
                   IN <<x, e, MinOf(rows), MaxOf(rows)>>
      One(x) == CHOOSE m \in {Cut(p, r[1], r[2], r[3], r[4]) : r \in {Bounds(x)}} : TRUE
  IN [i \in 1..Cardinality(starts) |-> One(Nth(i))]
DividerRows(p) == {y \in 1..(p.h - 1) : \A x \in 0..(p.w - 1) : Rgb(p, x, y) = Divider(p)}
(* (values are bound by sets of one so that they are worked out once) *)
Read(p) ==
  LET Sorted(rows) == [i \in 1..Cardinality(rows) |-> CHOOSE y \in rows : Cardinality({z \in rows : z < y}) = i - 1]
      Blocks(s) == [i \in 1..Len(s) |-> <<s[i] + 1, IF i = Len(s) THEN p.h - 1 ELSE s[i + 1] - 1>>]
      Only(S) == CHOOSE v \in S : TRUE
  IN Only({[i \in 1..Len(bs) |-> Only({Rectangles(p, b[1], b[2]) : b \in {bs[i]}})] : bs \in {Blocks(s) : s \in {Sorted(rows) : rows \in {DividerRows(p)}}}})
Painted(images, c) == \E q \in 1..Len(images) : \E i \in 1..Len(images[q]) : LET m == images[q][i].rgb IN \E k \in 1..Len(m) : m[k] = c
(* the plate holds these images (and nothing else), with that padding colour (-1: none) *)
IsPlate(p, images, padding) ==
  LET Used(c) == c = padding \/ Painted(images, c)
  IN /\ Keyed(p)
     /\ Pad(p) = padding
     /\ ~Used(Back(p)) /\ ~Used(Divider(p))
     /\ (~Used(Blue) => Back(p) = Blue)
     /\ (~Used(Magenta) => Divider(p) = Magenta)
     /\ LET rows == DividerRows(p) IN rows # {} => \A y \in 1..(MinOf(rows) - 1) : \A x \in 0..(p.w - 1) : Rgb(p, x, y) = Back(p)
     /\ Read(p) = images
==============================================================================
