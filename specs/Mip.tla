--------------------------------- MODULE Mip ---------------------------------
(* C17.  Textures: the order in which mipmaps are stored, and where the       *)
(* texels of swizzled textures are.  Kinds: "2d", "3d", "cube".  Sizes are in *)
(* blocks of bl x bl texels.                                                  *)
EXTENDS Integers, Sequences
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Halved(_, _)
Halved(x, k) == IF k = 0 THEN x ELSE Halved(Max(x \div 2, 1), k - 1)
RECURSIVE Steps(_)
Steps(x) == IF x = 1 THEN 0 ELSE 1 + Steps(x \div 2)
Depth(kind, d) == IF kind = "3d" THEN d ELSE 1
(* the last mipmap: as many as are declared (-1: no limit), never past 1x1x1 *)
LastMip(w, h, d, kind, count) == LET m == Steps(Max(Max(w, h), Depth(kind, d))) IN IF count < 0 \/ count > m THEN m ELSE count
Faces(kind, d, k) == IF kind = "cube" THEN 6 ELSE Halved(Depth(kind, d), k)
Blocks(x, bl) == (x + bl - 1) \div bl
Face(w, h, d, kind, bl, k, f, off) ==
  [mip |-> k, face |-> f, w |-> Halved(w, k), h |-> Halved(h, k), d |-> Halved(Depth(kind, d), k), off |-> off,
   bw |-> Blocks(Halved(w, k), bl), bh |-> Blocks(Halved(h, k), bl), n |-> Blocks(Halved(w, k), bl) * Blocks(Halved(h, k), bl)]
MipSize(w, h, d, kind, bl, k) == Blocks(Halved(w, k), bl) * Blocks(Halved(h, k), bl) * Faces(kind, d, k)
RECURSIVE MipStart(_, _, _, _, _, _)
MipStart(w, h, d, kind, bl, k) == IF k = 0 THEN 0 ELSE MipStart(w, h, d, kind, bl, k - 1) + MipSize(w, h, d, kind, bl, k - 1)
Total(w, h, d, kind, bl, count) == MipStart(w, h, d, kind, bl, LastMip(w, h, d, kind, count) + 1)
RECURSIVE FacesFrom(_, _, _, _, _, _, _)
FacesFrom(w, h, d, kind, bl, k, last) ==
  IF k > last THEN <<>>
  ELSE LET s == MipStart(w, h, d, kind, bl, k)  one == Blocks(Halved(w, k), bl) * Blocks(Halved(h, k), bl) IN
       [i \in 1..Faces(kind, d, k) |-> Face(w, h, d, kind, bl, k, i - 1, s + (i - 1) * one)] \o FacesFrom(w, h, d, kind, bl, k + 1, last)
FaceOrder(w, h, d, kind, bl, count) == FacesFrom(w, h, d, kind, bl, 0, LastMip(w, h, d, kind, count))
TextureOrder(w, h, d, kind, bl, count) ==
  [i \in 1..(LastMip(w, h, d, kind, count) + 1) |->
     [Face(w, h, d, kind, bl, i - 1, 0, MipStart(w, h, d, kind, bl, i - 1)) EXCEPT !.n = MipSize(w, h, d, kind, bl, i - 1)]]

(* texels per side of a block, bits per texel *)
BlockSide == [dxt1 |-> 4, dxt3 |-> 4, dxt5 |-> 4, bc7 |-> 4, a8 |-> 1, y8 |-> 1, ay8 |-> 1, a8y8 |-> 1, r5g6b5 |-> 1, a1r5g5b5 |-> 1, a4r4g4b4 |-> 1, x8r8g8b8 |-> 1, a8r8g8b8 |-> 1, p8 |-> 1]
Bits == [dxt1 |-> 4, dxt3 |-> 8, dxt5 |-> 8, bc7 |-> 8, a8 |-> 8, y8 |-> 8, ay8 |-> 8, a8y8 |-> 16, r5g6b5 |-> 16, a1r5g5b5 |-> 16, a4r4g4b4 |-> 16, x8r8g8b8 |-> 32, a8r8g8b8 |-> 32, p8 |-> 8]
BlockBytes(f) == (BlockSide[f] * BlockSide[f] * Bits[f]) \div 8

(* swizzling: square tiles along the longer side; within a tile (and within a *)
(* cube) the bits of x, y (and z) take turns, starting with the lowest of x   *)
RECURSIVE Morton2(_, _)
Morton2(x, y) == IF x = 0 /\ y = 0 THEN 0 ELSE (x % 2) + 2 * (y % 2) + 4 * Morton2(x \div 2, y \div 2)
RECURSIVE Morton3(_, _, _)
Morton3(x, y, z) == IF x = 0 /\ y = 0 /\ z = 0 THEN 0 ELSE (x % 2) + 2 * (y % 2) + 4 * (z % 2) + 8 * Morton3(x \div 2, y \div 2, z \div 2)
RECURSIVE IsPow2(_)
IsPow2(x) == x = 1 \/ (x > 1 /\ x % 2 = 0 /\ IsPow2(x \div 2))
CanSwizzle(w, h, d) == IsPow2(w) /\ IsPow2(h) /\ IsPow2(d) /\ (d > 1 => w = h /\ h = d)
Swizzled(w, h, d, x, y, z) ==
  IF d > 1 THEN Morton3(x, y, z)
  ELSE IF w < h THEN (y \div w) * w * w + Morton2(x, y % w) ELSE (x \div h) * h * h + Morton2(x % h, y)
(* where the i-th texel (by rows, by slices) is found in the swizzled texture *)
Place(w, h, d, i) == Swizzled(w, h, d, i % w, (i \div w) % h, i \div (w * h))
==============================================================================
