------------------------------- MODULE C17Trace -------------------------------
EXTENDS Mip, TraceBase
Total4(b) == BlockBytes(b.f) * Total(b.w, b.h, b.d, b.kind, BlockSide[b.f], b.count)
BadBitmap(b) == b.w = 0 \/ b.h = 0 \/ (b.kind = "3d" /\ b.d = 0)
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ CASE Rec.op = "mips" -> LET r == Rec IN
            /\ r.faces = FaceOrder(r.w, r.h, r.d, r.kind, r.bl, r.count)
            /\ r.texs = TextureOrder(r.w, r.h, r.d, r.kind, r.bl, r.count)
       [] Rec.op = "mips1" -> LET r == Rec  m == r.mip IN    \* a face in the middle of a large texture
            /\ m.mip <= LastMip(r.w, r.h, r.d, r.kind, r.count) /\ m.face < Faces(r.kind, r.d, m.mip)
            /\ m = Face(r.w, r.h, r.d, r.kind, r.bl, m.mip, m.face, MipStart(r.w, r.h, r.d, r.kind, r.bl, m.mip) + m.face * m.n)
            /\ r.total = Total(r.w, r.h, r.d, r.kind, r.bl, r.count)
       [] Rec.op = "of" -> IF BadBitmap(Rec) THEN Rec.out = "error"
                           ELSE Rec.out = "ok" /\ Rec.faces = FaceOrder(Rec.w, Rec.h, Rec.d, Rec.kind, BlockSide[Rec.f], Rec.count)
                                               /\ Rec.texs = TextureOrder(Rec.w, Rec.h, Rec.d, Rec.kind, BlockSide[Rec.f], Rec.count)
       [] Rec.op = "format" -> Rec.side = BlockSide[Rec.f] /\ Rec.bits = Bits[Rec.f] /\ Rec.bytes = BlockBytes(Rec.f)
       [] Rec.op = "swizzle" -> IF ~CanSwizzle(Rec.w, Rec.h, Rec.d) THEN Rec.out = "error"
            ELSE /\ Rec.out = "ok"
                 /\ \A i \in 1..Len(Rec.data) : Rec.swizzled[Place(Rec.w, Rec.h, Rec.d, i - 1) + 1] = Rec.data[i]
                 /\ \A i \in 1..Len(Rec.data) : Rec.deswizzled[i] = Rec.data[Place(Rec.w, Rec.h, Rec.d, i - 1) + 1]
                 /\ Rec.back = Rec.data
       [] Rec.op = "verify" -> \A i \in 1..Len(Rec.bitmaps) : LET b == Rec.bitmaps[i] IN
            Rec.flagged[i] = (BadBitmap(b) \/ b.offset > Rec.len \/ Total4(b) > Rec.len - b.offset)
=============================================================================
