------------------------------- MODULE C22Trace -------------------------------
EXTENDS Packed, TraceBase
W == 16
AllOk(q, Ok(_)) == \A i \in 1..Len(q) : Ok(q[i])
(* [id, index, salt, null, valid, checked, back, rebuilt]; numbers are halves *)
IdOk(e) == /\ e.index = IndexOf(W, e.id) /\ e.salt = SaltOf(W, e.id)
           /\ e.null = (e.id = Null(W)) /\ e.valid = Valid(W, e.id) /\ e.checked = Valid(W, e.id) /\ e.back = e.id
           /\ (Valid(W, e.id) => e.rebuilt = e.id)
MadeOk(e) == e.id = MakeId(W, e.index, e.salt)
IndexOk(e) == e.read = ReadIndex(W, e.n)
(* none is stored as all ones; there is no index of that number *)
StoredIndexOk(e) == IF e.v = Ones(W) THEN ~e.ok ELSE e.ok /\ e.n = (IF e.v = None THEN Ones(W) ELSE e.v)
(* a code, what it stands for (numerator, denominator) and what that is stored as *)
CodeOk(e) == Decode(Rec.bits, e.c) = e.v /\ e.exact /\ e.again = e.c
(* n / d, or less than half a step from 0, or beyond everything *)
NumOk(e) == CASE e.kind = "num" -> Nearest(Rec.bits, e.n, e.d, e.c)
              [] e.kind = "tiny" -> Decode(Rec.bits, e.c)[1] = 0
              [] e.kind = "huge" -> Decode(Rec.bits, e.c)[1] = e.n * Decode(Rec.bits, e.c)[2]
ColourOk(e) == /\ e.bytes = UnpackColour(e.v) /\ e.back = e.v /\ PackColour(e.bytes) = e.v
               /\ e.viafloat = e.v
               /\ e.opaque = PackColour(Y8(e.bytes[4])) /\ e.mono = PackColour(A8Y8(e.v[2]))
TextOk(e) == IF Fits32(e.s) THEN e.ok /\ e.read = UpTo0(e.s) /\ e.stored = Store32(e.s) ELSE ~e.ok
BytesOk(e) == LET t == Text32(e.b) IN e.read = t /\ e.stored = Store32(t)
NodeOk(e) == /\ e.i8 = Signed(e.v[2] % 256, 8) /\ e.bool = (e.v[2] % 256 # 0) /\ e.i16 = Signed(e.v[2], 16)
             /\ e.i32 = e.v /\ e.f32 = e.v /\ e.id = e.v
             /\ e.i8back = e.i8 /\ e.i16back = e.i16 /\ e.i32back = e.v /\ e.f32back = e.v /\ e.idback = e.v /\ e.boolback = e.bool
PadOk(e) == e.p = Padding(e.n, e.a)
(* stored by itself and thrice in a row, in either byte order, and read again *)
SizeOk(e) == e.size = Sizes[e.type] /\ e.array = 3 * Sizes[e.type] /\ e.same /\ e.short
Accepted == /\ ~Has(Rec, "crash")
            /\ CASE Rec.op = "id" -> AllOk(Rec.list, IdOk)
                 [] Rec.op = "made" -> AllOk(Rec.list, MadeOk)
                 [] Rec.op = "index" -> AllOk(Rec.list, IndexOk)
                 [] Rec.op = "stored" -> AllOk(Rec.list, StoredIndexOk)
                 [] Rec.op = "code" -> AllOk(Rec.list, CodeOk)
                 [] Rec.op = "num" -> AllOk(Rec.list, NumOk)
                 [] Rec.op = "colour" -> AllOk(Rec.list, ColourOk)
                 [] Rec.op = "text" -> TextOk(Rec)
                 [] Rec.op = "bytes" -> BytesOk(Rec)
                 [] Rec.op = "node" -> AllOk(Rec.list, NodeOk)
                 [] Rec.op = "pad" -> AllOk(Rec.list, PadOk)
                 [] Rec.op = "size" -> SizeOk(Rec)
===============================================================================
