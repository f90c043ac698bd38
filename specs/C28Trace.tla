------------------------------- MODULE C28Trace -------------------------------
EXTENDS Extract, TraceBase
MT == INSTANCE ModelTag WITH VBits <- <<11, 11, 10>>, FBits <- 16, MaxNodes <- 42, LocalNodes <- 22
Group == Rec.g
Ctx == Rec.ctx
Layer(o) == [o EXCEPT !.cells = [k \in 1..Len(@) |-> [start |-> @[k].start, count |-> @[k].count, layers |-> {@[k].bits[i] : i \in 1..Len(@[k].bits)}]]]
Layered(b) == [b EXCEPT !.objs = [i \in 1..Len(@) |-> Layer(@[i])]]
Possible ==
  /\ CASE Group = "bitmap" -> CanTakeAll(Ctx.eng, Rec.raw)
       [] Group = "sound" -> Playable(Rec.raw)
       [] Group = "scenario" -> NodesThere(Rec.raw)
       [] Group = "unicode_string_list" -> Readable(Ctx.fonts)
       [] Group \in {"model", "gbxmodel"} -> CanTakeModel(Rec.raw, Rec.parts)
       [] Group = "scenario_structure_bsp" -> CanTakeBsp(Layered(Rec.raw))
       [] OTHER -> TRUE
  /\ (Group \in MT!Objects => \A i \in 1..Len(Rec.w) : Summed(Rec.w[i]))
Number(f) ==
  IF f.p \in Scaled(Group) THEN Restored(Group, f)
  ELSE IF f.p = Bullet /\ Patched(Ctx, Group, Rec.name) THEN f.b = One ELSE f.b = f.a
Right ==
  /\ Rec.same
  /\ \A i \in 1..Len(Rec.fl) : Number(Rec.fl[i])
  /\ IF Group \in MT!Objects THEN Len(Rec.w2) = Len(Rec.w) /\ \A i \in 1..Len(Rec.w) : Unsummed(Rec.w[i], Rec.w2[i]) ELSE Rec.w2 = Rec.w
  /\ CASE Group = "bitmap" -> IsBitmap(Ctx.eng, Rec.raw, Rec.got)
       [] Group = "sound" -> Rec.got = Samples(Rec.raw)
       [] Group = "scenario" -> Rec.got = Flipped(Rec.raw)
       [] Group = "weapon" -> Rec.got = Triggers(Ctx, Rec.name, Rec.raw)
       [] Group \in {"model", "gbxmodel"} -> IsModel(Rec.raw, Rec.parts, Ctx.eng.packed, Rec.got, Rec.tris)
       [] Group = "scenario_structure_bsp" -> IsBsp(Ctx.pal, Layered(Rec.raw), Layered(Rec.got))
       [] OTHER -> TRUE
Accepted == ~Has(Rec, "crash") /\ IF Rec.unread THEN ~Rec.ok ELSE Rec.ok = Possible /\ (Rec.ok => Right)
===============================================================================
