------------------------------ MODULE C29Trace ------------------------------
EXTENDS Recover, TraceBase
Out == Rec.out
Got == {Rec.got[i] : i \in 1..Len(Rec.got)}
Scripts ==
  IF Rec.files = <<>> THEN Out = "none"
  ELSE IF ~Nameable(Rec.files) THEN Out = "error"
  ELSE Out = "ok" /\ Len(Rec.got) = Len(Rec.files) /\ Got = Sources(Rec.path, Rec.files)
Right == Out = "ok" /\ Rec.name = Base(Rec.path) \o Tif /\ Rec.pic = Picture(Rec)
Plate ==
  IF ~Stored(Rec) THEN Out = "none"
  ELSE IF ~Honest(Rec) THEN Out = "error"
  ELSE CASE Rec.damage = "none" -> (IF Whole(Rec) THEN Right
                                    ELSE IF Len(Rec.raw) < Rec.head THEN Out = "error"
                                    ELSE Out \in {"error", "ok"})
         [] Rec.damage = "cut" -> Out = "error"
         [] OTHER -> Out \in {"error", "ok"}
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ CASE Rec.op = "scripts" -> Scripts
       [] Rec.op = "plate" -> Plate
       [] Rec.op = "groups" -> Rec.can = (Rec.g \in {"bitmap", "scenario", "unicode_string_list"})
=============================================================================
