-------------------------------- MODULE C18MC --------------------------------
(* Building a plate step by step: images are added to the last sequence or to  *)
(* a new one; then colours for the key are chosen and everything is painted.   *)
(* A reader who knows nothing but the format finds exactly those images.       *)
EXTENDS Plate, TLC
CONSTANTS MaxW, MaxH, MaxSeqs, MaxImages
VARIABLES images, plate
vars == <<images, plate>>
None == [w |-> 0]
Paint == {Blue, Magenta}
Sizes == {<<w, h>> \in (1..MaxW) \X (1..MaxH) : w * h <= 2}
Pics == UNION {{[w |-> s[1], h |-> s[2], rgb |-> c, al |-> [i \in 1..(s[1] * s[2]) |-> 255]] : c \in [1..(s[1] * s[2]) -> Paint]} : s \in Sizes}
RECURSIVE SumW(_)
SumW(q) == IF q = <<>> THEN 0 ELSE q[1].w + 2 + SumW(Tail(q))
High(q) == MaxOf({q[i].h : i \in 1..Len(q)}) + 3
RECURSIVE SumH(_)
SumH(qs) == IF qs = <<>> THEN 0 ELSE High(qs[1]) + SumH(Tail(qs))
Build(qs, bg, dv, pad) ==
  LET w == MaxOf({4} \cup {SumW(qs[k]) : k \in 1..Len(qs)})
      h == 1 + SumH(qs)
      Top(k) == 1 + SumH(SubSeq(qs, 1, k - 1))
      Left(k, i) == 1 + SumW(SubSeq(qs[k], 1, i - 1))
      At2(x, y) ==
        IF y = 0 THEN (CASE x = 1 -> dv [] x = 2 /\ pad >= 0 -> pad [] OTHER -> bg)
        ELSE IF \E k \in 1..Len(qs) : y = Top(k) THEN dv
        ELSE LET in == {<<k, i>> \in (1..Len(qs)) \X (1..MaxImages) :
                          i <= Len(qs[k]) /\ x \in Left(k, i)..(Left(k, i) + qs[k][i].w - 1) /\ y \in (Top(k) + 2)..(Top(k) + 1 + qs[k][i].h)}
             IN IF in = {} THEN bg
                ELSE LET ki == CHOOSE p \in in : TRUE  m == qs[ki[1]][ki[2]]
                     IN m.rgb[((y - Top(ki[1]) - 2) * m.w) + (x - Left(ki[1], ki[2])) + 1]
  IN [w |-> w, h |-> h, rgb |-> [n \in 1..(w * h) |-> At2((n - 1) % w, (n - 1) \div w)], al |-> [n \in 1..(w * h) |-> 255]]
Init == images = <<>> /\ plate = None
AddImage(m) == images # <<>> /\ Len(images[Len(images)]) < MaxImages /\ images' = [images EXCEPT ![Len(images)] = Append(@, m)] /\ UNCHANGED plate
NewSequence(m) == Len(images) < MaxSeqs /\ images' = Append(images, <<m>>) /\ UNCHANGED plate
Others == {0, 16777215}
Finish(pad) ==
  LET used == {c \in {Blue, Magenta} \cup Others : Painted(images, c)} \cup {pad}
  IN /\ images # <<>>
     /\ \E bg \in (IF Blue \notin used THEN {Blue} ELSE Others), dv \in (IF Magenta \notin used THEN {Magenta} ELSE Others) :
          bg # dv /\ bg \notin used /\ dv \notin used /\ plate' = Build(images, bg, dv, pad)
     /\ UNCHANGED images
Next == plate = None /\ (\/ \E m \in Pics : AddImage(m) \/ NewSequence(m)
                         \/ \E pad \in {-1, Blue, Magenta, 77} : Finish(pad))
Spec == Init /\ [][Next]_vars
Kept == plate # None => IsPlate(plate, images, Pad(plate)) /\ Read(plate) = images
==============================================================================
