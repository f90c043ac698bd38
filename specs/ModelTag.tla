------------------------------ MODULE ModelTag ------------------------------
(* C24.  Models: indices that must name something, what is wrong with a model,*)
(* repairing it, compressing its vertices, and turning one kind of model into *)
(* the other.                                                                 *)
(* A model m is [gbx, local, blend, ignore, nodes, regions, geoms, rt,        *)
(* shaders, cut]; a missing index is -1, all others count from 0.  A number   *)
(* is <<e, c>>: e eighths (NoE: not a short one), c the code it is the value  *)
(* of (-1: none).                                                             *)
EXTENDS Packed
CONSTANTS VBits, FBits, MaxNodes, LocalNodes
NoE == 99999
Ids(q) == 1..Len(q)
Of(q) == {q[i] : i \in Ids(q)}
In(i, n) == i < n                    \* -1 names nothing, which is fine
-----------------------------------------------------------------------------
Parts(m) == UNION {{<<g, p>> : p \in Ids(m.geoms[g])} : g \in Ids(m.geoms)}
P(m, x) == m.geoms[x[1]][x[2]]
(* the node a vertex of a part is bound to: -1 none, -2 no such thing *)
Bound(m, p, i) == IF i = -1 THEN -1 ELSE IF ~m.local THEN i ELSE IF i < p.cnt /\ i < LocalNodes THEN p.map[i + 1] ELSE -2
NodeOfByte(b) == IF b >= 253 THEN -1 ELSE b \div 3
Node(m, i) == i \in -1..(Len(m.nodes) - 1)
NodesFine(m) == \A n \in Of(m.nodes) : Node(m, n.next) /\ Node(m, n.child) /\ Node(m, n.parent)
RegionsFine(m) == \A r \in Of(m.regions) : \A q \in Of(r) :
                     /\ \A i \in 1..5 : In(q.g[i], Len(m.geoms))
                     /\ \A k \in Of(q.marks) : Node(m, k.node)
PartFine(m, p) ==
  /\ In(p.sh, m.shaders) /\ Node(m, p.c[1]) /\ Node(m, p.c[2])
  /\ p.zoner = m.local
  /\ (m.local => p.cnt <= LocalNodes)
  /\ \A v \in Of(p.unc) : \A i \in 1..2 : Node(m, Bound(m, p, v.i[i]))
  /\ \A v \in Of(p.comp) : \A i \in 1..2 : Node(m, NodeOfByte(v.i[i]))
IndicesFine(m) == NodesFine(m) /\ RegionsFine(m) /\ \A x \in Parts(m) : PartFine(m, P(m, x))
-----------------------------------------------------------------------------
(* rotations in thousandths *)
Square(q) == ((q[1] * q[1]) + (q[2] * q[2])) + ((q[3] * q[3]) + (q[4] * q[4]))
IsUnit(q) == Square(q) \in 999000..1001000
SameDirection(q, r) == /\ \A i, j \in 1..4 : Abs((q[i] * r[j]) - (q[j] * r[i])) <= 5000
                       /\ (q[1] * r[1]) + (q[2] * r[2]) + (q[3] * r[3]) + (q[4] * r[4]) > 0
Normalised(q, r) == IF IsUnit(q) THEN r = q ELSE Square(r) \in 995000..1005000 /\ (q = <<0, 0, 0, 0>> \/ SameDirection(q, r))
MarksOf(m) == UNION {UNION {Of(q.marks) : q \in Of(r)} : r \in Of(m.regions)}
Skewed(m) == (\E n \in Of(m.nodes) : ~IsUnit(n.rot)) \/ (\E k \in MarksOf(m) : ~IsUnit(k.rot))
Flawed(m) == ~IndicesFine(m) \/ m.rt # <<>> \/ Skewed(m)
-----------------------------------------------------------------------------
(* compressing: x a number, c a code of b bits *)
Near(b, x, c) == IF x[1] # NoE THEN Nearest(b, x[1], 8, c) ELSE x[2] = c
NearVector(v, c) == \A i \in 1..3 : Near(VBits[i], v[i], c[i])
(* the share of the first node *)
NearShare(w, c) ==
  IF w[1][1] # NoE /\ w[2][1] # NoE
  THEN LET t == w[1][1] + w[2][1] IN IF t = 0 THEN Nearest(FBits, w[1][1], 8, c) ELSE IF t < 0 THEN Nearest(FBits, -w[1][1], -t, c) ELSE Nearest(FBits, w[1][1], t, c)
  ELSE w[1][2] = w[2][2] => c = w[1][2]
ByteOfNode(i) == IF i = -1 THEN 253 ELSE 3 * i
IsCompressed(u, c) ==
  /\ c.p = u.p /\ \A k \in 1..3 : NearVector(u.v[k], c.v[k])
  /\ \A k \in 1..2 : Near(FBits, u.uv[k], c.uv[k])
  /\ c.i = <<ByteOfNode(u.i[1]), ByteOfNode(u.i[2])>> /\ NearShare(u.w, c.w)
(* and back; the second weight is what the first leaves *)
IsRestored(c, u, Back(_)) ==
  /\ u.p = c.p /\ \A k \in 1..3 : \A i \in 1..3 : u.v[k][i][2] = c.v[k][i]
  /\ \A k \in 1..2 : u.uv[k][2] = c.uv[k]
  /\ \A k \in 1..2 : u.i[k] = Back(NodeOfByte(c.i[k]))
  /\ u.w[1][2] = c.w /\ u.w[2][2] = c.w
Compressible(m) == ~m.local /\ Len(m.nodes) <= MaxNodes /\ \A x \in Parts(m) : \A v \in Of(P(m, x).unc) : \A i \in 1..2 : v.i[i] < MaxNodes
AllCompressed(us, cs) == Len(cs) = Len(us) /\ \A i \in Ids(us) : IsCompressed(us[i], cs[i])
(* which local node of a part stands for a node; -2: none *)
LocalOf(p, n) == LET s == {i \in 0..(p.cnt - 1) : p.cnt <= LocalNodes /\ p.map[i + 1] = n} IN IF n = -1 THEN -1 ELSE IF s = {} THEN -2 ELSE CHOOSE i \in s : \A j \in s : i <= j
-----------------------------------------------------------------------------
(* repairing a model moves its runtime markers to the permutations they belong to, which must exist *)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE [i \in Ids(q[1].inst) |-> [name |-> q[1].name, x |-> q[1].inst[i]]] \o Flat(Tail(q))
BadMarker(m, x) == x.node >= Len(m.nodes) \/ x.r >= Len(m.regions) \/ (x.r < Len(m.regions) /\ x.q >= Len(m.regions[x.r + 1]))
Hopeless(m) == \E y \in Of(Flat(m.rt)) : BadMarker(m, y.x)
Moved(m, r, q) == SelectSeq(Flat(m.rt), LAMBDA y : y.x.r = r - 1 /\ y.x.q = q - 1)
MarksMoved(m, r, q) == LET y == Moved(m, r, q) IN m.regions[r][q].marks \o [i \in Ids(y) |-> [name |-> y[i].name, node |-> y[i].x.node, rot |-> y[i].x.rot, trans |-> y[i].x.trans]]
PartRepaired(m, p, q) ==
  /\ q.sh = p.sh /\ q.c = p.c /\ q.zoner = p.zoner /\ q.cnt = p.cnt /\ q.map = p.map
  /\ IF p.comp = <<>> /\ Compressible(m) THEN AllCompressed(p.unc, q.comp) ELSE q.comp = p.comp
  /\ IF p.unc # <<>> THEN q.unc = p.unc
     ELSE LET Back(n) == IF m.local THEN LocalOf(p, n) ELSE n
          IN IF \E v \in Of(p.comp) : \E i \in 1..2 : Back(NodeOfByte(v.i[i])) = -2 THEN q.unc = <<>>
             ELSE Len(q.unc) = Len(p.comp) /\ \A i \in Ids(p.comp) : IsRestored(p.comp[i], q.unc[i], Back)
SameShape(m, n) ==
  /\ n.gbx = m.gbx /\ n.local = m.local /\ n.blend = m.blend /\ n.ignore = m.ignore /\ n.shaders = m.shaders /\ n.cut = m.cut
  /\ Len(n.nodes) = Len(m.nodes) /\ Len(n.regions) = Len(m.regions) /\ (\A i \in Ids(m.regions) : Len(n.regions[i]) = Len(m.regions[i]))
  /\ Len(n.geoms) = Len(m.geoms) /\ (\A i \in Ids(m.geoms) : Len(n.geoms[i]) = Len(m.geoms[i]))
IsRepaired(m, n) ==
  /\ SameShape(m, n) /\ n.rt = <<>>
  /\ \A i \in Ids(m.nodes) : LET a == m.nodes[i]  b == n.nodes[i] IN b.next = a.next /\ b.child = a.child /\ b.parent = a.parent /\ Normalised(a.rot, b.rot)
  /\ \A r \in Ids(m.regions) : \A q \in Ids(m.regions[r]) :
       LET a == MarksMoved(m, r, q)  b == n.regions[r][q].marks IN
       /\ n.regions[r][q].g = m.regions[r][q].g
       /\ Len(b) = Len(a) /\ \A i \in Ids(a) : b[i].name = a[i].name /\ b[i].node = a[i].node /\ b[i].trans = a[i].trans /\ Normalised(a[i].rot, b[i].rot)
  /\ \A x \in Parts(m) : PartRepaired(m, P(m, x), P(n, x))
-----------------------------------------------------------------------------
(* compressed vertices made anew from the others; gone where they cannot be had *)
PartRecompressed(m, p, q) ==
  /\ [q EXCEPT !.comp = <<>>] = [p EXCEPT !.comp = <<>>]
  /\ IF p.unc = <<>> THEN q.comp = p.comp ELSE IF Compressible(m) THEN AllCompressed(p.unc, q.comp) ELSE q.comp = <<>>
IsRecompressed(m, n) == /\ SameShape(m, n) /\ n.rt = m.rt /\ n.nodes = m.nodes /\ n.regions = m.regions
                        /\ \A x \in Parts(m) : PartRecompressed(m, P(m, x), P(n, x))
-----------------------------------------------------------------------------
(* Halo PC models to Xbox models and back; only for models with good indices *)
ToModel(m) ==
  IF ~m.gbx THEN m ELSE
  LET V(p, v) == [v EXCEPT !.i = <<Bound(m, p, v.i[1]), Bound(m, p, v.i[2])>>]
      Part(p) == [p EXCEPT !.unc = [i \in Ids(p.unc) |-> V(p, p.unc[i])], !.zoner = FALSE, !.cnt = 0, !.map = [i \in 1..LocalNodes |-> 0]]
  IN [m EXCEPT !.gbx = FALSE, !.local = FALSE, !.ignore = FALSE, !.geoms = [g \in Ids(m.geoms) |-> [p \in Ids(m.geoms[g]) |-> Part(m.geoms[g][p])]]]
ToGBX(m) == [m EXCEPT !.gbx = TRUE]
(* what is drawn: for every vertex the nodes it moves with *)
Skin(m) == [g \in Ids(m.geoms) |-> [p \in Ids(m.geoms[g]) |-> LET q == m.geoms[g][p] IN [i \in Ids(q.unc) |-> <<Bound(m, q, q.unc[i].i[1]), Bound(m, q, q.unc[i].i[2]), q.unc[i].p, q.unc[i].w>>]]]
(* cache files have the distances the other way around *)
FlipCut(c) == <<c[5], c[4], c[3], c[2], c[1]>>
-----------------------------------------------------------------------------
(* which tags can be turned into which, and the part that is kept *)
Items == {"item", "weapon", "garbage", "equipment"}
Objects == Items \cup {"object", "unit", "biped", "vehicle", "device", "device_machine", "device_control", "device_light_fixture", "projectile", "scenery", "placeholder", "sound_scenery"}
Convertible(from, to) ==
  \/ from # to /\ from \in {"model", "gbxmodel"} /\ to \in {"model", "gbxmodel"}
  \/ from # to /\ from \in Objects /\ to = "scenery"
  \/ from # to /\ from \in Items /\ to \in {"garbage", "weapon", "equipment"}
Kept(from, to) == IF to \in {"model", "gbxmodel"} THEN "model" ELSE IF to = "scenery" THEN "object" ELSE "item"
=============================================================================
