-------------------------------- MODULE C24MC --------------------------------
(* Every small model: one geometry with parts of all kinds, regions, markers, *)
(* good and bad indices, and numbers in very few bits.                        *)
EXTENDS ModelTag, TLC
CONSTANTS Nodes, Wide
VB == <<3, 3, 2>>
(* numbers from -1 to 1: some eighths, and what codes stand for *)
Num(e) == <<e, -1>>
CodeOf(b, x) == IF x[1] # NoE THEN CHOOSE c \in 0..(Pow2(b) - 1) : Nearest(b, x[1], 8, c) ELSE x[2]
ShareOf(w) == CHOOSE c \in 0..(Pow2(FBits) - 1) : NearShare(w, c)
Compress(u) == [p |-> u.p, v |-> [k \in 1..3 |-> [i \in 1..3 |-> CodeOf(VBits[i], u.v[k][i])]], uv |-> [k \in 1..2 |-> CodeOf(FBits, u.uv[k])],
                i |-> <<ByteOfNode(u.i[1]), ByteOfNode(u.i[2])>>, w |-> ShareOf(u.w)]
Restore(c, Back(_)) == [p |-> c.p, v |-> [k \in 1..3 |-> [i \in 1..3 |-> <<NoE, c.v[k][i]>>]], uv |-> [k \in 1..2 |-> <<NoE, c.uv[k]>>],
                i |-> <<Back(NodeOfByte(c.i[1])), Back(NodeOfByte(c.i[2]))>>, w |-> <<<<NoE, c.w>>, <<NoE, c.w>>>>]
Unit == <<0, 0, 0, 1000>>
Norm(q) == IF IsUnit(q) THEN q ELSE Unit
Rots == {Unit, <<0, 0, 0, 2000>>}
(* a repair, in full *)
RepairPart(m, p) ==
  LET Back(n) == IF m.local THEN LocalOf(p, n) ELSE n
      lost == \E v \in Of(p.comp) : \E i \in 1..2 : Back(NodeOfByte(v.i[i])) = -2
  IN [p EXCEPT !.comp = IF @ = <<>> /\ Compressible(m) THEN [i \in Ids(p.unc) |-> Compress(p.unc[i])] ELSE @,
               !.unc = IF @ # <<>> THEN @ ELSE IF lost THEN <<>> ELSE [i \in Ids(p.comp) |-> Restore(p.comp[i], Back)]]
Repair(m) == [m EXCEPT !.rt = <<>>,
                       !.nodes = [i \in Ids(@) |-> [@[i] EXCEPT !.rot = Norm(@)]],
                       !.regions = [r \in Ids(@) |-> [q \in Ids(@[r]) |-> [m.regions[r][q] EXCEPT !.marks = LET y == MarksMoved(m, r, q) IN [i \in Ids(y) |-> [y[i] EXCEPT !.rot = Norm(@)]]]]],
                       !.geoms = [g \in Ids(@) |-> [p \in Ids(@[g]) |-> RepairPart(m, m.geoms[g][p])]]]
Recompress(m) == [m EXCEPT !.geoms = [g \in Ids(@) |-> [p \in Ids(@[g]) |-> LET x == m.geoms[g][p] IN
                   [x EXCEPT !.comp = IF x.unc = <<>> THEN @ ELSE IF Compressible(m) THEN [i \in Ids(x.unc) |-> Compress(x.unc[i])] ELSE <<>>]]]]
-----------------------------------------------------------------------------
Flat3(e) == <<Num(e), Num(-e), Num(8)>>
Vertex(i, j, e, w) == [p |-> "here", v |-> <<Flat3(e), Flat3(0), Flat3(8)>>, uv |-> <<Num(e), Num(3)>>, i |-> <<i, j>>, w |-> w]
Weights == {<<Num(8), Num(0)>>, <<Num(2), Num(6)>>, <<Num(0), Num(0)>>} \cup IF Wide THEN {<<Num(3), Num(3)>>, <<Num(-2), Num(4)>>} ELSE {}
Index == -1..Nodes
Vertices == {Vertex(i, j, e, w) : i \in Index, j \in {-1, 0}, e \in {3}, w \in Weights}
Packs == {[Compress(Vertex(0, -1, e, <<Num(2), Num(6)>>)) EXCEPT !.i = <<a, b>>] : e \in {3}, a \in {0, 3, 4, 255}, b \in {253}}
Maps == {<<0, 0>>, <<1, 0>>}
VARIABLE m
PartOf(u, k, z, n, mp, s) == [sh |-> s, c |-> <<-1, 0>>, zoner |-> z, cnt |-> n, map |-> mp, unc |-> u, comp |-> k]
PartSet(local) == {PartOf(u, k, z, n, mp, s) : u \in {<<>>} \cup {<<v>> : v \in Vertices}, k \in {<<>>} \cup {<<v>> : v \in Packs}, z \in IF Wide THEN BOOLEAN ELSE {local},
                           n \in IF local THEN {0, 2} \cup IF Wide THEN {3} ELSE {} ELSE {0}, mp \in IF local THEN Maps ELSE {<<0, 0>>}, s \in {-1} \cup IF Wide THEN {0, 1} ELSE {}}
Inst(r, q, n, t) == [r |-> r, q |-> q, node |-> n, rot |-> t, trans |-> "there"]
Init == \E gbx, local \in BOOLEAN, t \in Rots, nx \in IF Wide THEN Index ELSE {0}, g \in {-1, 0, 1} :
          /\ (local => gbx)
          /\ m = [gbx |-> gbx, local |-> local, blend |-> TRUE, ignore |-> FALSE, shaders |-> 1, cut |-> <<1, 2, 3, 4, 5>>, rt |-> <<>>,
                  nodes |-> [i \in 1..Nodes |-> [next |-> nx, child |-> -1, parent |-> -1, rot |-> IF i = 1 THEN t ELSE Unit]],
                  regions |-> <<<<[g |-> <<g, -1, -1, -1, 0>>, marks |-> <<>>]>>>>, geoms |-> <<<<>>>>]
AddPart == m.geoms[1] = <<>> /\ \E p \in PartSet(m.local) : m' = [m EXCEPT !.geoms[1] = <<p>>]
AddMark == m.regions[1][1].marks = <<>> /\ \E n \in Index, t \in Rots : m' = [m EXCEPT !.regions[1][1].marks = <<[name |-> "old", node |-> n, rot |-> t, trans |-> "here"]>>]
AddRun == m.rt = <<>> /\ \E r, q \in 0..1, n \in 0..Nodes, t \in Rots : m' = [m EXCEPT !.rt = <<[name |-> "new", inst |-> <<Inst(r, q, n, t), Inst(0, 0, 0, Unit)>>]>>]
Next == (AddPart /\ m.rt = <<>> /\ m.regions[1][1].marks = <<>>) \/ (m.geoms[1] = <<>> /\ (AddMark \/ AddRun))
Spec == Init /\ [][Next]_m
-----------------------------------------------------------------------------
RepairWorks == ~Hopeless(m) => LET n == Repair(m) IN IsRepaired(m, n) /\ Repair(n) = n /\ n.rt = <<>> /\ ~Skewed(n)
                                                    /\ (IndicesFine(m) => IndicesFine(n)) /\ (~Flawed(m) => n.nodes = m.nodes /\ n.regions = m.regions)
RecompressWorks == LET n == Recompress(m) IN IsRecompressed(m, n) /\ Recompress(n) = n /\ Skin(n) = Skin(m)
(* compressing and restoring moves numbers by no more than the code allows, and twice is once *)
Lossless == \A x \in Parts(m) : \A u \in Of(P(m, x).unc) :
              (\A k \in 1..2 : u.i[k] < MaxNodes) => LET Same(n) == n  c == Compress(u) IN NodeOfByte(c.i[1]) = u.i[1] /\ NodeOfByte(c.i[2]) = u.i[2] /\ Compress(Restore(c, Same)) = [c EXCEPT !.i = <<ByteOfNode(u.i[1]), ByteOfNode(u.i[2])>>]
Conversions == IndicesFine(m) =>
  /\ LET x == ToModel(m) IN IndicesFine(x) /\ Skin(x) = Skin(m) /\ Len(x.geoms[1]) = Len(m.geoms[1])
  /\ (~m.gbx => ToModel(ToGBX(m)) = m /\ IndicesFine(ToGBX(m)) /\ Skin(ToGBX(m)) = Skin(m))
(* good indices: everything that is bound to something is bound to a node that exists *)
Bounds == IndicesFine(m) => \A x \in Parts(m) : \A u \in Of(P(m, x).unc) : \A i \in 1..2 : Bound(m, P(m, x), u.i[i]) < Len(m.nodes) /\ Bound(m, P(m, x), u.i[i]) # -2
Flips == FlipCut(FlipCut(m.cut)) = m.cut
=============================================================================
