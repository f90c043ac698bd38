--------------------------------- MODULE Bsp ---------------------------------
(* C27.  The vertices of structure BSPs, kept in two forms; what is wrong with *)
(* a BSP, and repairing it.                                                   *)
(* A BSP is [mats, objs]; a material is [r, l, u, c]: how many rendered and    *)
(* lightmap vertices it says it has, and what is in its two buffers: [n, len,  *)
(* rv, lv]: their length in bytes, and the vertices, if that is the right      *)
(* length (otherwise there is only n and `raw').  A number is <<n, d, c>>: the  *)
(* fraction n / d (n = NoE: not a short one), and the code it is the value of   *)
(* (-1: none; -2: not a number, no nearest one; -3: none, and the number is     *)
(* between n / d and (n + 1) / d).                                           *)
EXTENDS Packed, FiniteSets
CONSTANTS VBits, FBits
NoE == 99999
Ids(q) == 1..Len(q)
Of(q) == {q[i] : i \in Ids(q)}
Near(b, x, c) == IF x[3] = -3 THEN NearestTo(b, x[1], x[2], c) ELSE IF x[1] # NoE THEN Nearest(b, x[1], x[2], c) ELSE x[3] \in {c, -2}
NearVector(v, c) == \A i \in 1..3 : Near(VBits[i], v[i], c[i])
-----------------------------------------------------------------------------
(* bytes: position, three vectors, texture coordinates; vector, coordinates    *)
Long == <<12 + 3 * 12 + 8, 12 + 8>>
Short == <<12 + 3 * 4 + 8, 4 + 4>>
Counted(m) == m.l \in {0, m.r}
Room(m, size) == m.r * size[1] + m.l * size[2]
Fits(m, x, size) == Counted(m) /\ x.n = Room(m, size)
IsShort(u, c) == /\ c.p = u.p /\ c.uv = u.uv
                 /\ \A k \in 1..3 : NearVector(u.v[k], c.v[k])
IsLong(c, u) == /\ u.p = c.p /\ u.uv = c.uv
                /\ \A k \in 1..3 : \A i \in 1..3 : u.v[k][i][3] = c.v[k][i]
IsShortLight(u, c) == NearVector(u.v, c.v) /\ \A k \in 1..2 : Near(FBits, u.uv[k], c.uv[k])
IsLongLight(c, u) == \A i \in 1..3 : u.v[i][3] = c.v[i] /\ \A k \in 1..2 : u.uv[k][3] = c.uv[k]
Each(Op(_, _), a, b) == Len(a) = Len(b) /\ \A i \in Ids(a) : Op(a[i], b[i])
(* one form is there and the other is not *)
Lacks(m) == (m.u.n = 0) # (m.c.n = 0)
Lost(m) == Lacks(m) /\ IF m.u.n = 0 THEN ~Fits(m, m.c, Short) ELSE ~Fits(m, m.u, Long)
Restored(m, n) ==
  /\ n.r = m.r /\ n.l = m.l
  /\ IF ~Lacks(m) THEN n = m
     ELSE IF m.u.n = 0 THEN n.c = m.c /\ n.u.n = Room(m, Long) /\ Each(IsLong, m.c.rv, n.u.rv) /\ Each(IsLongLight, m.c.lv, n.u.lv)
     ELSE n.u = m.u /\ n.c.n = Room(m, Short) /\ Each(IsShort, m.u.rv, n.c.rv) /\ Each(IsShortLight, m.u.lv, n.c.lv)
(* restoring what is missing; it cannot be done if any cannot *)
CanRestore(b) == ~\E m \in Of(b.mats) : Lost(m)
IsRestored(b, d) == d.objs = b.objs /\ Each(Restored, b.mats, d.mats)
Touched(b) == \E m \in Of(b.mats) : Lacks(m)
-----------------------------------------------------------------------------
(* a normal is [th: thousandths, sh: thousandths of its longest component,     *)
(* odd: not finite or all zero, raw]                                          *)
Sq(q) == ((q[1] * q[1]) + (q[2] * q[2])) + (q[3] * q[3])
Small(q) == \A i \in 1..3 : q[i] \in -2000..2000
IsUnit(n) == ~n.odd /\ Small(n.th) /\ Sq(n.th) \in 998000..1002000
IsNormalised(n, r) ==
  IF IsUnit(n) THEN r = n
  ELSE IsUnit(r) /\ (~n.odd => \A i \in 1..3 : Abs(r.sh[i] - n.sh[i]) <= 1)
Same(a, b) == a.p = b.p /\ a.uv = b.uv /\ a.v[2] = b.v[2] /\ a.v[3] = b.v[3] /\ IsNormalised(a.nm, b.nm) /\ (IsUnit(a.nm) => a.v[1] = b.v[1])
Sound(m) == (m.u.n # 0 => Fits(m, m.u, Long)) /\ (m.c.n # 0 => Fits(m, m.c, Short)) /\ Counted(m)
CanRepair(b) == \A m \in Of(b.mats) : Sound(m)
Repaired(m, n) == n.r = m.r /\ n.l = m.l /\ n.c = m.c
                  /\ IF m.u.n = 0 THEN n.u = m.u ELSE n.u.n = m.u.n /\ Each(Same, m.u.rv, n.u.rv) /\ n.u.lv = m.u.lv
IsRepaired(b, d) == d.objs = b.objs /\ Each(Repaired, b.mats, d.mats)
Skewed(b) == \E m \in Of(b.mats) : m.u.n # 0 /\ \E v \in Of(m.u.rv) : ~IsUnit(v.nm)
-----------------------------------------------------------------------------
(* detail objects: each cell has a run of layers (count and reference vector), *)
(* and they together a run of instances                                       *)
Layers(c) == Cardinality(c.layers)
RECURSIVE SumTo(_, _, _)
SumTo(q, i, n) == IF n = 0 THEN 0 ELSE q[i] + SumTo(q, i + 1, n - 1)
InRange(start, n, len) == start <= len /\ n <= len - start
(* `start' and `count' count from 0 *)
RunsFine(o, c) ==
  LET n == Layers(c) IN
  /\ InRange(c.count, n, Len(o.counts)) /\ InRange(c.count, n, o.zs)
  /\ \A k \in 0..n : k > 0 => InRange(c.start + SumTo(o.counts, c.count + 1, k - 1), o.counts[c.count + k], o.inst)
LayersFine(c, palette) == c.layers \subseteq palette
ObjectsFine(b, palette) == \A o \in Of(b.objs) : \A c \in Of(o.cells) : RunsFine(o, c) /\ LayersFine(c, palette)
Missing(b, palette) == UNION {UNION {IF RunsFine(o, c) THEN c.layers \ palette ELSE {} : c \in Of(o.cells)} : o \in Of(b.objs)}
Flawed(b, palette) == ~CanRepair(b) \/ ~ObjectsFine(b, palette) \/ Skewed(b)
=============================================================================
