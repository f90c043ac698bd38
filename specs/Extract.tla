------------------------------ MODULE Extract ------------------------------
(* C28.  What is in a cache file is not quite what was in the tag it was made *)
(* from.  Taking a tag out of a cache file undoes what building did to it and *)
(* changes nothing else:                                                      *)
(*  - numbers kept per tick (or in other units) are per second again;         *)
(*  - weights that were summed up are weights again;                          *)
(*  - samples and texels are in the order they have in tags, and are with     *)
(*    the tag instead of somewhere else in the file;                          *)
(*  - so are vertices and triangles, and there are both kinds of vertices;    *)
(*  - the changes made for the campaign are taken back.                       *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL N == INSTANCE Nudge
LOCAL D == INSTANCE Decimal
LOCAL M == INSTANCE Mip
LOCAL Of(q) == {q[i] : i \in 1..Len(q)}
-----------------------------------------------------------------------------
(* numbers; ticks are 1/30 of a second *)
Faster(g) == CASE g = "actor_variant" -> {"grenades.grenade_velocity"}
               [] g = "projectile" -> {"minimum_velocity", "initial_velocity", "final_velocity", "material_response.potential_and"}
               [] OTHER -> {}
Slower(g) == CASE g \in {"continuous_damage_effect", "damage_effect"} -> {"camera_shaking.wobble_period"}
               [] g = "light" -> {"effect_parameters.duration"}
               [] g = "scenario" -> {"cutscene_titles.fade_in_time", "cutscene_titles.fade_out_time"}
               [] OTHER -> {}
Fine(g) == IF g = "point_physics" THEN {"air_friction", "water_friction"} ELSE {}
Bent(g) == IF g = "sound" THEN {"maximum_bend_rate"} ELSE {}
Title == "cutscene_titles.up_time"
Scaled(g) == Faster(g) \cup Slower(g) \cup Fine(g) \cup Bent(g) \cup (IF g = "scenario" THEN {Title} ELSE {})
Thirtieth(x) == D!Over(D!Shift(x, 1), 3)
(* f: [p: its name, a, b: before and after], and for titles [in: the fade-in before] *)
Restored(g, f) ==
  CASE f.p \in Faster(g) -> f.b \in N!Nudged(D!Times(f.a, 30))
    [] f.p \in Slower(g) -> f.b \in N!Nudged(Thirtieth(f.a))
    [] f.p \in Fine(g) -> f.b \in N!Nudged(D!Shift(f.a, 4))
    [] f.p \in Bent(g) -> f.b \in N!Nudged(D!Pow(f.a, 30))
    [] f.p = Title -> f.b \in N!Nudged(Thirtieth(D!Minus(f.a, f.in)))
    [] OTHER -> FALSE
-----------------------------------------------------------------------------
(* changes for the campaign: in a singleplayer scenario that does not forbid it *)
Campaign(scn) == scn.single /\ ~scn.keep
Bullet == "damage.modifiers.elite_energy_shield"
(* "weapons\pistol\bullet" and so on come as names *)
Patched(ctx, g, name) == Campaign(ctx) /\ <<g, name>> \in {<<"weapon", "pistol">>, <<"weapon", "plasma">>, <<"damage_effect", "bullet">>}
(* a trigger is [min, err]: angles as bytes; 0, 0.2, 2, 0.5 and 5 degrees *)
Still == <<0, 0, 0, 0>>
Trigger(name, t) ==
  IF name = "pistol" THEN [min |-> Still, err |-> <<<<59, 100, 195, 136>>, <<61, 14, 250, 53>>>>]
  ELSE [t EXCEPT !.err = <<<<60, 14, 250, 53>>, <<61, 178, 184, 194>>>>]
Triggers(ctx, name, ts) == [i \in 1..Len(ts) |-> IF i = 1 /\ Patched(ctx, "weapon", name) THEN Trigger(name, ts[1]) ELSE ts[i]]
-----------------------------------------------------------------------------
(* weights are summed up in cache files: each is at least the one before, the last is 1 *)
One == <<FALSE, <<1>>, <<>>>>
Zero == <<FALSE, <<0>>, <<>>>>
Prev(q, i) == IF i = 1 THEN Zero ELSE q[i - 1]
Summed(q) == Len(q) < 2 \/ (q[Len(q)] = One /\ \A i \in 1..Len(q) : ~D!Below(q[i], Prev(q, i)) /\ ~D!Below(One, q[i]))
Shares(q) == IF Len(q) = 1 THEN <<One>> ELSE [i \in 1..Len(q) |-> D!Minus(q[i], Prev(q, i))]
(* before, after *)
Unsummed(a, b) == Len(b) = Len(a) /\ N!Weights(Shares(a), b)
-----------------------------------------------------------------------------
(* samples: 16-bit ones are the other way around *)
CanSwap(d) == Len(d) % 2 = 0
Swapped(d) == [i \in 1..Len(d) |-> IF i % 2 = 1 THEN d[i + 1] ELSE d[i - 1]]
Playable(ps) == \A p \in Of(ps) : p.pcm => CanSwap(p.d)
Samples(ps) == [i \in 1..Len(ps) |-> IF ps[i].pcm THEN Swapped(ps[i].d) ELSE ps[i].d]
-----------------------------------------------------------------------------
(* textures.  An engine e is [swizzled, modulo, apart, align]; a texture t is  *)
(* [w, h, d, type, f, comp, swiz, ext, mips, len, map, file]: `map' and `file'  *)
(* hold its texels, if they are there, in the cache file or in bitmaps.map     *)
Rounded(n, a) == ((n + (a - 1)) \div a) * a
Kind(t) == CASE t.type = "cube" -> "cube" [] t.type = "3d" -> "3d" [] OTHER -> "2d"
Data(t) == IF t.ext THEN t.file ELSE t.map
Side(t) == M!BlockSide[t.f]
(* mipmaps smaller than a block are not there in some files *)
RECURSIVE Whole(_, _)
Whole(t, k) == IF k > M!LastMip(t.w, t.h, t.d, Kind(t), t.mips) \/ M!Halved(t.w, k) % Side(t) # 0 \/ M!Halved(t.h, k) % Side(t) # 0 THEN k - 1 ELSE Whole(t, k + 1)
Mips(e, t) == IF e.modulo THEN Whole(t, 0) ELSE t.mips
Bytes(t, m) == M!Total(t.w, t.h, t.d, Kind(t), Side(t), m) * M!BlockBytes(t.f)
FaceBytes(t, m) == M!Total(t.w, t.h, 1, "2d", Side(t), m) * M!BlockBytes(t.f)
Apart(e, t) == e.apart /\ t.type = "cube"
(* every mipmap that is there can be put in order *)
Orderly(t, m) == \A k \in 0..M!LastMip(t.w, t.h, t.d, Kind(t), m) : M!CanSwizzle(M!Halved(t.w, k), M!Halved(t.h, k), M!Halved(M!Depth(Kind(t), t.d), k))
CanTake(e, t) ==
  /\ t.comp = (t.f \in {"dxt1", "dxt3", "dxt5", "bc7"})
  /\ (t.swiz => e.swizzled /\ ~t.comp)
  /\ t.w > 0 /\ t.h > 0 /\ t.d > 0
  /\ (t.type # "3d" => t.d = 1) /\ M!IsPow2(t.d)
  /\ (e.modulo => t.w % Side(t) = 0 /\ t.h % Side(t) = 0)
  /\ Data(t) # <<>>
  /\ t.len % e.align = 0
  /\ LET m == Mips(e, t) IN
     /\ IF Apart(e, t) THEN t.len = 6 * Rounded(FaceBytes(t, m), e.align)
        ELSE LET n == Rounded(Bytes(t, m), e.align) IN IF e.modulo THEN t.len >= n ELSE t.len = n
     /\ (t.swiz => Orderly(t, m))
(* faces that are stored one after the other come in this order *)
FaceAt == <<0, 2, 1, 3, 4, 5>>
(* one piece after the other, each with its texels by rows and slices *)
Pieces(t, m) == IF Kind(t) = "cube" THEN M!FaceOrder(t.w, t.h, t.d, "cube", Side(t), m) ELSE M!TextureOrder(t.w, t.h, t.d, Kind(t), Side(t), m)
RECURSIVE Taken(_, _, _, _, _, _)
Taken(e, t, m, data, ps, i) ==
  IF i > Len(ps) THEN <<>>
  ELSE LET u == ps[i]
           z == M!BlockBytes(t.f)
           from == IF Apart(e, t) THEN (FaceAt[u.face + 1] * Rounded(FaceBytes(t, m), e.align)) + (M!MipStart(t.w, t.h, 1, "2d", Side(t), u.mip) * z) ELSE u.off * z
       IN [k \in 1..(u.n * z) |-> data[from + ((IF t.swiz THEN M!Place(u.w, u.h, u.d, (k - 1) \div z) ELSE (k - 1) \div z) * z) + ((k - 1) % z) + 1]]
          \o Taken(e, t, m, data, ps, i + 1)
Texels(e, t) == LET m == Mips(e, t) IN Taken(e, t, m, Data(t)[1], Pieces(t, m), 1)
(* a sprite sheet's sequences say which textures they use *)
Sequenced(sprites, q) ==
  IF ~sprites THEN q
  ELSE LET s == Of(q.idx) \ {-1} IN [q EXCEPT !.count = IF Len(q.idx) = 1 THEN 1 ELSE 0, !.first = IF s = {} THEN -1 ELSE CHOOSE i \in s : \A j \in s : i <= j]
CanTakeAll(e, b) == \A t \in Of(b.ts) : CanTake(e, t)
RECURSIVE Pixels(_, _, _)
Pixels(e, ts, n) == IF n = 0 THEN [px |-> <<>>, offs |-> <<>>] ELSE LET p == Pixels(e, ts, n - 1) IN [px |-> p.px \o Texels(e, ts[n]), offs |-> Append(p.offs, Len(p.px))]
(* b: the bitmap as it is in the cache file; r: [seqs, mips, offs, px] *)
IsBitmap(e, b, r) ==
  /\ r.seqs = [i \in 1..Len(b.seqs) |-> Sequenced(b.sprites, b.seqs[i])]
  /\ r.mips = [i \in 1..Len(b.ts) |-> Mips(e, b.ts[i])]
  /\ LET x == Pixels(e, b.ts, Len(b.ts)) IN r.offs = x.offs /\ r.px = IF b.ts = <<>> THEN b.px ELSE x.px
-----------------------------------------------------------------------------
(* models; x: [n, tn: how many vertices and triangles it says it has, there:   *)
(* whether they are there, unc or comp: its vertices, idx: the indices of its  *)
(* strip] for each part                                                        *)
LOCAL T == INSTANCE ModelTag WITH VBits <- <<11, 11, 10>>, FBits <- 16, MaxNodes <- 42, LocalNodes <- 22
CanHave(x) == x.n <= 65535 /\ x.tn <= 3 * 65534 /\ x.there
CanTakeModel(m, xs) == ~T!Hopeless(m) /\ \A g \in 1..Len(xs) : \A p \in 1..Len(xs[g]) : CanHave(xs[g][p])
Strip(idx) == LET I(i) == IF i > Len(idx) THEN -1 ELSE idx[i] IN [i \in 1..((Len(idx) + 2) \div 3) |-> <<I(3 * i - 2), I(3 * i - 1), I(3 * i)>>]
Filled(m, xs, packed) ==
  [m EXCEPT !.blend = FALSE, !.cut = T!FlipCut(@),
            !.geoms = [g \in 1..Len(m.geoms) |-> [p \in 1..Len(m.geoms[g]) |-> IF packed THEN [m.geoms[g][p] EXCEPT !.comp = xs[g][p].comp] ELSE [m.geoms[g][p] EXCEPT !.unc = xs[g][p].unc]]]]
IsModel(m, xs, packed, r, tris) ==
  LET n == Filled(m, xs, packed) IN
  /\ T!SameShape(n, r) /\ r.rt = <<>> /\ r.nodes = n.nodes
  /\ \A i \in 1..Len(n.regions) : \A q \in 1..Len(n.regions[i]) : r.regions[i][q].g = n.regions[i][q].g /\ r.regions[i][q].marks = T!MarksMoved(n, i, q)
  /\ \A y \in T!Parts(n) : T!PartRepaired(n, T!P(n, y), T!P(r, y))
  /\ tris = [g \in 1..Len(xs) |-> [p \in 1..Len(xs[g]) |-> Strip(xs[g][p].idx)]]
-----------------------------------------------------------------------------
(* BSPs: the heights of detail objects are relative again; what layer they are *)
(* in says how far they were moved.  Numbers are in 128ths.                    *)
LOCAL B == INSTANCE Bsp WITH VBits <- <<11, 11, 10>>, FBits <- 16
MovedBy(pal, l) == IF l < Len(pal) /\ pal[l + 1] # <<>> THEN pal[l + 1][1] ELSE 0
(* the vector (from 0) of a cell's layer *)
Vector(c, l) == c.count + Cardinality({k \in c.layers : k < l})
CanLower(o) == \A c \in Of(o.cells) : \A l \in c.layers : Vector(c, l) < Len(o.heights)
RECURSIVE SumLayers(_, _, _, _)
SumLayers(pal, c, v, s) == IF s = {} THEN 0 ELSE LET l == CHOOSE l \in s : TRUE IN (IF Vector(c, l) = v THEN MovedBy(pal, l) ELSE 0) + SumLayers(pal, c, v, s \ {l})
RECURSIVE SumCells(_, _, _, _)
SumCells(pal, cs, v, n) == IF n = 0 THEN 0 ELSE SumLayers(pal, cs[n], v, cs[n].layers) + SumCells(pal, cs, v, n - 1)
Lowered(pal, o) == [v \in 1..Len(o.heights) |-> o.heights[v] - SumCells(pal, o.cells, v - 1, Len(o.cells))]
CanTakeBsp(b) == B!CanRestore(b) /\ \A o \in Of(b.objs) : CanLower(o)
NoHeights(b) == [b EXCEPT !.objs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.heights = <<>>]]]
IsBsp(pal, b, r) ==
  /\ Len(r.objs) = Len(b.objs) /\ (\A i \in 1..Len(b.objs) : r.objs[i].heights = Lowered(pal, b.objs[i]))
  /\ B!IsRestored(NoHeights(b), NoHeights(r))
-----------------------------------------------------------------------------
(* the nodes of scripts: numbers are the other way around; nodes that are not  *)
(* used (only the first `size' are) are zero                                   *)
HeadWidths == [i \in 1..32 |-> 1] \o <<2, 2, 1, 1, 1, 1, 4, 1, 1, 2, 2, 2, 4>>
NodeWidths == <<2, 2, 2, 2, 4, 4, 4>>
RECURSIVE FlipAll(_, _, _)
FlipAll(d, ws, at) == IF ws = <<>> THEN <<>> ELSE [i \in 1..ws[1] |-> d[(at + ws[1] + 1) - i]] \o FlipAll(d, Tail(ws), at + ws[1])
LOCAL Word(d, at) == d[at + 1] + (256 * d[at + 2])
NodesThere(d) == /\ Len(d) >= 56 /\ Word(d, 34) = 20
                 /\ Len(d) = 56 + (20 * Word(d, 32)) /\ Word(d, 46) <= Word(d, 32)
RECURSIVE FlipNodes(_, _, _)
FlipNodes(d, k, n) == IF k = n THEN <<>> ELSE FlipAll(d, NodeWidths, 56 + (20 * k)) \o FlipNodes(d, k + 1, n)
Flipped(d) == FlipAll(d, HeadWidths, 0) \o FlipNodes(d, 0, Word(d, 46)) \o [i \in 1..(20 * (Word(d, 32) - Word(d, 46))) |-> 0]
-----------------------------------------------------------------------------
(* texts made for some fonts cannot be read: one such font spoils them all *)
Readable(fonts) == \A f \in Of(fonts) : f # "extended" /\ f # "broken"
=============================================================================
