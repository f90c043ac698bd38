------------------------------- MODULE Defaults ------------------------------
(* C20.  Default values: which fields have one (defaults.json, pinned in this *)
(* folder, and the special rules below), and what setting and stripping them  *)
(* does to a tag (a value in the sense of TagCodec).                          *)
EXTENDS TagDiff
TabDef == JsonDeserialize("defaults.json")
Defaulted(s, n) == s \in DOMAIN TabDef /\ n \in DOMAIN TabDef[s]
RECURSIVE Holds(_)
(* a structure that has defaults somewhere inside *)
Holds(s) == s \in DOMAIN TabDef \/ \E i \in 1..Len(Structs[s].fields) : Structs[s].fields[i].k \in {"struct", "refl"} /\ Structs[s].fields[i].s # s /\ Holds(Structs[s].fields[i].s)
Holding == {s \in DOMAIN Structs : Holds(s)}
Inside(s) == s \in Holding
NumZero == [c \in 1..4 |-> 0]
SameOne(f, a, b) == IF f.form = "one" THEN SamePrim(f, a, b) ELSE \A i \in 1..Len(a) : SamePrim(f, a[i], b[i])
Nought(f, v) == IF f.form = "one" THEN [i \in 1..Len(v) |-> Zeros(Len(v[i]))] ELSE [j \in 1..Len(v) |-> [i \in 1..Len(v[j]) |-> Zeros(Len(v[j][i]))]]
RECURSIVE Def(_, _, _)
(* by the definitions: set (or strip) what is in the table, everywhere *)
Def(s, v, set) ==
  [i \in 1..Len(v) |->
     LET f == Structs[s].fields[i] IN
     IF Defaulted(s, f.n)
       THEN LET d == TabDef[s][f.n] IN
            IF set THEN (IF SameOne(f, v[i], Nought(f, v[i])) THEN d ELSE v[i])
            ELSE (IF SameOne(f, v[i], d) THEN Nought(f, v[i]) ELSE v[i])
     ELSE IF f.k = "struct" /\ f.form = "one" /\ f.s # s /\ v[i] # <<>> /\ Inside(f.s) THEN Def(f.s, v[i], set)
     ELSE IF f.k = "refl" /\ v[i] # <<>> /\ Inside(f.s) THEN [j \in 1..Len(v[i]) |-> Def(f.s, v[i][j], set)]
     ELSE v[i]]

---------------------------------------------------------- \* fields by name
Where(s, n) == CHOOSE i \in 1..Len(Structs[s].fields) : Structs[s].fields[i].n = n
Get(s, v, n) == v[Where(s, n)]
Put(s, v, n, x) == [v EXCEPT ![Where(s, n)] = x]
StructOf(s, n) == Structs[s].fields[Where(s, n)].s
Num(s, v, n) == v[Where(s, n)][1]
SetNum(s, v, n, x) == [v EXCEPT ![Where(s, n)] = <<x>>]
(* numbers with a fraction, as stored *)
F0 == <<0, 0, 0, 0>>
F1 == <<63, 128, 0, 0>>
Mag(c) == <<c[1] % 128, c[2], c[3], c[4]>>
LexLess(a, b) == \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Neg(c) == c[1] >= 128
FLess(a, b) == /\ ~IsNaN(a) /\ ~IsNaN(b)
               /\ ~(IsZero(a) /\ IsZero(b))
               /\ IF Neg(a) THEN ~Neg(b) \/ LexLess(Mag(b), Mag(a)) ELSE ~Neg(b) /\ LexLess(Mag(a), Mag(b))
FEq(a, b) == SameFloat(a, b)
(* a pair of numbers that go together: from these to those when both match *)
Both(s, v, m, n, from, to) == IF FEq(Num(s, v, m), from[1]) /\ FEq(Num(s, v, n), from[2]) THEN SetNum(s, SetNum(s, v, m, to[1]), n, to[2]) ELSE v
Single(s, v, n, from, to) == IF FEq(Num(s, v, n), from) THEN SetNum(s, v, n, to) ELSE v
EndOf(s, v, n, i, from, to) == LET b == Get(s, v, n) IN IF FEq(b[i][1], from) THEN Put(s, v, n, [b EXCEPT ![i] = <<to>>]) ELSE v
Items(s, v, n, Op(_)) == Put(s, v, n, LET b == Get(s, v, n) IN [j \in 1..Len(b) |-> Op(b[j])])
Within(s, v, n, Op(_)) == Put(s, v, n, Op(Get(s, v, n)))

--------------------------------------------------------- \* special rules
(* the radius objects are drawn with is their radius *)
ObjectRule(v, set) ==
  LET r == Num("Object", v, "render_bounding_radius") b == Num("Object", v, "bounding_radius") IN
  IF set THEN (IF IsZero(r) THEN SetNum("Object", v, "render_bounding_radius", b) ELSE v)
  ELSE (IF FEq(r, b) THEN SetNum("Object", v, "render_bounding_radius", F0) ELSE v)
RECURSIVE InObject(_, _, _)
InObject(s, v, set) == IF s = "Object" THEN ObjectRule(v, set) ELSE LET f == Structs[s].fields[1] IN [v EXCEPT ![1] = InObject(f.s, v[1], set)]
RECURSIVE IsObject(_)
IsObject(s) == s = "Object" \/ LET fs == Structs[s].fields IN fs # <<>> /\ fs[1].k = "struct" /\ fs[1].s # s /\ IsObject(fs[1].s)

Rgb(c, f) == \A i \in 2..4 : FEq(c[i], f)
Painted(c, f) == <<c[1], f, f, f>>
LightRule(v, set) ==
  LET from == IF set THEN F0 ELSE F1
      to == IF set THEN F1 ELSE F0
      colour(c) == LET b == Get("LightColor", c, "color") IN
                   IF Rgb(b[1], from) /\ Rgb(b[2], from) THEN Put("LightColor", c, "color", <<Painted(b[1], to), Painted(b[2], to)>>) ELSE c
  IN Within("Light", v, "color", colour)
Pair(s, v, m, n, set) == IF set THEN Both(s, v, m, n, <<F0, F0>>, <<F1, F1>>) ELSE Both(s, v, m, n, <<F1, F1>>, <<F0, F0>>)
LightVolumeRule(v, set) == Pair("LightVolume", v, "perpendicular_brightness_scale", "parallel_brightness_scale", set)
SoundLoopingRule(v, set) == Pair("SoundLooping", v, "zero_detail_sound_period", "one_detail_sound_period", set)

(* 360 degrees; older tools meant that but wrote 360 radians *)
Turn == <<64, 201, 15, 219>>
BuggyTurn == <<67, 180, 0, 0>>
LensFlareRule(v, set) ==
  LET a == Num("LensFlare", v, "rotation_function_scale") IN
  IF set THEN (IF IsZero(a) \/ a = BuggyTurn THEN SetNum("LensFlare", v, "rotation_function_scale", Turn) ELSE v)
  ELSE (IF a \in {Turn, BuggyTurn} THEN SetNum("LensFlare", v, "rotation_function_scale", F0) ELSE v)

(* what can be filthy: only if both are unset *)
PartRule(v, set) ==
  LET s == "ModelGeometryPart" from == IF set THEN 0 ELSE 255 to == IF set THEN 255 ELSE 0 IN
  IF Num(s, v, "next_filthy_part_index") = <<from>> /\ Num(s, v, "prev_filthy_part_index") = <<from>>
  THEN SetNum(s, SetNum(s, v, "next_filthy_part_index", <<to>>), "prev_filthy_part_index", <<to>>) ELSE v
ModelRule(v, set) ==
  LET part(p) == PartRule(p, set) geometry(g) == Items("ModelGeometry", g, "parts", part) IN Items("Model", v, "geometries", geometry)
GbxModelRule(v, set) ==
  LET inner(p) == PartRule(p, set)
      part(p) == Within("GBXModelGeometryPart", p, "model_geometry_part", inner)
      geometry(g) == Items("GBXModelGeometry", g, "parts", part) IN Items("GBXModel", v, "geometries", geometry)

(* a scale that is unset is the other one, or 1 *)
Scale(s, v, set) ==
  LET u == Num(s, v, "map_u_scale") w == Num(s, v, "map_v_scale")
      with(a, b) == SetNum(s, SetNum(s, v, "map_u_scale", a), "map_v_scale", b)
      plain(x) == IsZero(x) \/ FEq(x, F1) IN
  IF ~set THEN (IF plain(u) /\ plain(w) THEN with(F0, F0) ELSE v)
  ELSE IF IsZero(u) /\ IsZero(w) THEN with(F1, F1) ELSE IF IsZero(u) THEN with(w, w) ELSE IF IsZero(w) THEN with(u, u) ELSE v
ShaderModelRule(v, set) == LET maps(m) == Scale("ShaderModelMaps", m, set) IN Within("ShaderModel", v, "maps", maps)
MapRule(s, m, set) == LET params(p) == Scale("ShaderTransparentMapParameters", p, set) IN Within(s, m, "parameters", params)
GenericRule(v, set) == LET map(m) == MapRule("ShaderTransparentGenericMap", m, set) IN Items("ShaderTransparentGeneric", v, "maps", map)
ChicagoRule(v, set) == LET map(m) == MapRule("ShaderTransparentChicagoMap", m, set) IN Items("ShaderTransparentChicago", v, "maps", map)
ChicagoExtendedRule(v, set) ==
  LET map(m) == MapRule("ShaderTransparentChicagoMap", m, set) s == "ShaderTransparentChicagoExtended" IN Items(s, Items(s, v, "2_stage_maps", map), "4_stage_maps", map)

(* the radius animation is unset at 1; sizes at which it fades go together *)
F4 == <<64, 128, 0, 0>>
F5 == <<64, 160, 0, 0>>
ParticleRule(v0, set) ==
  LET s == "Particle"
      from == IF set THEN F1 ELSE F0
      to == IF set THEN F0 ELSE F1
      v == EndOf(s, EndOf(s, v0, "radius_animation", 1, from, to), "radius_animation", 2, from, to)
      a == Num(s, v, "fade_start_size")
      b == Num(s, v, "fade_end_size")
      with(x, y) == SetNum(s, SetNum(s, v, "fade_start_size", x), "fade_end_size", y)
  IN IF set THEN (IF IsZero(a) \/ IsZero(b) THEN with(F5, F4) ELSE v)
     ELSE IF (IsZero(a) \/ FEq(a, F5)) /\ (IsZero(b) \/ FEq(b, F4)) THEN with(F0, F0) ELSE v

--------------------------------------------------------------- \* sounds
SoundClass(v) == Enums["SoundClass"][Get("Sound", v, "sound_class") + 1]
F(x) == CASE x = "0.5" -> <<63, 0, 0, 0>> [] x = "0.9" -> <<63, 102, 102, 102>> [] x = "1" -> F1 [] x = "1.4" -> <<63, 179, 51, 51>> [] x = "2" -> <<64, 0, 0, 0>>
          [] x = "3" -> <<64, 64, 0, 0>> [] x = "4" -> F4 [] x = "5" -> F5 [] x = "8" -> <<65, 0, 0, 0>> [] x = "9" -> <<65, 16, 0, 0>> [] x = "10" -> <<65, 32, 0, 0>>
          [] x = "20" -> <<65, 160, 0, 0>> [] x = "70" -> <<66, 140, 0, 0>> [] x = "120" -> <<66, 240, 0, 0>>
Distances(c) ==
  CASE c \in {"device_machinery", "device_force_field", "ambient_machinery", "ambient_nature", "device_door", "music", "device_nature"} -> <<"0.9", "5">>
    [] c \in {"weapon_empty", "weapon_idle", "weapon_ready", "weapon_reload", "weapon_charge", "weapon_overheat"} -> <<"1", "9">>
    [] c \in {"scripted_dialog_other", "scripted_dialog_player", "game_event", "unit_dialog", "scripted_dialog_force_unspatialized"} -> <<"3", "20">>
    [] c \in {"first_person_damage", "object_impacts", "ambient_computers", "particle_impacts", "device_computers", "slow_particle_impacts"} -> <<"0.5", "3">>
    [] c \in {"vehicle_engine", "projectile_impact", "vehicle_collision"} -> <<"1.4", "8">>
    [] c = "weapon_fire" -> <<"4", "70">>
    [] c = "scripted_effect" -> <<"2", "5">>
    [] c = "projectile_detonation" -> <<"8", "120">>
    [] c = "unit_footsteps" -> <<"0.9", "10">>
QuietAtZero == {"object_impacts", "particle_impacts", "slow_particle_impacts", "unit_dialog", "music", "ambient_nature", "ambient_machinery", "ambient_computers",
                "scripted_dialog_player", "scripted_dialog_other", "scripted_dialog_force_unspatialized", "scripted_effect"}
P == "SoundPermutation"
Split(v) == \E i \in 1..Len(Get("Sound", v, "flags")) : Bits["SoundFlags"].fields[Get("Sound", v, "flags")[i] + 1].n = "split_long_sound_into_permutations"
NextOf(p) == LET b == Num(P, p, "next_permutation_index") IN (b[1] * 256) + b[2]
RECURSIVE Chain(_, _, _)
(* the parts that follow a part, until the chain ends or comes back *)
Chain(ps, at, seen) == IF at >= Len(ps) \/ at \in seen THEN seen ELSE Chain(ps, NextOf(ps[at + 1]), seen \cup {at})
After(ps, k) == Chain(ps, NextOf(ps[k]), {})
RECURSIVE CopyGains(_, _, _)
(* each part has the gain of the permutation it is a part of *)
CopyGains(ps, k, n) ==
  IF k > n THEN ps
  ELSE LET parts == After(ps, k) g == Get(P, ps[k], "gain") IN
       CopyGains([j \in 1..Len(ps) |-> IF (j - 1) \in parts THEN Put(P, ps[j], "gain", g) ELSE ps[j]], k + 1, n)
PitchRule(r, split, set) ==
  LET s == "SoundPitchRange"
      natural == IF FLess(F0, Num(s, r, "natural_pitch")) THEN Num(s, r, "natural_pitch") ELSE F1
      bounds == Get(s, r, "bend_bounds")
      upper == IF FLess(bounds[2][1], natural) THEN natural ELSE bounds[2][1]
      lower == IF FLess(natural, bounds[1][1]) THEN natural ELSE bounds[1][1]
      upper2 == IF ~set /\ FEq(upper, natural) /\ IsZero(lower) THEN F0 ELSE upper
      clamped == Put(s, r, "bend_bounds", <<<<lower>>, <<upper2>>>>)
      ps == Get(s, r, "permutations")
      count == IF split THEN LET b == Num(s, r, "actual_permutation_count") IN (b[1] * 256) + b[2] ELSE Len(ps)
      mains == [j \in 1..Len(ps) |-> IF j > count THEN ps[j] ELSE IF set THEN Single(P, ps[j], "gain", F0, F1) ELSE Single(P, ps[j], "gain", F1, F0)]
      all == IF ~split THEN mains ELSE IF set THEN CopyGains(mains, 1, count) ELSE [j \in 1..Len(ps) |-> IF j > count THEN SetNum(P, mains[j], "gain", F0) ELSE mains[j]]
  IN IF count > Len(ps) THEN clamped ELSE Put(s, clamped, "permutations", all)
SoundRule(v0, set) ==
  LET s == "Sound"
      pitch(r) == PitchRule(r, Split(v0), set)
      d == Distances(SoundClass(v0))
      zero == IF SoundClass(v0) \in QuietAtZero THEN F0 ELSE F1
      bound(v, n, i, x) == IF set THEN EndOf(s, v, n, i, F0, x) ELSE EndOf(s, v, n, i, x, F0)
      v1 == Items(s, v0, "pitch_ranges", pitch)
      v2 == bound(bound(v1, "distance_bounds", 1, F(d[1])), "distance_bounds", 2, F(d[2]))
      v3 == bound(bound(v2, "random_pitch_bounds", 1, F1), "random_pitch_bounds", 2, F1)
      v4 == Pair(s, Pair(s, v3, "zero_skip_fraction_modifier", "one_skip_fraction_modifier", set), "zero_pitch_modifier", "one_pitch_modifier", set)
  IN IF set THEN Both(s, v4, "zero_gain_modifier", "one_gain_modifier", <<F0, F0>>, <<zero, F1>>)
     ELSE Both(s, v4, "zero_gain_modifier", "one_gain_modifier", <<zero, F1>>, <<F0, F0>>)
(* every part of a split permutation belongs to one *)
Reachable(v) ==
  ~Split(v) \/ \A i \in 1..Len(Get("Sound", v, "pitch_ranges")) :
     LET r == Get("Sound", v, "pitch_ranges")[i] ps == Get("SoundPitchRange", r, "permutations") b == Num("SoundPitchRange", r, "actual_permutation_count") n == (b[1] * 256) + b[2]
     IN n > Len(ps) \/ \A j \in (n + 1)..Len(ps) : \E k \in 1..n : (j - 1) \in After(ps, k)

--------------------------------------------------------------- \* together
Special == {"sound", "light", "particle", "light_volume", "shader_model", "shader_transparent_chicago", "shader_transparent_chicago_extended", "shader_transparent_generic",
            "lens_flare", "sound_looping", "model", "gbxmodel"}
Rule(g, v, set) ==
  CASE g = "sound" -> SoundRule(v, set)
    [] g = "light" -> LightRule(v, set)
    [] g = "particle" -> ParticleRule(v, set)
    [] g = "light_volume" -> LightVolumeRule(v, set)
    [] g = "shader_model" -> ShaderModelRule(v, set)
    [] g = "shader_transparent_chicago" -> ChicagoRule(v, set)
    [] g = "shader_transparent_chicago_extended" -> ChicagoExtendedRule(v, set)
    [] g = "shader_transparent_generic" -> GenericRule(v, set)
    [] g = "lens_flare" -> LensFlareRule(v, set)
    [] g = "sound_looping" -> SoundLoopingRule(v, set)
    [] g = "model" -> ModelRule(v, set)
    [] g = "gbxmodel" -> GbxModelRule(v, set)
    [] OTHER -> v
HasDefaults(g) == LET s == Groups[g].struct IN Inside(s) \/ g \in Special \/ IsObject(s)
ByDef(s, v, set) == IF Inside(s) THEN Def(s, v, set) ELSE v
ByObject(s, v, set) == IF IsObject(s) THEN InObject(s, v, set) ELSE v
Set(g, v) == LET s == Groups[g].struct IN ByObject(s, Rule(g, ByDef(s, v, TRUE), TRUE), TRUE)
(* the other way around: what was set last is stripped first *)
Strip(g, v) == LET s == Groups[g].struct IN ByDef(s, Rule(g, ByObject(s, v, FALSE), FALSE), FALSE)
(* stripping loses nothing *)
Restores(g, v) == (g = "sound" => Reachable(v)) => Diff(g, Set(g, Strip(g, v)), Set(g, v), TRUE, FALSE) = <<>>
==============================================================================
