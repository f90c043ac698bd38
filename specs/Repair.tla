-------------------------------- MODULE Repair --------------------------------
(* C26.  What repairing a tag does to its numbers: what is not a number        *)
(* becomes zero, colours are brought into 0..1, and all else stays; and the    *)
(* repairs of single groups (unicode strings here; models: ModelTag, sounds:   *)
(* Sound, BSPs: Bsp).                                                          *)
EXTENDS TagDiff
U == INSTANCE UnicodeText
Colours == {"ColorARGBFloat", "ColorRGBFloat"}
F0 == <<0, 0, 0, 0>>
F1 == <<63, 128, 0, 0>>
Negative(c) == c[1] >= 128
LexLess(a, b) == \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
TooMuch(c) == ~IsNaN(c) /\ ~Negative(c) /\ LexLess(F1, c)
TooLittle(c) == ~IsNaN(c) /\ Negative(c) /\ ~IsZero(c)
Outside(c) == IsNaN(c) \/ TooMuch(c) \/ TooLittle(c)
(* a number before and after *)
IsFixed(c, d) == IF IsNaN(c) THEN d = F0 ELSE d = c
IsClamped(c, d) == IF IsNaN(c) \/ TooLittle(c) \/ IsZero(c) THEN IsZero(d) ELSE d = IF TooMuch(c) THEN F1 ELSE c
PrimFixed(f, a, b) ==
  Len(a) = Len(b) /\ IF f.t \in Colours THEN \A i \in 1..Len(a) : IsClamped(a[i], b[i])
                     ELSE IF f.t \in FloatTypes THEN \A i \in 1..Len(a) : IsFixed(a[i], b[i])
                     ELSE a = b
(* fields the repairs of their group change, too *)
Own == [g \in DOMAIN Groups |->
  CASE g \in {"model", "gbxmodel"} -> {<<"ModelNode", "default_rotation">>, <<"ModelRegionPermutationMarker", "rotation">>, <<"ModelRegionPermutation", "markers">>, <<"Model", "runtime_markers">>, <<"GBXModel", "runtime_markers">>,
                                       <<"ModelGeometryPart", "compressed_vertices">>, <<"ModelGeometryPart", "uncompressed_vertices">>}
    [] g = "sound" -> {<<"Sound", "flags">>, <<"Sound", "format">>, <<"Sound", "sample_rate">>, <<"Sound", "channel_count">>, <<"SoundPitchRange", "actual_permutation_count">>,
                       <<"SoundPermutation", "buffer_size">>, <<"SoundPermutation", "next_permutation_index">>}
    [] g = "scenario" -> {<<"Scenario", "source_files">>}
    [] g = "scenario_structure_bsp" -> {<<"ScenarioStructureBSPMaterial", "uncompressed_vertices">>}
    [] g = "unicode_string_list" -> {<<"UnicodeStringListString", "string">>}
    [] OTHER -> {}]
RECURSIVE FixedStruct(_, _, _, _)
FixedOne(f, a, b, own) ==
  CASE f.k = "prim" -> PrimFixed(f, a, b)
    [] f.k = "struct" -> FixedStruct(f.s, a, b, own)
    [] f.k = "refl" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : FixedStruct(f.s, a[i], b[i], own)
    [] OTHER -> a = b
FixedStruct(s, a, b, own) ==
  \A i \in 1..Len(Structs[s].fields) :
    LET f == Structs[s].fields[i] IN
    IF f.k = "pad" \/ f.x \/ <<s, f.n>> \in own THEN TRUE
    ELSE IF f.form = "one" THEN FixedOne(f, a[i], b[i], own)
    ELSE Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : FixedOne(f, a[i][j], b[i][j], own)
IsRepaired(g, a, b) == FixedStruct(Groups[g].struct, a, b, Own[g])
(* whether there is a stored number that is not one ("nan"), or outside of the  *)
(* range of colours ("colour")                                                 *)
RECURSIVE Somewhere(_, _, _)
SomeOne(f, v, what) ==
  CASE f.k = "prim" -> f.t \in FloatTypes /\ \E i \in 1..Len(v) : IF what = "nan" THEN IsNaN(v[i]) ELSE f.t \in Colours /\ Outside(v[i])
    [] f.k = "struct" -> Somewhere(f.s, v, what)
    [] f.k = "refl" -> \E i \in 1..Len(v) : Somewhere(f.s, v[i], what)
    [] OTHER -> FALSE
Somewhere(s, v, what) ==
  \E i \in 1..Len(Structs[s].fields) :
    LET f == Structs[s].fields[i] IN
    f.k \in {"prim", "struct", "refl"} /\ ~f.x /\ ~f.c
    /\ IF f.form = "one" THEN SomeOne(f, v[i], what) ELSE \E j \in 1..Len(v[i]) : SomeOne(f, v[i][j], what)
NotANumber(g, v) == Somewhere(Groups[g].struct, v, "nan")
BadColour(g, v) == Somewhere(Groups[g].struct, v, "colour")
(* unicode string lists: strings that do not read properly are stored anew *)
StringsRepaired(a, b) ==
  LET strings(v) == v[CHOOSE i \in 1..Len(Structs["UnicodeStringList"].fields) : Structs["UnicodeStringList"].fields[i].n = "strings"]
      x == strings(a) y == strings(b) IN
  Len(x) = Len(y) /\ \A i \in 1..Len(x) : LET r == U!Read(x[i][1]) IN y[i][1] = IF r.ok THEN x[i][1] ELSE U!Stored(r.s)
BadString(v) == LET x == v[CHOOSE i \in 1..Len(Structs["UnicodeStringList"].fields) : Structs["UnicodeStringList"].fields[i].n = "strings"] IN \E i \in 1..Len(x) : ~U!Read(x[i][1]).ok
===============================================================================
