------------------------------- MODULE Nudge -------------------------------
(* Decimal numbers <<negative, digits before the point, digits after it>> as  *)
(* floats are printed (shortest form), rounding them to K significant digits, *)
(* and which fields of which tags are rounded.                                *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Lead(_)
Lead(d) == IF d # <<>> /\ d[1] = 0 THEN Lead(Tail(d)) ELSE d
RECURSIVE Trail(_)
Trail(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Trail(SubSeq(d, 1, Len(d) - 1)) ELSE d
(* no zeros that say nothing, but one digit before the point *)
Normal(x) == LET i == Lead(x[2]) IN <<x[1], IF i = <<>> THEN <<0>> ELSE i, Trail(x[3])>>
Zeros(n) == [i \in 1..n |-> 0]
(* add one at the last digit *)
RECURSIVE Inc(_)
Inc(d) == IF d = <<>> THEN <<1>> ELSE IF d[Len(d)] = 9 THEN Inc(SubSeq(d, 1, Len(d) - 1)) \o <<0>> ELSE [d EXCEPT ![Len(d)] = @ + 1]
(* the nearest number with K significant digits; both if they are equally near *)
Round(x, K) ==
  LET all == x[2] \o x[3]
      sig == Lead(all)
      skip == Len(all) - Len(sig)
      keep == SubSeq(all, 1, skip + K)
      point == Len(x[2])
      Make(d) ==  \* d stands for the digits up to position skip + K, perhaps with one more in front
        LET more == Len(d) - (skip + K)
            full == d \o Zeros(Len(all) - (skip + K))
        IN Normal(<<x[1], SubSeq(full, 1, point + more), SubSeq(full, point + more + 1, Len(full))>>)
      rest == SubSeq(all, skip + K + 1, Len(all))
      tie == rest # <<>> /\ rest[1] = 5 /\ Trail(rest) = <<5>>
  IN IF Len(Trail(sig)) <= K \/ Len(sig) <= K THEN {Normal(x)}
     ELSE IF tie THEN {Make(keep), Make(Inc(keep))}
     ELSE IF rest[1] >= 5 THEN {Make(Inc(keep))} ELSE {Make(keep)}
Special(x) == Len(x) = 1
(* what nudging may make of a float *)
Nudged(x) == IF Special(x) THEN {x} ELSE Round(x, 6)
-----------------------------------------------------------------------------
Objects == {"object", "unit", "biped", "vehicle", "item", "weapon", "garbage", "equipment", "device", "device_machine", "device_control", "device_light_fixture",
            "scenery", "placeholder", "sound_scenery"}
Weight == "change_colors.permutations.weight"
(* the numbers of a tag that are rounded; names from the innermost struct on are enough *)
Fields(g) ==
  CASE g = "actor_variant" -> {"grenades.grenade_velocity"}
    [] g \in {"continuous_damage_effect", "damage_effect"} -> {"camera_shaking.wobble_period"}
    [] g = "point_physics" -> {"air_friction", "water_friction"}
    [] g = "projectile" -> {"minimum_velocity", "initial_velocity", "final_velocity", "material_response.potential_and"}
    [] g = "scenario" -> {"cutscene_titles.fade_in_time", "cutscene_titles.fade_out_time", "cutscene_titles.up_time"}
    [] g = "light" -> {"effect_parameters.duration"}
    [] g = "sound" -> {"maximum_bend_rate"}
    [] OTHER -> {}
Nudgeable(g) == Fields(g) # {} \/ g \in Objects
-----------------------------------------------------------------------------
(* weights that are all 1/n, or nearly, all become 1 *)
RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE (10 * Value(SubSeq(d, 1, Len(d) - 1))) + d[Len(d)]
(* times a million, for rounded weights from 0 to 9 with at most six decimals; -1: some other number *)
Millionths(x) == IF Special(x) \/ x[1] \/ Len(x[2]) > 1 \/ Len(x[3]) > 6 THEN -1 ELSE Value(x[2] \o x[3] \o Zeros(6 - Len(x[3])))
Abs(v) == IF v < 0 THEN -v ELSE v
NearShare(x, n) == Millionths(x) # -1 /\ Abs((Millionths(x) * n) - 1000000) <= 1000
OnTheEdge(x, n) == Millionths(x) # -1 /\ Abs((Millionths(x) * n) - 1000000) = 1000
One == <<FALSE, <<1>>, <<>>>>
RECURSIVE Choices(_)
Choices(a) == IF a = <<>> THEN {<<>>} ELSE {<<y>> \o t : y \in Nudged(a[1]), t \in Choices(Tail(a))}
(* a, b: the weights before and after *)
Weights(a, b) ==
  LET n == Len(a) IN
  n = 0 \/ \E r \in Choices(a) :
    \/ (\A i \in 1..n : NearShare(r[i], n)) /\ b = [i \in 1..n |-> One]
    \/ (~(\A i \in 1..n : NearShare(r[i], n)) \/ (\E i \in 1..n : OnTheEdge(r[i], n))) /\ b = r
=============================================================================
