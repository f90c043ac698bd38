-------------------------------- MODULE C27MC --------------------------------
(* Every BSP of one material with up to one vertex of each kind, its buffers   *)
(* present, missing or of a wrong length, numbers in very few bits.            *)
EXTENDS Bsp, TLC
CONSTANT Wide
VB == <<3, 3, 2>>
Num(e) == <<e, 8, -1>>
CodeOf(b, x) == IF x[1] # NoE THEN CHOOSE c \in 0..(Pow2(b) - 1) : Nearest(b, x[1], x[2], c) ELSE x[3]
Codes(v) == [i \in 1..3 |-> CodeOf(VBits[i], v[i])]
Value(c) == [i \in 1..3 |-> <<NoE, 1, c[i]>>]
Sgn(x) == IF x > 0 THEN 1000 ELSE IF x < 0 THEN -1000 ELSE 0
Normal(x, y, z) == LET t == <<x * 125, y * 125, z * 125>> IN [th |-> t, sh |-> <<Sgn(x), Sgn(y), Sgn(z)>>, odd |-> t = <<0, 0, 0>>, raw |-> ToString(t)]
Straight == Normal(8, 0, 0)
Shorten(v) == [p |-> v.p, uv |-> v.uv, v |-> [k \in 1..3 |-> Codes(v.v[k])]]
Lengthen(v) == [p |-> v.p, uv |-> v.uv, v |-> [k \in 1..3 |-> Value(v.v[k])], nm |-> Straight]
ShortenLight(v) == [v |-> Codes(v.v), uv |-> [k \in 1..2 |-> CodeOf(FBits, v.uv[k])]]
LengthenLight(v) == [v |-> Value(v.v), uv |-> [k \in 1..2 |-> <<NoE, 1, v.uv[k]>>]]
Map(Op(_), q) == [i \in Ids(q) |-> Op(q[i])]
None0 == [n |-> 0, rv |-> <<>>, lv |-> <<>>, raw |-> ""]
Restore(m) ==
  IF ~Lacks(m) THEN m
  ELSE IF m.u.n = 0 THEN [m EXCEPT !.u = [n |-> Room(m, Long), rv |-> Map(Lengthen, m.c.rv), lv |-> Map(LengthenLight, m.c.lv), raw |-> ""]]
  ELSE [m EXCEPT !.c = [n |-> Room(m, Short), rv |-> Map(Shorten, m.u.rv), lv |-> Map(ShortenLight, m.u.lv), raw |-> ""]]
Straighten(v) == IF IsUnit(v.nm) THEN v ELSE [v EXCEPT !.nm = IF v.nm.odd \/ v.nm.sh[1] = 1000 THEN Straight ELSE [th |-> <<0, -1000, 0>>, sh |-> <<0, -1000, 0>>, odd |-> FALSE, raw |-> "down"], !.v[1] = <<Num(8), Num(0), Num(0)>>]
Repair(m) == IF m.u.n = 0 THEN m ELSE [m EXCEPT !.u.rv = Map(Straighten, @)]
-----------------------------------------------------------------------------
Eighths == IF Wide THEN {-12, -8, -3, 0, 1, 5, 8} ELSE {-12, -3, 0, 8}
Triples == {<<Num(x), Num(y), Num(8)>> : x \in Eighths, y \in Eighths}
Longs == {[p |-> "p", uv |-> "uv", v |-> <<t, <<Num(8), Num(0), Num(0)>>, t>>, nm |-> n] : t \in Triples, n \in {Straight, Normal(0, -16, 0), Normal(0, 0, 0), Normal(16, 0, 0)}}
LightsOf == {[v |-> t, uv |-> <<Num(x), Num(3)>>] : t \in Triples, x \in {-8, 3}}
Buf(n, rv, lv) == [n |-> n, rv |-> rv, lv |-> lv, raw |-> ""]
VARIABLE m
Init == \E r \in 0..2, l \in 0..1 :
          \E rv \in {<<>>} \cup {<<x>> : x \in Longs}, lv \in {<<>>} \cup {<<x>> : x \in LightsOf}, keep \in {"u", "c", "both", "none"}, off \in {0, 1} :
            /\ (off = 0 => Len(rv) = r /\ Len(lv) = l /\ l \in {0, r})
            /\ LET u == Buf(Len(rv) * Long[1] + Len(lv) * Long[2] + off, rv, lv)
                   c == Buf(Len(rv) * Short[1] + Len(lv) * Short[2] + off, Map(Shorten, rv), Map(ShortenLight, lv))
               IN m = [r |-> r, l |-> l, u |-> IF keep \in {"u", "both"} THEN u ELSE None0, c |-> IF keep \in {"c", "both"} THEN c ELSE None0]
Fix == ~Lost(m) /\ m' = Restore(m)
Tidy == Sound(m) /\ m' = Repair(m)
DropLong == m.c.n # 0 /\ m.u.n # 0 /\ m' = [m EXCEPT !.u = None0]
DropShort == m.c.n # 0 /\ m.u.n # 0 /\ m' = [m EXCEPT !.c = None0]
Next == Fix \/ Tidy \/ DropLong \/ DropShort
Spec == Init /\ [][Next]_m
-----------------------------------------------------------------------------
W(x) == [mats |-> <<x>>, objs |-> <<>>]
RestoreWorks == ~Lost(m) => LET n == Restore(m) IN IsRestored(W(m), W(n)) /\ ~Lacks(n) /\ (Sound(m) => Sound(n)) /\ (Sound(n) \/ ~Lacks(m))
RepairWorks == Sound(m) => LET n == Repair(m) IN IsRepaired(W(m), W(n)) /\ Sound(n) /\ ~Skewed(W(n)) /\ Repair(n) = n /\ (~Skewed(W(m)) => n = m)
(* what was compressed stays what it is, however often it is unpacked and packed *)
Lossless == Sound(m) /\ m.c.n # 0 => LET n == Restore([m EXCEPT !.u = None0]) IN Restore([n EXCEPT !.c = None0]).c = m.c
=============================================================================
