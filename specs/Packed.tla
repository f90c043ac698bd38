-------------------------------- MODULE Packed --------------------------------
(* C22.  Values in a fixed number of bits.  A 32-bit number is <<high, low>>,  *)
(* its two 16-bit halves; W is the width of a half (16; smaller in C22MC).     *)
EXTENDS Integers, Sequences, Bitwise, Utf8
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* --- identifiers: index below, salt mixed with the index above, top bit set *)
Ones(w) == Pow2(w) - 1
Top(w) == Pow2(w - 1)
Null(w) == <<Ones(w), Ones(w)>>
None == -1
IndexOf(w, id) == IF id = Null(w) THEN None ELSE id[2]
SaltOf(w, id) == IF id = Null(w) THEN None ELSE (id[1] ^^ id[2]) % Top(w)
Valid(w, id) == id[1] >= Top(w)
MakeId(w, index, salt) == IF index = None THEN Null(w) ELSE <<((salt ^^ index) % Top(w)) + Top(w), index>>
(* --- indices: all ones is none and nothing else *)
ReadIndex(w, n) == IF n = Ones(w) THEN None ELSE n
(* --- numbers from -1 to 1 in b bits: the sign bit alone is -1.  A number is   *)
(* the fraction n / d.                                                         *)
Max(b) == Pow2(b - 1) - 1
(* numerator and denominator of what a code stands for *)
Decode(b, c) == IF c >= Pow2(b - 1) THEN <<(c - Pow2(b - 1)) - Pow2(b - 1), Pow2(b - 1)>> ELSE <<c, Max(b)>>
Clamp(n, d) == IF n > d THEN d ELSE IF n < -d THEN -d ELSE n
Abs(n) == IF n < 0 THEN -n ELSE n
(* c is the code nearest to n / d: at most half a step of its side away, and on its side *)
Nearest(b, n, d, c) ==
  LET v == Clamp(n, d)  q == Decode(b, c)  m == IF v < 0 THEN Pow2(b - 1) ELSE Max(b) IN
  /\ c \in 0..(Pow2(b) - 1)
  /\ (v >= 0 => q[1] >= 0) /\ (v <= 0 => q[1] <= 0)
  /\ 2 * Abs(v * m - q[1] * d) <= d
(* c may be the nearest to something between n / d and (n + 1) / d *)
NearestTo(b, n, d, c) ==
  LET v == Clamp(n, d)  w == Clamp(n + 1, d)  q == Decode(b, c)  m == IF n < 0 THEN Pow2(b - 1) ELSE Max(b) IN
  /\ c \in 0..(Pow2(b) - 1)
  /\ (n >= 0 => q[1] >= 0) /\ (n < 0 => q[1] <= 0)
  /\ 2 * (v * m - q[1] * d) <= d /\ 2 * (q[1] * d - w * m) <= d
(* --- colours: alpha, red, green, blue, 8 bits each, from the top *)
PackColour(c) == <<c[1] * 256 + c[2], c[3] * 256 + c[4]>>
UnpackColour(v) == <<v[1] \div 256, v[1] % 256, v[2] \div 256, v[2] % 256>>
Y8(y) == <<255, y, y, y>>
A8Y8(v) == <<v \div 256, v % 256, v % 256, v % 256>>
(* --- strings of 32 bytes *)
Fits32(s) == Len(s) <= 31
UpTo0(s) == IF \E i \in 1..Len(s) : s[i] = 0 THEN SubSeq(s, 1, (CHOOSE i \in 1..Len(s) : s[i] = 0 /\ \A j \in 1..(i - 1) : s[j] # 0) - 1) ELSE s
Text32(b) == Lossy(UpTo0(SubSeq(b, 1, 31)))
Store32(s) == s \o [i \in 1..(32 - Len(s)) |-> 0]
(* --- values of script nodes: the low bits, signed *)
Signed(n, w) == IF n >= Top(w) THEN n - Pow2(w) ELSE n
(* --- bytes to the next multiple *)
Padding(n, a) == (a - (n % a)) % a
(* --- bytes every value takes where it is stored *)
Sizes == [Bool |-> 1, I8 |-> 1, U8 |-> 1, I16 |-> 2, U16 |-> 2, I32 |-> 4, U32 |-> 4, Float |-> 4, Angle |-> 4, Index |-> 2, ID |-> 4, TagGroup |-> 4,
          Address |-> 4, String32 |-> 32, Vector2D |-> 8, Vector3D |-> 12, Plane2D |-> 12, Plane3D |-> 16, Euler2D |-> 8, Euler3D |-> 12, Quaternion |-> 16,
          Matrix3x3 |-> 36, Vector2DInt |-> 4, Rectangle |-> 8, CompressedVector3D |-> 4, CompressedVector2D |-> 4, CompressedFloat |-> 2,
          ColorRGBFloat |-> 12, ColorARGBFloat |-> 16, ColorARGBInt |-> 4, ColorARGBIntBytes |-> 4, ScenarioScriptNodeValue |-> 4]
===============================================================================
