------------------------------ MODULE TagCodec ------------------------------
(* C11, C12.  The tag file format: what bytes a tag value becomes, and what   *)
(* value (or refusal) a byte string is.  `Layout' is the table of structures, *)
(* enumerations, bit fields and groups (layout.json, pinned in this folder).  *)
(*                                                                            *)
(* Values: struct = tuple of its fields' values; number = tuple of the bytes  *)
(* (big endian) of each component; enum = option number; bits = tuple of set  *)
(* bit numbers; block = tuple of structs; reference = [g (fourcc), p (path)]; *)
(* raw data, text = bytes.  Padding and unstored fields are <<>>.             *)
EXTENDS Integers, Sequences, FiniteSets, Json, Utf8, Crc32
Layout == JsonDeserialize("layout.json")
Structs == Layout.structs
Enums == Layout.enums
Bits == Layout.bitfields
Groups == Layout.groups
FourCC == Layout.fourcc
Unset == <<0, 0, 0, 0>>
KnownFourCC == {FourCC[g] : g \in DOMAIN FourCC}
GroupOf == [c \in {FourCC[g] : g \in DOMAIN Groups} |-> CHOOSE g \in DOMAIN Groups : FourCC[g] = c]

Stored(f) == ~f.c /\ ~f.x
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE SumW(_, _)
SumW(w, i) == IF i > Len(w) THEN 0 ELSE w[i] + SumW(w, i + 1)
(* size of one value of a field *)
One(f) == CASE f.k \in {"prim", "pad"} -> SumW(f.w, 1)
            [] f.k = "enum" -> 2
            [] f.k = "bits" -> Bits[f.s].bytes
            [] f.k = "struct" -> Structs[f.s].size
            [] f.k = "refl" -> 12
            [] f.k = "ref" -> 16
            [] f.k = "group" -> 4
            [] f.k = "data" -> 20
            [] f.k = "str32" -> 32
FieldSize(f) == One(f) * f.cnt

Be4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Be2(n) == <<n \div 256, n % 256>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
NullRef(g) == FourCC[g] \o Zeros(8) \o <<255, 255, 255, 255>>
FirstOption(e) == CHOOSE i \in 1..Len(Enums[e]) : Enums[e][i] # "" /\ \A j \in 1..(i - 1) : Enums[e][j] = ""
(* bits that live in tag files *)
BitKept(b, i) == LET f == Bits[b].fields[i + 1] IN ~f.c /\ ~f.x

---------------------------------------------------------------- \* encoding
RECURSIVE Cat(_, _)
Cat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Cat(ss, i + 1)
Comps(f, v) == Cat([i \in 1..Len(v) |-> IF f.le THEN Rev(v[i]) ELSE v[i]], 1)
BitBytes(b, v, le) ==
  LET n == Bits[b].bytes
      byte(k) == LET on == {i \in 0..(Len(Bits[b].fields) - 1) : i \div 8 = k /\ BitKept(b, i) /\ \E j \in 1..Len(v) : v[j] = i}
                     S[X \in SUBSET on] == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN 2^(x % 8) + S[X \ {x}]
                 IN S[on]
      les == [k \in 1..n |-> byte(k - 1)]
  IN IF le THEN les ELSE Rev(les)

RECURSIVE DefStruct(_, _)
(* bytes of a structure holding its default value *)
DefOne(f) ==
  CASE f.k = "prim" -> IF f.t = "Index" THEN <<255, 255>> ELSE IF f.t \in {"ID", "TagID"} THEN <<255, 255, 255, 255>> ELSE Zeros(One(f))
    [] f.k = "enum" -> Be2(FirstOption(f.s) - 1)
    [] f.k = "ref" -> IF f.g[1] = "*" THEN NullRef("<unset>") ELSE NullRef(f.g[1])
    [] f.k = "struct" -> DefStruct(f.s, 1)
    [] OTHER -> Zeros(One(f))
Unstored(f) == IF f.k \in {"struct"} THEN DefStruct(f.s, 1) ELSE IF f.k = "ref" THEN NullRef(f.g[1]) ELSE Zeros(FieldSize(f))
DefStruct(s, i) ==
  LET fs == Structs[s].fields
  IN IF i > Len(fs) THEN <<>>
     ELSE LET f == fs[i] IN (IF Stored(f) THEN Cat([j \in 1..f.cnt |-> DefOne(f)], 1) ELSE Unstored(f)) \o DefStruct(s, i + 1)

RECURSIVE EncStruct(_, _)
RECURSIVE EncFields(_, _, _)
(* <<bytes in place, bytes that follow>> *)
EncOne(f, v) ==
  CASE f.k = "prim" -> <<Comps(f, v), <<>>>>
    [] f.k = "enum" -> <<IF f.le THEN Rev(Be2(v)) ELSE Be2(v), <<>>>>
    [] f.k = "bits" -> <<BitBytes(f.s, v, f.le), <<>>>>
    [] f.k = "struct" -> EncStruct(f.s, v)
    [] f.k = "refl" -> LET es == [i \in 1..Len(v) |-> EncStruct(f.s, v[i])]
                       IN <<Be4(Len(v)) \o Zeros(8), Cat([i \in 1..Len(v) |-> es[i][1]], 1) \o Cat([i \in 1..Len(v) |-> es[i][2]], 1)>>
    [] f.k = "ref" -> <<v.g \o Zeros(4) \o Be4(Len(v.p)) \o <<255, 255, 255, 255>>, IF v.p = <<>> THEN <<>> ELSE v.p \o <<0>>>>
    [] f.k = "group" -> <<v, <<>>>>
    [] f.k = "data" -> <<Be4(Len(v)) \o Zeros(16), v>>
    [] f.k = "str32" -> <<v, <<>>>>
EncField(f, v) ==
  IF f.k = "pad" THEN <<Zeros(One(f)), <<>>>>
  ELSE IF ~Stored(f) THEN <<Unstored(f), <<>>>>
  ELSE IF f.form = "one" THEN EncOne(f, v)
  ELSE LET es == [i \in 1..f.cnt |-> EncOne(f, v[i])] IN <<Cat([i \in 1..f.cnt |-> es[i][1]], 1), Cat([i \in 1..f.cnt |-> es[i][2]], 1)>>
EncFields(fs, v, i) ==
  IF i > Len(fs) THEN <<<<>>, <<>>>>
  ELSE LET h == EncField(fs[i], v[i])  t == EncFields(fs, v, i + 1) IN <<h[1] \o t[1], h[2] \o t[2]>>
EncStruct(s, v) == EncFields(Structs[s].fields, v, 1)

Header(g, body) == Zeros(36) \o FourCC[g] \o CrcBytes(body) \o <<0, 0, 0, 64>> \o Zeros(8) \o Be2(Groups[g].version) \o <<0, 255>> \o <<98, 108, 97, 109>>
Encode(g, v) == LET e == EncStruct(Groups[g].struct, v)  body == e[1] \o e[2] IN Header(g, body) \o body

---------------------------------------------------------------- \* decoding
(* A step of the decoder: [ok, v, c]: c is the number of bytes used up so far *)
Bad == [ok |-> FALSE]
Good(v, c) == [ok |-> TRUE, v |-> v, c |-> c]
At(b, at, n) == SubSeq(b, at + 1, at + n)
(* a length that is surely larger than any file here counts as -1 *)
Count(b, at) == IF b[at + 1] > 0 THEN -1 ELSE b[at + 2] * 65536 + b[at + 3] * 256 + b[at + 4]
Fits(n, at, b) == n >= 0 /\ at + n <= Len(b)
FloatTypes == {"float", "Angle", "Vector2D", "Vector3D", "Euler2D", "Euler3D", "Plane2D", "Plane3D", "Quaternion", "Matrix3x3", "ColorRGBFloat", "ColorARGBFloat"}
(* every not-a-number is the same value *)
Quiet(c) == IF Len(c) = 4 /\ c[1] % 128 = 127 /\ c[2] >= 128 /\ (c[2] > 128 \/ c[3] # 0 \/ c[4] # 0) THEN <<127, 192, 0, 0>> ELSE c
RECURSIVE DecComps(_, _, _, _)
DecComps(f, b, at, i) ==
  IF i > Len(f.w) THEN <<>>
  ELSE LET raw == At(b, at, f.w[i])  c == IF f.le THEN Rev(raw) ELSE raw
       IN <<IF f.t \in FloatTypes THEN Quiet(c) ELSE c>> \o DecComps(f, b, at + f.w[i], i + 1)
DecEnum(f, b, at) ==
  LET raw == At(b, at, 2)  n == IF f.le THEN raw[2] * 256 + raw[1] ELSE raw[1] * 256 + raw[2]
  IN IF n < Len(Enums[f.s]) /\ Enums[f.s][n + 1] # "" THEN n ELSE FirstOption(f.s) - 1
DecBits(f, b, at) ==
  LET n == Bits[f.s].bytes  raw == At(b, at, n)  les == IF f.le THEN raw ELSE Rev(raw)
      on(i) == (les[(i \div 8) + 1] \div (2^(i % 8))) % 2 = 1
  IN SelectSeq([i \in 1..Len(Bits[f.s].fields) |-> i - 1], LAMBDA i : BitKept(f.s, i) /\ on(i))
Group4(c) == IF c = <<255, 255, 255, 255>> THEN Unset ELSE c
Known4(c) == Group4(c) \in KnownFourCC
Until0(s) == LET z == {i \in 1..Len(s) : s[i] = 0} IN IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
Str32(raw) == LET t == Lossy(Until0(SubSeq(raw, 1, 31))) IN t \o Zeros(32 - Len(t))

RECURSIVE DecFields(_, _, _, _, _, _)
RECURSIVE DecItems(_, _, _, _, _, _)
RECURSIVE DecForm(_, _, _, _, _, _)
DecStruct(s, b, at, c) == DecFields(Structs[s].fields, 1, b, at, c, <<>>)
DecItems(s, n, b, at, c, acc) ==
  IF n = 0 THEN Good(acc, c)
  ELSE LET r == DecStruct(s, b, at, c)
       IN IF r.ok THEN DecItems(s, n - 1, b, at + Structs[s].size, r.c, Append(acc, r.v)) ELSE Bad
DecOne(f, b, at, c) ==
  CASE f.k = "prim" -> Good(DecComps(f, b, at, 1), c)
    [] f.k = "enum" -> Good(DecEnum(f, b, at), c)
    [] f.k = "bits" -> Good(DecBits(f, b, at), c)
    [] f.k = "struct" -> DecStruct(f.s, b, at, c)
    [] f.k = "refl" -> LET n == Count(b, at)  z == Structs[f.s].size
                       IN IF n < 0 \/ n > Len(b) \/ ~Fits(n * z, c, b) THEN Bad ELSE DecItems(f.s, n, b, c, c + n * z, <<>>)
    [] f.k = "ref" -> LET n == Count(b, at + 8)  g == LET x == At(b, at, 4) IN IF Known4(x) THEN Group4(x) ELSE Unset
                      IN IF n = 0 THEN Good([g |-> g, p |-> <<>>], c)
                         ELSE IF n < 0 \/ ~Fits(n + 1, c, b) \/ b[c + n + 1] # 0 \/ ~ValidUtf8(At(b, c, n)) THEN Bad
                         ELSE Good([g |-> g, p |-> At(b, c, n)], c + n + 1)
    [] f.k = "group" -> LET x == At(b, at, 4) IN IF Known4(x) THEN Good(Group4(x), c) ELSE Bad
    [] f.k = "data" -> LET n == Count(b, at) IN IF ~Fits(n, c, b) THEN Bad ELSE Good(At(b, c, n), c + n)
    [] f.k = "str32" -> Good(Str32(At(b, at, 32)), c)
DecForm(f, n, b, at, c, acc) ==
  IF n = 0 THEN Good(acc, c)
  ELSE LET r == DecOne(f, b, at, c) IN IF r.ok THEN DecForm(f, n - 1, b, at + One(f), r.c, Append(acc, r.v)) ELSE Bad
(* fields that are not stored leave no value, but data they claim is skipped *)
DecField(f, b, at, c) ==
  IF f.k = "pad" \/ (~Stored(f) /\ f.k \in {"prim", "enum", "bits", "group", "str32"}) THEN Good(<<>>, c)
  ELSE IF f.form = "one" THEN DecOne(f, b, at, c)
  ELSE DecForm(f, f.cnt, b, at, c, <<>>)
DecFields(fs, i, b, at, c, acc) ==
  IF i > Len(fs) THEN Good(acc, c)
  ELSE LET f == fs[i]  r == DecField(f, b, at, c)
       IN IF ~r.ok THEN Bad ELSE DecFields(fs, i + 1, b, at + FieldSize(f), r.c, Append(acc, IF Stored(f) THEN r.v ELSE <<>>))

(* why a file is refused, or its group and value *)
HeaderOk(file) == /\ Len(file) >= 64
                  /\ Known4(At(file, 36, 4))
                  /\ At(file, 44, 4) = <<0, 0, 0, 64>> /\ At(file, 58, 2) = <<0, 255>> /\ At(file, 60, 4) = <<98, 108, 97, 109>>
CrcOk(file, relaxed) == relaxed \/ At(file, 40, 4) = <<255, 255, 255, 255>> \/ At(file, 40, 4) = CrcBytes(SubSeq(file, 65, Len(file)))
Refused == [ok |-> FALSE]
Decode(file, relaxed) ==
  IF ~HeaderOk(file) THEN Refused
  ELSE LET g4 == Group4(At(file, 36, 4))
       IN IF g4 \notin DOMAIN GroupOf THEN Refused
          ELSE LET g == GroupOf[g4]  s == Groups[g].struct  body == SubSeq(file, 65, Len(file))
               IN IF At(file, 56, 2) # Be2(Groups[g].version) \/ ~CrcOk(file, relaxed) \/ Len(body) < Structs[s].size THEN Refused
                  ELSE LET r == DecStruct(s, body, 0, Structs[s].size)
                       IN IF r.ok /\ r.c = Len(body) THEN [ok |-> TRUE, g |-> g, v |-> r.v] ELSE Refused
=============================================================================
