------------------------------ MODULE MapCodec ------------------------------
(* C15, C25.  Tag data inside cache files: little endian, every block, piece  *)
(* of raw data and text at an address of its own, in the address space         *)
(* (`domain') its structure lies in.                                          *)
(*                                                                            *)
(* Addresses are 32-bit numbers kept as <<high, low>> halves.  A domain is    *)
(* seen as a `view': n bytes of `buf' beginning after `at', found from address *)
(* `base' on; n = -1: there is no such domain.                                *)
(* A world W has: views map, tag, vtx (of BSPs), bsp (sequences), sounds,     *)
(* bitmaps, mv, mt; tags (sequence of [ok, g (fourcc), p (path)]); compressed, *)
(* extbsp, and whole: are structures only readable if they fit completely,    *)
(* even where their ends hold nothing?  (Both answers are acceptable.)        *)
EXTENDS TagCodec
NoView == [buf |-> <<>>, at |-> 0, n |-> -1, base |-> <<0, 0>>]
Huge == 1000000000
Add(a, k) == LET l == a[2] + (k % 65536) IN <<a[1] + (k \div 65536) + (l \div 65536), l % 65536>>
Diff(a, b) == LET h == a[1] - b[1]
              IN IF h < 0 \/ (h = 0 /\ a[2] < b[2]) THEN -1 ELSE IF h > 15000 THEN Huge ELSE (h * 65536) + a[2] - b[2]
Flat(n) == <<n \div 65536, n % 65536>>
View(W, d) ==
  CASE d[1] = "map" -> W.map
    [] d[1] = "tag" -> W.tag
    [] d[1] = "bsp" -> IF d[2] \in 1..Len(W.bsp) THEN W.bsp[d[2]] ELSE NoView
    [] d[1] = "vtx" -> IF d[2] \in 1..Len(W.vtx) THEN W.vtx[d[2]] ELSE NoView
    [] d[1] = "mv" -> W.mv
    [] d[1] = "mt" -> W.mt
    [] d[1] = "file" -> W.files[d[2]]
    [] d[1] = "own" -> d[2]
In(v, a, n) == LET o == Diff(a, v.base) IN v.n >= 0 /\ o >= 0 /\ o <= v.n /\ n <= v.n - o
(* what is not in a BSP is looked for in the tag data *)
Place(W, d, a, n) == IF In(View(W, d), a, n) THEN View(W, d)
                     ELSE IF d[1] = "bsp" /\ View(W, d).n >= 0 /\ In(W.tag, a, n) THEN W.tag ELSE NoView
Fetch(W, d, a, n) ==
  LET v == Place(W, d, a, n)
  IN IF v.n < 0 THEN [ok |-> FALSE] ELSE LET o == v.at + Diff(a, v.base) IN [ok |-> TRUE, v |-> SubSeq(v.buf, o + 1, o + n)]
Le2(b, i) == b[i] + (b[i + 1] * 256)
Pair(b, i) == <<Le2(b, i + 2), Le2(b, i)>>
Num(b, i) == LET p == Pair(b, i) IN IF p[1] > 1000 THEN Huge ELSE (p[1] * 65536) + p[2]
(* the text at an address, up to its zero *)
CString(W, d, a) ==
  LET v == Place(W, d, a, 0)
  IN IF v.n < 0 THEN [ok |-> FALSE]
     ELSE LET o == Diff(a, v.base)
              rest == SubSeq(v.buf, v.at + o + 1, v.at + v.n)
              z == {i \in 1..Len(rest) : rest[i] = 0}
          IN IF z = {} THEN [ok |-> FALSE]
             ELSE LET t == SubSeq(rest, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
                  IN IF ValidUtf8(t) THEN [ok |-> TRUE, v |-> t] ELSE [ok |-> FALSE]
NullId(p) == p = <<0, 0>> \/ p = <<65535, 65535>>

NotHere(f) == "nc" \in DOMAIN f
Shifted(f) == "sh" \in DOMAIN f
RECURSIVE DefValue(_)
DefOneValue(f) ==
  CASE f.k = "prim" -> IF f.t = "Index" THEN <<<<255, 255>>>> ELSE IF f.t \in {"ID", "TagID"} THEN <<<<255, 255, 255, 255>>>> ELSE [i \in 1..Len(f.w) |-> Zeros(f.w[i])]
    [] f.k = "enum" -> FirstOption(f.s) - 1
    [] f.k = "struct" -> DefValue(f.s)
    [] f.k = "ref" -> [g |-> IF f.g[1] = "*" THEN FourCC["<unset>"] ELSE FourCC[f.g[1]], p |-> <<>>]
    [] f.k = "group" -> Unset
    [] f.k = "str32" -> Zeros(32)
    [] OTHER -> <<>>
DefFieldValue(f) == IF f.k = "pad" \/ f.x THEN <<>> ELSE IF f.form = "one" THEN DefOneValue(f) ELSE [i \in 1..f.cnt |-> DefOneValue(f)]
DefValue(s) == [i \in 1..Len(Structs[s].fields) |-> DefFieldValue(Structs[s].fields[i])]

MComps(f, bs) ==
  LET at == [i \in 1..Len(f.w) |-> SumW(SubSeq(f.w, 1, i - 1), 1)]
  IN [i \in 1..Len(f.w) |-> LET c == Rev(SubSeq(bs, at[i] + 1, at[i] + f.w[i])) IN IF f.t \in FloatTypes THEN Quiet(c) ELSE c]
MEnum(f, n) == IF n < Len(Enums[f.s]) /\ Enums[f.s][n + 1] # "" THEN n ELSE FirstOption(f.s) - 1
MBits(f, bs) ==
  LET on(i) == (bs[(i \div 8) + 1] \div (2^(i % 8))) % 2 = 1
  IN SelectSeq([i \in 1..Len(Bits[f.s].fields) |-> i - 1], LAMBDA i : ~Bits[f.s].fields[i + 1].x /\ ~NotHere(Bits[f.s].fields[i + 1]) /\ on(i))
MGood(v) == [ok |-> TRUE, v |-> v]
MBad == [ok |-> FALSE]
FieldNo(s, n) == CHOOSE i \in 1..Len(Structs[s].fields) : Structs[s].fields[i].n = n
NumBe(c) == IF c[1] > 0 \/ c[2] > 100 THEN Huge ELSE (c[2] * 65536) + (c[3] * 256) + c[4]

RECURSIVE MFields(_, _, _, _, _, _)
RECURSIVE MItems(_, _, _, _, _, _)
RECURSIVE MForm(_, _, _, _, _, _)
MStruct(W, d, s, a) == IF W.whole /\ ~Fetch(W, d, a, Structs[s].size).ok THEN MBad ELSE MFields(W, d, s, a, 1, <<>>)
MItems(W, d, s, a, n, acc) ==
  IF n = 0 THEN MGood(acc)
  ELSE LET r == MStruct(W, d, s, a) IN IF r.ok THEN MItems(W, d, s, Add(a, Structs[s].size), n - 1, Append(acc, r.v)) ELSE MBad
(* vertices of a BSP's material: rendered ones, then lightmap ones *)
MVertices(W, d, f, a, got) ==
  LET comp == f.n = "compressed_vertices"
      h == Fetch(W, d, a, 20)
      vr(name) == got[FieldNo("ScenarioStructureBSPMaterial", name)]
      cnt(name) == NumBe(vr(name)[FieldNo("ModelVertexReference", "vertex_count")][1])
      off(name) == LET c == vr(name)[FieldNo("ModelVertexReference", "offset")][1] IN <<(c[1] * 256) + c[2], (c[3] * 256) + c[4]>>
      big == cnt("rendered_vertices") > 100000 \/ cnt("lightmap_vertices") > 100000
      rn == cnt("rendered_vertices") * (IF comp THEN 32 ELSE 56)
      ln == cnt("lightmap_vertices") * (IF comp THEN 8 ELSE 20)
  IN IF W.compressed # comp THEN MGood(<<>>)
     ELSE IF ~h.ok \/ big THEN MBad
     ELSE LET p == Pair(h.v, 13) IN
          IF ~W.extbsp \/ p # <<0, 0>> THEN Fetch(W, d, p, rn + ln)
          ELSE LET x == Fetch(W, <<"vtx", d[2]>>, off("rendered_vertices"), rn)
                   y == Fetch(W, <<"vtx", d[2]>>, off("lightmap_vertices"), ln)
               IN IF x.ok /\ y.ok THEN MGood(x.v \o y.v) ELSE MBad
MOne(W, d, f, a, got) ==
  CASE f.k = "struct" -> MStruct(W, d, f.s, a)
    [] f.k = "data" /\ f.t = "BSPVertexData" -> MVertices(W, d, f, a, got)
    [] OTHER ->
       LET h == Fetch(W, d, a, One(f)) IN
       IF ~h.ok THEN MBad
       ELSE CASE f.k = "prim" -> MGood(MComps(f, h.v))
              [] f.k = "enum" -> IF Shifted(f) THEN LET n == (Le2(h.v, 1) + 1) % 65536 IN IF n < Len(Enums[f.s]) /\ Enums[f.s][n + 1] # "" THEN MGood(n) ELSE MBad
                                 ELSE MGood(MEnum(f, Le2(h.v, 1)))
              [] f.k = "bits" -> MGood(MBits(f, h.v))
              [] f.k = "refl" -> LET n == Num(h.v, 1) IN IF n > Len(W.map.buf) + 100000 THEN MBad ELSE MItems(W, d, f.s, Pair(h.v, 5), n, <<>>)
              [] f.k = "ref" -> LET id == Pair(h.v, 13)
                                    g == LET x == Rev(SubSeq(h.v, 1, 4)) IN IF Known4(x) THEN Group4(x) ELSE Unset
                                IN IF NullId(id) THEN MGood([g |-> g, p |-> <<>>])
                                   ELSE IF id[2] + 1 > Len(W.tags) THEN MBad
                                   ELSE IF ~W.tags[id[2] + 1].ok THEN MBad
                                   ELSE MGood([g |-> W.tags[id[2] + 1].g, p |-> W.tags[id[2] + 1].p])
              [] f.k = "group" -> LET x == Rev(h.v) IN IF Known4(x) THEN MGood(Group4(x)) ELSE MBad
              [] f.k = "data" -> LET n == Num(h.v, 1) IN
                                 IF n = 0 THEN MGood(<<>>)
                                 ELSE IF f.t = "FileData" THEN Fetch(W, IF h.v[5] % 2 = 1 THEN <<"file", "sounds">> ELSE <<"map">>, Pair(h.v, 9), n)
                                 ELSE Fetch(W, d, Pair(h.v, 13), n)
              [] f.k = "str32" -> MGood(Str32(h.v))
MForm(W, d, f, a, n, acc) ==
  IF n = 0 THEN MGood(acc)
  ELSE LET r == MOne(W, d, f, a, <<>>) IN IF r.ok THEN MForm(W, d, f, Add(a, One(f)), n - 1, Append(acc, r.v)) ELSE MBad
MField(W, d, f, a, got) ==
  IF f.k = "pad" \/ f.x THEN MGood(<<>>)
  ELSE IF NotHere(f) THEN MGood(DefFieldValue(f))
  ELSE IF f.form = "one" THEN MOne(W, d, f, a, got)
  ELSE MForm(W, d, f, a, f.cnt, <<>>)
MFields(W, d, s, a, i, acc) ==
  LET fs == Structs[s].fields
  IN IF i > Len(fs) THEN MGood(acc)
     ELSE LET r == MField(W, d, fs[i], a, acc)
          IN IF r.ok THEN MFields(W, d, s, Add(a, FieldSize(fs[i])), i + 1, Append(acc, r.v)) ELSE MBad
=============================================================================
