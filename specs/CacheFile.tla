------------------------------ MODULE CacheFile -----------------------------
(* C15.  What a cache file is: which engine made it, which tags it holds,     *)
(* where the tags' data lie, and which bytes an address means; or that it is  *)
(* refused.  `img' is the whole (decompressed) file, res its resource maps.   *)
(* Whatever the bytes are, there is an answer.                                *)
EXTENDS MapCodec, TLC
P == INSTANCE TagPath
Engines == JsonDeserialize("engines.json")
Named(b, at) == LET t == Str32(SubSeq(b, at + 1, at + 32)) IN Until0(t)

------------------------------------------------------------------ \* header
Retail(b) == SubSeq(b, 1, 4) = <<100, 97, 101, 104>> /\ SubSeq(b, 2045, 2048) = <<116, 111, 111, 102>>
Demo(b) == SubSeq(b, 705, 708) = <<100, 101, 104, 69>> /\ SubSeq(b, 1521, 1524) = <<116, 111, 102, 71>>
HeaderOf(b) ==
  IF Retail(b) THEN [ok |-> TRUE, version |-> SubSeq(b, 5, 8), size |-> Num(b, 9), padding |-> Num(b, 13), start |-> Num(b, 17), len |-> Num(b, 21),
                     name |-> Named(b, 32), build |-> Named(b, 64), crc |-> SubSeq(b, 101, 104)]
  ELSE IF Demo(b) THEN [ok |-> TRUE, version |-> SubSeq(b, 1417, 1420), size |-> Num(b, 1513), padding |-> 0, start |-> Num(b, 1517), len |-> Num(b, 709),
                        name |-> Named(b, 1420), build |-> Named(b, 712), crc |-> SubSeq(b, 1457, 1460)]
  ELSE [ok |-> FALSE]
(* an exact build, else the default engine of the version *)
EngineOf(h) ==
  LET same == SelectSeq([i \in 1..Len(Engines) |-> i], LAMBDA i : Engines[i].cache_file_version = h.version)
      exact == SelectSeq(same, LAMBDA i : Engines[i].has_build /\ \E j \in 1..Len(Engines[i].builds) : Engines[i].builds[j] = h.build)
      default == SelectSeq(same, LAMBDA i : Engines[i].cache_default /\ ~(Engines[i].has_build /\ Engines[i].enforced))
  IN IF exact # <<>> THEN exact[1] ELSE IF default # <<>> THEN default[Len(default)] ELSE 0

------------------------------------------------------------ \* resource maps
Refuse == [ok |-> FALSE]
RECURSIVE ResItems(_, _, _, _, _)
ResItems(b, paths, at, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, v |-> acc]
  ELSE IF at + 12 > Len(b) THEN Refuse
  ELSE LET po == Num(b, at + 1)  size == Num(b, at + 5)  off == Num(b, at + 9)
           t == CString([map |-> [buf |-> b, at |-> paths, n |-> Len(b) - paths, base |-> <<0, 0>>]], <<"map">>, Pair(b, at + 1))
       IN IF ~t.ok \/ off > Len(b) \/ size > Len(b) - off THEN Refuse
          ELSE ResItems(b, paths, at + 12, n - 1, Append(acc, [p |-> t.v, at |-> off, n |-> size]))
ResourceMap(b) ==
  IF Len(b) < 16 THEN Refuse
  ELSE LET paths == Num(b, 5)  arr == Num(b, 9)  n == Num(b, 13)
       IN IF paths > Len(b) THEN Refuse ELSE IF n = 0 THEN [ok |-> TRUE, v |-> <<>>] ELSE IF arr > Len(b) \/ n > Len(b) THEN Refuse ELSE ResItems(b, paths, arr, n, <<>>)
FindPath(items, p) == LET s == {i \in 1..Len(items) : items[i].p = p} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j

----------------------------------------------------------------- \* tag table
GroupName(g4) == CHOOSE g \in DOMAIN FourCC : FourCC[g] = g4
(* entry i (from 0) of the tag array: FALSE, an empty slot, or a tag *)
Entry(W, arr, i) ==
  LET b == Fetch(W, <<"tag">>, Add(arr, 32 * i), 32).v
      g == Rev(SubSeq(b, 1, 4))
      t == CString(W, <<"tag">>, Pair(b, 17))
      tp == P!Parse(DecodeUtf8(t.v))
  IN IF ~(Known4(g) /\ Known4(Rev(SubSeq(b, 5, 8))) /\ Known4(Rev(SubSeq(b, 9, 12)))) THEN Refuse
     ELSE IF Group4(g) = Unset THEN [ok |-> TRUE, v |-> [ok |-> FALSE]]
     ELSE IF Pair(b, 13) = <<65535, 65535>> \/ Pair(b, 13)[2] # i THEN Refuse
     ELSE IF ~t.ok THEN Refuse
     ELSE IF ~tp.ok THEN Refuse
     ELSE [ok |-> TRUE, v |-> [ok |-> TRUE, g |-> Group4(g), c |-> tp.p, a |-> Pair(b, 21), ext |-> SubSeq(b, 25, 28) # <<0, 0, 0, 0>>]]
RECURSIVE EncUtf8(_, _)
EncUtf8(t, i) == IF i > Len(t) THEN <<>> ELSE
  LET c == t[i] IN (CASE c < 128 -> <<c>>
     [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
     [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
     [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>) \o EncUtf8(t, i + 1)
Same(s, t) == s.ok /\ t.ok /\ s.g = t.g /\ s.c = t.c

----------------------------------------------------------- \* external tags
(* what becomes of a tag kept in a resource map: [ok, v (tag with its domain)] *)
OfMap(res, which) == IF which = "bitmaps" THEN res.bitmaps ELSE res.loc
External(E, W, res, t) ==
  LET path == EncUtf8(t.c, 1)
      which == IF t.g = FourCC["bitmap"] THEN "bitmaps" ELSE "loc"
      items == ResourceMap(OfMap(res, which)).v
      idx == IF t.a[1] > 0 THEN Huge ELSE t.a[2] + 1
      sounds == ResourceMap(res.sounds).v
      k == FindPath(sounds, path)
      z == Structs["Sound"].size
      own == SubSeq(res.sounds, sounds[k].at + 1, sounds[k].at + sounds[k].n)
      base == Fetch(W, <<"tag">>, t.a, z)
      late == sounds[k].n - z
      (* the base structure in the map, with the rate, channels, format and pitch ranges of the one in the resource map *)
      merged == [i \in 1..z |-> IF i - 1 \in (6..7) \cup (108..111) \cup (152..155) THEN own[i]
                                ELSE IF i - 1 \in (156..159) \cup (160..163) THEN 0 ELSE base.v[i]]
      whole == SubSeq(own, z + 1, Len(own)) \o merged
  IN IF ~t.ok \/ ~t.ext THEN [ok |-> TRUE, v |-> t @@ [d |-> <<"tag">>]]
     ELSE IF ~E.externally_indexed_tags THEN Refuse
     ELSE IF t.g = FourCC["sound"] THEN
       IF res.sounds = <<>> THEN [ok |-> TRUE, v |-> t @@ [d |-> <<"tag">>]]
       ELSE IF k = 0 THEN Refuse
       ELSE IF sounds[k].n < z \/ ~base.ok THEN Refuse
       ELSE [ok |-> TRUE, v |-> [ok |-> TRUE, g |-> t.g, c |-> t.c, ext |-> TRUE, a |-> Flat(late),
                                 d |-> <<"own", [buf |-> whole, at |-> 0, n |-> Len(whole), base |-> <<0, 0>>]>>]]
     ELSE IF OfMap(res, which) = <<>> THEN [ok |-> TRUE, v |-> [ok |-> TRUE, g |-> t.g, c |-> t.c, ext |-> TRUE, a |-> <<0, 0>>, d |-> <<"own", NoView>>]]
     ELSE IF idx > Len(items) THEN Refuse
     ELSE IF items[idx].p # path THEN Refuse
     ELSE LET first == items[FindPath(items, path)]
          IN [ok |-> TRUE, v |-> [ok |-> TRUE, g |-> t.g, c |-> t.c, ext |-> TRUE, a |-> <<0, 0>>,
                                  d |-> <<"own", [buf |-> OfMap(res, which), at |-> first.at, n |-> first.n, base |-> <<0, 0>>]>>]]

------------------------------------------------------------------ \* loading
Cut(img, at, n, base) == IF at <= Len(img) /\ n <= Len(img) - at THEN [buf |-> img, at |-> at, n |-> n, base |-> base] ELSE NoView
BspF(n) == FieldNo("ScenarioBSP", n)
U32(v) == <<(v[1] * 256) + v[2], (v[3] * 256) + v[4]>>
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
U32n(v) == LET p == U32(v) IN IF p[1] > 1000 THEN Huge ELSE (p[1] * 65536) + p[2]

(* A file as it lies on the disk.  Xbox files are compressed after the header: *)
(* `body' is what the stream holds, zs is "bad" if it is none.                *)
Unpacked(f) ==
  LET h == HeaderOf(f.head)  n == h.size - 2048
  IN IF Len(f.head) < 2048 THEN Refuse
     ELSE IF ~h.ok THEN Refuse
     ELSE IF EngineOf(h) = 0 THEN Refuse
     ELSE IF Engines[EngineOf(h)].compression = "none" THEN [ok |-> TRUE, v |-> f.head \o f.body]
     ELSE IF h.padding > f.size \/ f.size - h.padding < 2048 \/ n < 0 \/ f.zs = "bad" THEN Refuse
     ELSE [ok |-> TRUE, v |-> f.head \o [i \in 1..n |-> IF i <= Len(f.body) THEN f.body[i] ELSE 0]]
LoadImage(img, res0, strict, whole) ==
  LET h == HeaderOf(img)
      ei == EngineOf(h)
      E == Engines[ei]
      xbox == E.cache_parser = "Xbox"
      res == IF E.loc THEN res0 ELSE [res0 EXCEPT !.loc = <<>>]
      hsize == IF xbox THEN 36 ELSE 20
      isize == IF xbox \/ ~E.external_models THEN 36 ELSE 40
      base0 == E.base
      tv0 == Cut(img, h.start, h.len, base0)
      W0 == [map |-> Cut(img, 0, Len(img), <<0, 0>>), tag |-> tv0, bsp |-> <<>>, vtx |-> <<>>, mv |-> NoView, mt |-> NoView,
             files |-> [sounds |-> Cut(res.sounds, 0, IF xbox \/ res.sounds = <<>> THEN -1 ELSE Len(res.sounds), <<0, 0>>),
                        bitmaps |-> Cut(res.bitmaps, 0, IF xbox \/ res.bitmaps = <<>> THEN -1 ELSE Len(res.bitmaps), <<0, 0>>),
                        loc |-> Cut(res.loc, 0, IF xbox \/ res.loc = <<>> THEN -1 ELSE Len(res.loc), <<0, 0>>)],
             tags |-> <<>>, compressed |-> E.compressed_models, extbsp |-> E.external_bsps, whole |-> whole]
      th == Fetch(W0, <<"tag">>, base0, hsize).v
      arr == Pair(th, 1)
      scn == Pair(th, 5)
      cnt == Num(th, 13)
      inferred == LET l == arr[2] - isize IN IF l >= 0 THEN <<arr[1], l>> ELSE <<arr[1] - 1, l + 65536>>
      W1 == [W0 EXCEPT !.tag = [@ EXCEPT !.base = IF E.inferred THEN inferred ELSE base0]]
      es == [i \in 1..cnt |-> Entry(W1, arr, i - 1)]
      ts == [i \in 1..cnt |-> es[i].v]
      xs == [i \in 1..cnt |-> External(E, W1, res, ts[i])]
      tags1 == [i \in 1..cnt |-> IF xbox THEN ts[i] @@ [d |-> <<"tag">>] ELSE xs[i].v]
      mh == Fetch(W1, <<"tag">>, W1.tag.base, 40).v
      mstart == Num(mh, 21)
      mtri == Num(mh, 29)
      msize == Num(mh, 33)
      W2 == [W1 EXCEPT !.tags = [i \in 1..cnt |-> IF tags1[i].ok THEN [ok |-> TRUE, g |-> tags1[i].g, p |-> EncUtf8(tags1[i].c, 1)] ELSE [ok |-> FALSE]],
                       !.mv = IF E.external_models THEN Cut(img, mstart, mtri, <<0, 0>>) ELSE NoView,
                       !.mt = IF E.external_models THEN Cut(img, mstart + mtri, msize - mtri, <<0, 0>>) ELSE NoView]
      si == scn[2] + 1
      st == tags1[si]
      sv == MStruct(W2, st.d, "Scenario", st.a)
      refs == sv.v[FieldNo("Scenario", "structure_bsps")]
      nb == Len(refs)
      bstart(i) == U32n(refs[i][BspF("bsp_start")][1])
      bsize(i) == U32n(refs[i][BspF("bsp_size")][1])
      bbase(i) == U32(refs[i][BspF("bsp_address")][1])
      bref(i) == refs[i][BspF("structure_bsp")]
      bsps == [i \in 1..nb |-> Cut(img, bstart(i), bsize(i), bbase(i))]
      bhead(i) == Fetch(W2, <<"map">>, Flat(bstart(i)), 24)
      headok(b, sig) == b.ok /\ (IF b.ok THEN Known4(Rev(SubSeq(b.v, sig, sig + 3))) ELSE FALSE)
      is(i, j) == bref(i).p # <<>> /\ bref(i) = bref(j)
      of(t) == {i \in 1..nb : bref(i).p # <<>> /\ t.ok /\ bref(i).g = t.g /\ bref(i).p = EncUtf8(t.c, 1)}
      tags2 == [i \in 1..cnt |-> IF of(tags1[i]) = {} THEN tags1[i]
                                 ELSE LET k == CHOOSE x \in of(tags1[i]) : TRUE IN [ok |-> TRUE, g |-> tags1[i].g, c |-> tags1[i].c, ext |-> tags1[i].ext, a |-> Pair(bhead(k).v, 1), d |-> <<"bsp", k>>]]
      W3 == [W2 EXCEPT !.bsp = bsps]
      chead(i) == Fetch(W3, <<"bsp", i>>, bbase(i), 24)
      vtx == [i \in 1..nb |-> Cut(img, Num(chead(i).v, 9), Num(chead(i).v, 5), <<0, 0>>)]
      W4 == [W3 EXCEPT !.vtx = IF E.external_bsps THEN vtx ELSE <<>>]
      bytesof(v) == SubSeq(v.buf, v.at + 1, v.at + v.n)
      crcin == Cat([i \in 1..nb |-> (IF E.external_bsps THEN bytesof(vtx[i]) ELSE <<>>) \o bytesof(bsps[i])], 1)
               \o (IF E.external_models THEN bytesof(W4.mv) \o bytesof(W4.mt) ELSE <<>>) \o bytesof(W4.tag)
      crc == CrcBytes(crcin)
  IN IF Len(img) < 2048 THEN Refuse
     ELSE IF ~h.ok THEN Refuse
     ELSE IF ei = 0 \/ tv0.n < 0 THEN Refuse
     ELSE IF ~xbox /\ \E b \in {res.bitmaps, res.sounds, res.loc} : b # <<>> /\ ~ResourceMap(b).ok THEN Refuse
     ELSE IF ~Fetch(W0, <<"tag">>, base0, hsize).ok THEN Refuse
     ELSE IF E.inferred /\ arr[1] = 0 /\ arr[2] < isize THEN Refuse
     ELSE IF cnt > 65535 \/ ~Fetch(W1, <<"tag">>, arr, 32 * cnt).ok THEN Refuse
     ELSE IF \E i \in 1..cnt : ~es[i].ok THEN Refuse
     ELSE IF \E i \in 1..cnt : \E j \in 1..(i - 1) : Same(ts[i], ts[j]) THEN Refuse
     ELSE IF ~xbox /\ \E i \in 1..cnt : ~xs[i].ok THEN Refuse
     ELSE IF E.external_models /\ (IF Fetch(W1, <<"tag">>, W1.tag.base, 40).ok THEN Cut(img, mstart, msize, <<0, 0>>).n < 0 \/ mtri > msize ELSE TRUE) THEN Refuse
     ELSE IF scn = <<65535, 65535>> \/ si > cnt THEN Refuse
     ELSE IF ~st.ok THEN Refuse
     ELSE IF st.g # FourCC["scenario"] \/ \E i \in 1..cnt : ts[i].ok /\ ts[i].g = FourCC["scenario"] /\ i # si THEN Refuse
     ELSE IF ~sv.ok THEN Refuse
     ELSE IF \E i \in 1..nb : bsps[i].n < 0 \/ ~headok(bhead(i), 21) \/ \E j \in 1..(i - 1) : is(i, j) THEN Refuse
     ELSE IF \E i \in 1..cnt : tags2[i].ok /\ tags2[i].g = FourCC["scenario_structure_bsp"] /\ tags2[i].d[1] # "bsp" THEN Refuse
     ELSE IF E.external_bsps /\ \E i \in 1..nb : (IF headok(chead(i), 21) THEN vtx[i].n < 0 ELSE TRUE) THEN Refuse
     ELSE IF ~xbox /\ strict /\ h.crc # <<255, 255, 255, 255>> /\ Rev(h.crc) # crc THEN Refuse
     ELSE [ok |-> TRUE, W |-> W4, engine |-> E, name |-> h.name, build |-> h.build, size |-> Len(img),
           crc |-> IF xbox THEN <<>> ELSE <<Rev(h.crc), crc>>,
           tags |-> tags2, scenario |-> si, kind |-> sv.v[FieldNo("Scenario", "type")],
           used |-> h.len + (IF E.external_bsps \/ nb = 0 THEN 0 ELSE MaxOf({bsps[i].n : i \in 1..nb})),
           max |-> IF E.external_bsps \/ nb = 0 THEN -1
                   ELSE LET e == Add(bbase(1), bsps[1].n) IN Diff(e, W4.tag.base)]
Load(f, res, strict, whole) == LET u == Unpacked(f) IN IF u.ok THEN LoadImage(u.v, res, strict, whole) ELSE Refuse
=============================================================================
