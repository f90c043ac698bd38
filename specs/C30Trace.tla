------------------------------- MODULE C30Trace -------------------------------
(* C30.  A tag read out of a cache file is what the cache file says: each     *)
(* value of each field from the place its definition gives it, however deep,  *)
(* in the address space its structure lies in; references are the tags their  *)
(* identifiers name; raw data comes from where its header says.  It is        *)
(* readable exactly if all of that is there.                                  *)
EXTENDS CacheFile, TraceBase
File == [head |-> Rec.head, body |-> Rec.body, size |-> Rec.size, zs |-> Rec.zs]
TagRead(L, i, o) ==
  LET t == L.tags[i] IN
  IF o.none THEN TRUE
  ELSE LET w == MStruct(L.W, t.d, Groups[o.g].struct, t.a)
       IN IF w.ok THEN o.ok /\ o.v = w.v ELSE ~o.ok
Matches(L) == L.ok /\ Len(Rec.tags) = Len(L.tags) /\ \A i \in 1..Len(L.tags) : TagRead(L, i, Rec.tags[i])
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ Rec.peak <= 65536
  /\ Matches(Load(File, Rec.res, TRUE, TRUE)) \/ Matches(Load(File, Rec.res, TRUE, FALSE))
=============================================================================
