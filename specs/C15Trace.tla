------------------------------- MODULE C15Trace -------------------------------
EXTENDS CacheFile, TraceBase
Range01(s) == {s[i] : i \in 1..Len(s)}
TagSeen(L, i, o) ==
  LET t == L.tags[i]
  IN /\ o.g = t.g /\ o.c = t.c /\ o.a = t.a /\ o.d = t.d[1]
     /\ \A k \in 1..Len(o.reads) : LET r == o.reads[k]  w == Fetch(L.W, t.d, Add(t.a, r.off), r.n)
                                        IN IF w.ok THEN r.got = [ok |-> TRUE, v |-> w.v] ELSE r.got = [ok |-> FALSE, v |-> <<>>]
Matches(L) ==
  /\ Rec.ok = L.ok
  /\ L.ok =>
     LET o == Rec.seen  n == Len(L.tags)
         live == {i \in 1..n : L.tags[i].ok}
     IN /\ o.engine = L.engine.name /\ o.name = L.name /\ o.build = L.build /\ o.size = L.size
        /\ o.crc = L.crc /\ o.used = L.used /\ o.max = L.max /\ o.kind = L.kind
        /\ Len(o.tags) > n /\ \A i \in n + 1..Len(o.tags) : o.tags[i].none  /\ o.far
        /\ \A i \in 1..n : IF L.tags[i].ok THEN ~o.tags[i].none /\ TagSeen(L, i, o.tags[i]) ELSE o.tags[i].none
        (* lookups by path find just these tags *)
        /\ \A k \in 1..Len(o.asked) : LET q == o.asked[k]  s == {i \in live : L.tags[i].g = q.g /\ L.tags[i].c = q.c}
                                      IN q.at = IF s = {} THEN -1 ELSE (CHOOSE i \in s : TRUE) - 1
        /\ Range01(o.all) = {[g |-> L.tags[i].g, c |-> L.tags[i].c] : i \in live} /\ Len(o.all) = Cardinality(live)
        /\ o.scenario = L.scenario - 1
        (* any address of any domain *)
        /\ \A k \in 1..Len(o.probes) : LET r == o.probes[k]  w == Fetch(L.W, r.d, r.a, r.n)
                                       IN IF w.ok THEN r.got = [ok |-> TRUE, v |-> w.v] ELSE r.got = [ok |-> FALSE, v |-> <<>>]
        /\ \A k \in 1..Len(o.texts) : LET r == o.texts[k]  w == CString(L.W, r.d, r.a)
                                      IN IF w.ok THEN r.got = [ok |-> TRUE, v |-> w.v] ELSE r.got = [ok |-> FALSE, v |-> <<>>]
File == [head |-> Rec.head, body |-> Rec.body, size |-> Rec.size, zs |-> Rec.zs]
Accepted ==
  /\ ~Has(Rec, "crash")
  /\ Rec.peak <= 65536
  /\ Matches(Load(File, Rec.res, Rec.strict, TRUE)) \/ Matches(Load(File, Rec.res, Rec.strict, FALSE))
=============================================================================
