------------------------------- MODULE CacheTree -------------------------------
(* C02.  A cache of tags in front of a backing tree.                          *)
(* s.manual  writing strategy                                                 *)
(* s.inner   value of each tag in the backing tree, 0 = none                  *)
(* s.cache   what is cached of each tag: <<>> nothing, <<0, v>> an object     *)
(*           nobody has been given yet, <<k>> the object with handle k        *)
(* s.hv      current value of every object handed out, by handle              *)
(* s.wfail, s.ofail  tags the backing tree refuses to write / to open         *)
EXTENDS Integers, Sequences, FiniteSets
None == <<>>
NotFound == -1
Failed == -2
NoObject == -3
CurrentIn(s, t) == IF Len(s.cache[t]) = 2 THEN s.cache[t][2] ELSE s.hv[s.cache[t][1]]
Cached(s, t) == s.cache[t] # None
Loadable(s, t) == s.inner[t] # 0 /\ t \notin s.ofail
(* the state after the tag has been made present in the cache, if possible *)
Loaded(s, t) == IF Cached(s, t) \/ ~Loadable(s, t) THEN s ELSE [s EXCEPT !.cache[t] = <<0, s.inner[t]>>]
(* somebody is given the object under handle k *)
Give(s, t, k) == IF Len(s.cache[t]) = 1 THEN s
                 ELSE [s EXCEPT !.cache[t] = <<k>>, !.hv = [h \in (DOMAIN s.hv) \cup {k} |-> IF h = k THEN s.cache[t][2] ELSE s.hv[h]]]
(* the handles that may name the cached object of t *)
MayBe(s, t, k) == IF Len(s.cache[t]) = 1 THEN k = s.cache[t][1] ELSE k > 0 /\ k \notin DOMAIN s.hv
OpenError(s, t) == IF s.inner[t] = 0 THEN NotFound ELSE Failed
Writable(s, t) == t \notin s.wfail
WriteInner(s, t, v) == [s EXCEPT !.inner[t] = v]
CachedTags(s) == {t \in DOMAIN s.cache : Cached(s, t)}
(* ------------------------------------------------------------ the state after *)
After(s, r) ==
  CASE r.op \in {"open_shared"} -> LET n == Loaded(s, r.t) IN IF Cached(n, r.t) THEN Give(n, r.t, r.h) ELSE n
    [] r.op = "open_copy" -> Loaded(s, r.t)
    [] r.op = "get" -> IF Cached(s, r.t) THEN Give(s, r.t, r.h) ELSE s
    [] r.op = "set" -> [s EXCEPT !.hv[r.h] = r.v]
    [] r.op = "save" -> IF s.manual THEN [s EXCEPT !.cache[r.t] = <<0, r.v>>]
                        ELSE IF Writable(s, r.t) THEN [WriteInner(s, r.t, r.v) EXCEPT !.cache[r.t] = <<0, r.v>>]
                        ELSE s
    [] r.op = "commit" -> IF Cached(s, r.t) /\ Writable(s, r.t) THEN WriteInner(s, r.t, CurrentIn(s, r.t)) ELSE s
    [] r.op = "commit_all" -> [s EXCEPT !.inner = [t \in DOMAIN s.inner |-> IF Cached(s, t) /\ Writable(s, t) THEN CurrentIn(s, t) ELSE s.inner[t]]]
    [] r.op = "evict" -> [s EXCEPT !.cache[r.t] = None]
    [] r.op = "external" -> [s EXCEPT !.inner[r.t] = r.v]
    [] r.op = "failures" -> [s EXCEPT !.wfail = {r.wfail[i] : i \in 1..Len(r.wfail)}, !.ofail = {r.ofail[i] : i \in 1..Len(r.ofail)}]
    [] OTHER -> s
(* ------------------------------------------------ the result that is prescribed *)
Result(s, r) ==
  CASE r.op = "open_shared" -> IF Cached(Loaded(s, r.t), r.t) THEN 0 ELSE OpenError(s, r.t)
    [] r.op = "open_copy" -> LET n == Loaded(s, r.t) IN IF Cached(n, r.t) THEN CurrentIn(n, r.t) ELSE OpenError(s, r.t)
    [] r.op = "get" -> IF Cached(s, r.t) THEN 0 ELSE NoObject
    [] r.op = "peek" -> s.hv[r.h]
    [] r.op = "save" -> IF s.manual \/ Writable(s, r.t) THEN 1 ELSE Failed
    [] r.op = "commit" -> IF ~Cached(s, r.t) THEN NotFound ELSE IF ~Writable(s, r.t) THEN Failed
                          ELSE IF s.inner[r.t] = CurrentIn(s, r.t) THEN 0 ELSE 1
    [] r.op = "evict" -> IF Cached(s, r.t) THEN CurrentIn(s, r.t) ELSE 0
    [] r.op = "contains" -> IF s.inner[r.t] # 0 THEN 1 ELSE 0
    [] OTHER -> 0
Failures(s) == {t \in CachedTags(s) : ~Writable(s, t)}
Listing(s) == {t \in DOMAIN s.inner : s.inner[t] # 0}
(* what reaches the backing tree: the writes tried, and whether the tag may be loaded *)
Writes(s, r) ==
  CASE r.op = "save" -> IF s.manual THEN {} ELSE {<<r.t, r.v>>}
    [] r.op = "commit" -> IF Cached(s, r.t) THEN {<<r.t, CurrentIn(s, r.t)>>} ELSE {}
    [] r.op = "commit_all" -> {<<t, CurrentIn(s, t)>> : t \in CachedTags(s)}
    [] OTHER -> {}
MayLoad(s, r) == r.op \in {"open_shared", "open_copy"} /\ ~Cached(s, r.t)
GivesHandle(s, r) == (r.op = "open_shared" /\ Cached(Loaded(s, r.t), r.t)) \/ (r.op = "get" /\ Cached(s, r.t))
=============================================================================
