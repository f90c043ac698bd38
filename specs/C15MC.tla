--------------------------------- MODULE C15MC --------------------------------
(* Addresses in every small pair of windows (a BSP before, in or after the tag *)
(* data, anywhere in the 32-bit address space), walked byte by byte; and the   *)
(* engine each header leads to.                                               *)
EXTENDS CacheFile
CONSTANTS Size, Most
VARIABLES w, a, n, seen
Bases == {<<0, 0>>, <<0, 2>>, <<16384, 65535>>, <<65535, 65533>>}
Image == [i \in 1..Size |-> (i * 37) % 3]
Cuts == {[at |-> x, n |-> y] : x \in 0..Size, y \in 0..Most}
Worlds == {[map |-> [buf |-> Image, at |-> 0, n |-> Size, base |-> <<0, 0>>],
            tag |-> [buf |-> Image, at |-> c.at, n |-> c.n, base |-> b],
            bsp |-> <<[buf |-> Image, at |-> d.at, n |-> d.n, base |-> Add(b, k)]>>]
           : c \in {x \in Cuts : x.at + x.n <= Size}, d \in {x \in Cuts : x.at + x.n <= Size}, b \in Bases, k \in 0..2}
Domains == {<<"map">>, <<"tag">>, <<"bsp", 1>>, <<"bsp", 2>>}
Init == w \in Worlds /\ \E b \in Bases, k \in 0..4 : a = Add(b, k) /\ n = 0 /\ seen = [d \in Domains |-> <<>>]
(* reading one byte more each time *)
Next == n < Most /\ n' = n + 1 /\ UNCHANGED <<w, a>>
        /\ seen' = [d \in Domains |-> LET f == Fetch(w, d, Add(a, n), 1) IN Append(seen[d], IF f.ok THEN f.v[1] ELSE -1)]
Spec == Init /\ [][Next]_<<w, a, n, seen>>
Within(v, x, k) == v.n >= 0 /\ \E o \in 0..v.n : o + k <= v.n /\ Add(v.base, o) = x
Whole == \A d \in Domains :
  LET f == Fetch(w, d, a, n)
  IN /\ f.ok => Len(f.v) = n /\ (f.v = seen[d] \/ (d = <<"bsp", 1>> /\ f.v = seen[<<"tag">>]))
     (* every byte lies in one window, and in the one asked for first *)
     /\ f.ok <=> Within(View(w, d), a, n) \/ (d = <<"bsp", 1>> /\ Within(w.tag, a, n))
     /\ (Within(View(w, d), a, n) => f.v = SubSeq(Image, View(w, d).at + 1 + Diff(a, View(w, d).base), View(w, d).at + n + Diff(a, View(w, d).base)))
     /\ d = <<"bsp", 2>> => ~f.ok
Texts == \A d \in Domains :
  LET t == CString(w, d, a)
  IN n = 0 => (t.ok => LET f == Fetch(w, d, a, Len(t.v) + 1) IN f.ok /\ f.v = Append(t.v, 0) /\ \A i \in 1..Len(t.v) : t.v[i] # 0)
ASSUME \A i \in 1..Len(Engines) :
  LET e == Engines[i]
  IN /\ e.has_build => \A j \in 1..Len(e.builds) :
          LET k == EngineOf([version |-> e.cache_file_version, build |-> e.builds[j]])
          IN k # 0 /\ k <= i /\ (k < i => Engines[k].has_build /\ \E x \in 1..Len(Engines[k].builds) : Engines[k].builds[x] = e.builds[j])
     /\ LET k == EngineOf([version |-> e.cache_file_version, build |-> <<63>>]) IN k # 0 => ~(Engines[k].has_build /\ Engines[k].enforced)
ASSUME EngineOf([version |-> <<0, 0, 0, 0>>, build |-> <<>>]) = 0
===============================================================================
