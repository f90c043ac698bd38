-------------------------------- MODULE C17MC --------------------------------
(* All small textures: mipmaps follow one another without gaps, end with the  *)
(* total, and swizzling is a permutation.                                     *)
EXTENDS Mip, FiniteSets
CONSTANTS Side, DepthMax
VARIABLES w, h, t
Init == w \in 1..Side /\ h \in 1..Side /\ t = <<>>
Next == t = <<>> /\ t' \in {<<"2d", 1>>, <<"cube", 1>>} \cup {<<"3d", d>> : d \in 1..DepthMax} /\ UNCHANGED <<w, h>>
Spec == Init /\ [][Next]_<<w, h, t>>
Layout == t # <<>> => \A bl \in {1, 4}, count \in {-1, 0, 1, 2, 9} :
  LET F == FaceOrder(w, h, t[2], t[1], bl, count)  T == TextureOrder(w, h, t[2], t[1], bl, count)  all == Total(w, h, t[2], t[1], bl, count) IN
  /\ F[1].off = 0 /\ T[1].off = 0
  /\ \A i \in 2..Len(F) : F[i].off = F[i - 1].off + F[i - 1].n
  /\ \A i \in 2..Len(T) : T[i].off = T[i - 1].off + T[i - 1].n
  /\ F[Len(F)].off + F[Len(F)].n = all
  /\ T[Len(T)].off + T[Len(T)].n = all
  /\ \A i \in 1..Len(F) : F[i].w >= 1 /\ F[i].h >= 1 /\ F[i].d >= 1 /\ F[i].bw * bl >= F[i].w /\ F[i].bh * bl >= F[i].h /\ F[i].n >= 1
  /\ T[1].w = w /\ T[1].h = h /\ Len(T) <= (IF count < 0 THEN 100 ELSE count + 1)
  /\ (count < 0 => T[Len(T)].w = 1 /\ T[Len(T)].h = 1 /\ T[Len(T)].d = 1)
Permutation == t # <<>> => LET d == t[2]  n == w * h * d IN CanSwizzle(w, h, d) => Cardinality({Place(w, h, d, i) : i \in 0..(n - 1)} \cap 0..(n - 1)) = n
==============================================================================
