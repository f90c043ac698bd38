------------------------------- MODULE TagPath -------------------------------
(* C04.  Tag paths.  Texts are sequences of code points; the native separator *)
(* of this platform is the slash, the internal one the backslash.             *)
EXTENDS Integers, Sequences, FiniteSets
PSlash == 47
PBack == 92
PDot == 46
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Norm(c) == IF c = PSlash THEN PBack ELSE Lower(c)
Forbidden(c) == c \in {58, 42, 63, 34, 60, 62, 124} \/ c \in 0..31 \/ c = 127       \* : * ? " < > |
(* runs of separators become one *)
Collapsed(t) ==
  LET n == [i \in 1..Len(t) |-> Norm(t[i])]
      F[i \in 0..Len(n)] == IF i = 0 THEN <<>>
                            ELSE IF n[i] = PBack /\ i > 1 /\ n[i - 1] = PBack THEN F[i - 1]
                            ELSE Append(F[i - 1], n[i])
  IN F[Len(n)]
(* the parts between separators *)
RECURSIVE Split(_, _)
Split(t, c) == LET at == {i \in 1..Len(t) : t[i] = c} IN
  IF at = {} THEN <<t>>
  ELSE LET i == CHOOSE x \in at : \A y \in at : x <= y IN <<SubSeq(t, 1, i - 1)>> \o Split(SubSeq(t, i + 1, Len(t)), c)
Digits == 48..57
Reserved(w) ==
  \/ w \in {<<97, 117, 120>>, <<99, 111, 110>>, <<110, 117, 108>>, <<112, 114, 110>>}     \* aux con nul prn
  \/ Len(w) = 4 /\ w[4] \in Digits /\ SubSeq(w, 1, 3) \in {<<99, 111, 109>>, <<108, 112, 116>>}  \* com0-9 lpt0-9
BadPart(w) == (Len(w) > 0 /\ w[Len(w)] = PDot) \/ Reserved(w)
Bad == [ok |-> FALSE, p |-> <<>>]
Parse(t) ==
  IF \E i \in 1..Len(t) : Forbidden(t[i]) THEN Bad
  ELSE LET p == Collapsed(t) parts == Split(p, PBack) IN
       IF (Len(p) > 0 /\ p[1] = PBack) \/ \E i \in 1..Len(parts) : BadPart(parts[i]) THEN Bad
       ELSE [ok |-> TRUE, p |-> p]
LastDot(t) == LET at == {i \in 1..Len(t) : t[i] = PDot} IN IF at = {} THEN 0 ELSE CHOOSE x \in at : \A y \in at : x >= y
(* a full path: everything before the last dot, and the group after it *)
ParseFull(t, groups) ==
  LET d == LastDot(t) IN
  IF d = 0 THEN [ok |-> FALSE, p |-> <<>>, g |-> <<>>]
  ELSE LET g == SubSeq(t, d + 1, Len(t)) r == Parse(SubSeq(t, 1, d - 1)) IN
       IF g \notin groups \/ ~r.ok THEN [ok |-> FALSE, p |-> <<>>, g |-> <<>>] ELSE [ok |-> TRUE, p |-> r.p, g |-> g]
BaseName(p) == LET s == Split(p, PBack) IN s[Len(s)]
Internal(p, g) == p \o <<PDot>> \o g
NativeForm(p, g) == [i \in 1..Len(Internal(p, g)) |-> IF Internal(p, g)[i] = PBack THEN PSlash ELSE Internal(p, g)[i]]
(* following a native path below a root: the depth never falls below it *)
Stays(n) == LET parts == Split(n, PSlash) IN
  /\ n # <<>> /\ n[1] # PSlash
  /\ \A i \in 1..Len(parts) : parts[i] # <<PDot>> /\ parts[i] # <<PDot, PDot>>
=============================================================================
