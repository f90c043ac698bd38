-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8 by the Unicode standard (table 3-7).                                 *)
EXTENDS Integers, Sequences
(* number of continuation bytes a lead byte asks for; -1: not a lead byte *)
LOCAL Need(b) == CASE b < 128 -> 0 [] b \in 194..223 -> 1 [] b \in 224..239 -> 2 [] b \in 240..244 -> 3 [] OTHER -> -1
LOCAL SecondOk(b, c) == CASE b = 224 -> c \in 160..191 [] b = 237 -> c \in 128..159 [] b = 240 -> c \in 144..191
                          [] b = 244 -> c \in 128..143 [] OTHER -> c \in 128..191
RECURSIVE ContRun(_, _, _)
(* how many of the wanted continuation bytes really follow position i *)
LOCAL ContRun(s, i, n) == IF n = 0 \/ i > Len(s) THEN 0 ELSE IF s[i] \in 128..191 THEN 1 + ContRun(s, i + 1, n - 1) ELSE 0
(* <<ok, length>> of the character, or of the maximal ill-formed part, at i *)
CharAt(s, i) ==
  LET b == s[i]  n == Need(b)
  IN IF n = 0 THEN <<TRUE, 1>>
     ELSE IF n < 0 THEN <<FALSE, 1>>
     ELSE IF i = Len(s) \/ ~SecondOk(b, s[i + 1]) THEN <<FALSE, 1>>
     ELSE LET have == 1 + ContRun(s, i + 2, n - 1) IN IF have = n THEN <<TRUE, n + 1>> ELSE <<FALSE, have + 1>>
RECURSIVE ValidFrom(_, _)
ValidFrom(s, i) == i > Len(s) \/ LET c == CharAt(s, i) IN c[1] /\ ValidFrom(s, i + c[2])
ValidUtf8(s) == ValidFrom(s, 1)
(* every ill-formed part, and every replacement character, becomes "_" (or another) *)
RECURSIVE LossyFrom(_, _, _)
LossyFrom(s, i, by) ==
  IF i > Len(s) THEN <<>>
  ELSE LET c == CharAt(s, i)  t == SubSeq(s, i, i + c[2] - 1)
       IN (IF ~c[1] \/ t = <<239, 191, 189>> THEN <<by>> ELSE t) \o LossyFrom(s, i + c[2], by)
LossyBy(s, by) == IF ValidUtf8(s) THEN s ELSE LossyFrom(s, 1, by)
Lossy(s) == LossyBy(s, 95)
(* the characters of a well-formed byte sequence *)
RECURSIVE DecodeFrom(_, _)
DecodeFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET n == CharAt(s, i)[2]
           c == CASE n = 1 -> s[i] [] n = 2 -> ((s[i] - 192) * 64) + (s[i + 1] - 128)
                  [] n = 3 -> ((s[i] - 224) * 4096) + ((s[i + 1] - 128) * 64) + (s[i + 2] - 128)
                  [] OTHER -> ((s[i] - 240) * 262144) + ((s[i + 1] - 128) * 4096) + ((s[i + 2] - 128) * 64) + (s[i + 3] - 128)
       IN <<c>> \o DecodeFrom(s, i + n)
DecodeUtf8(s) == DecodeFrom(s, 1)
=============================================================================
