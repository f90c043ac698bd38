------------------------------- MODULE Crc32 --------------------------------
(* CRC-32 (reflected polynomial EDB88320) without final negation, as two      *)
(* 16-bit halves <<high, low>> because TLC's integers have 31 bits.           *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt
LOCAL Xor2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
LOCAL Shr1(a) == <<a[1] \div 2, (a[2] \div 2) + (a[1] % 2) * 32768>>
LOCAL Shr8(a) == <<a[1] \div 256, (a[2] \div 256) + (a[1] % 256) * 256>>
Poly == <<60856, 33568>>
RECURSIVE Rounds(_, _)
LOCAL Rounds(a, n) == IF n = 0 THEN a ELSE Rounds(IF a[2] % 2 = 1 THEN Xor2(Shr1(a), Poly) ELSE Shr1(a), n - 1)
CrcTab == [i \in 1..256 |-> Rounds(<<0, i - 1>>, 8)]
CrcStep(c, b) == Xor2(CrcTab[((c[2] % 256) ^^ b) + 1], Shr8(c))
Crc(s) == FoldLeft(CrcStep, <<65535, 65535>>, s)
CrcBytes(s) == LET c == Crc(s) IN <<c[1] \div 256, c[1] % 256, c[2] \div 256, c[2] % 256>>
=============================================================================
