------------------------------ MODULE Checksums ------------------------------
(* Adler-32 (RFC 1950) and CRC-32 (RFC 1952).  Values are <<high 16 bits, low 16 bits>>, because   *)
(* TLC's integers have 32 bits.                                                                    *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

AdlerInit == <<0,1>>
\* <<b,a>> is just the checksum's two halves
AdlerStep(c,x) == LET a == (c[2] + x) % 65521 IN <<(c[1] + a) % 65521, a>>
Adler(c,bytes) == FoldLeft(AdlerStep, c, bytes)

\* The CRC register is kept inverted, as in the usual formulation.
CrcInit == <<0,0>>
Poly == <<60856, 33568>>     \* EDB88320 = EDB8, 8320
Shr1(v) == <<v[1] \div 2, v[2] \div 2 + (v[1] % 2) * 32768>>
Xor2(a,b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
RECURSIVE CrcBits(_,_)
CrcBits(v,n) == IF n = 0 THEN v
                ELSE CrcBits(IF v[2] % 2 = 1 THEN Xor2(Shr1(v),Poly) ELSE Shr1(v), n-1)
CrcTable == [i \in 0..255 |-> CrcBits(<<0,i>>,8)]
CrcRaw(v,x) ==
  LET t == CrcTable[(v[2] ^^ x) % 256]
  IN <<(v[1] \div 256) ^^ t[1], ((v[1] % 256) * 256 + v[2] \div 256) ^^ t[2]>>
Not2(v) == <<65535 - v[1], 65535 - v[2]>>
Crc(c,bytes) == Not2(FoldLeft(CrcRaw, Not2(c), bytes))

ASSUME Crc(CrcInit,<<49,50,51,52,53,54,55,56,57>>) = <<52212, 14630>>        \* CBF4 3926
ASSUME Adler(AdlerInit,<<87,105,107,105,112,101,100,105,97>>) = <<4582, 920>> \* 11E6 0398
=============================================================================
