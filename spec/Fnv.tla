-------------------------------- MODULE Fnv --------------------------------
(***************************************************************************)
(* FNV-1 and FNV-1a, 64 bits.  A hash is a sequence of four 16-bit limbs,  *)
(* least significant first (TLC's integers have 32 bits).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Offset == <<8997, 33826, 40164, 52210>>           \* 0xcbf29ce484222325

\* h * 0x100000001b3 mod 2^64, which is h * 0x1b3 + (h << 40)
Times(h) ==
  LET p1 == h[1] * 435
      p2 == (h[2] * 435) + (p1 \div 65536)
      p3 == ((h[3] * 435) + (p2 \div 65536)) + ((h[1] * 256) % 65536)
      p4 == (((h[4] * 435) + (p3 \div 65536)) + ((h[2] * 256) % 65536)) + (h[1] \div 256)
  IN  <<p1 % 65536, p2 % 65536, p3 % 65536, p4 % 65536>>
XorLow(h, b) == [h EXCEPT ![1] = @ ^^ b]

Step1(h, b)  == XorLow(Times(h), b)
Step1a(h, b) == Times(XorLow(h, b))
FnvStep(a, h, b) == IF a THEN Step1a(h, b) ELSE Step1(h, b)

Feed(a, h, s) == FoldLeft(LAMBDA g, b : FnvStep(a, g, b), h, s)
Hash(a, s) == Feed(a, Offset, s)

\* big-endian bytes of a hash
BE(h) == <<h[4] \div 256, h[4] % 256, h[3] \div 256, h[3] % 256, h[2] \div 256, h[2] % 256, h[1] \div 256, h[1] % 256>>

\* the published test vectors
ASSUME Hash(TRUE, << >>) = <<8997, 33826, 40164, 52210>>
ASSUME Hash(TRUE, <<97>>) = <<60556, 34305, 56396, 44899>>                                       \* af63dc4c8601ec8c
ASSUME Hash(FALSE, <<97>>) = <<47038, 34305, 48460, 44899>>                                      \* af63bd4c8601b7be
ASSUME Hash(TRUE, <<102, 111, 111, 98, 97, 114>>) = <<26600, 63289, 16753, 34196>>               \* 85944171f73967e8
ASSUME Hash(FALSE, <<102, 111, 111, 98, 97, 114>>) = <<43458, 42205, 34661, 13325>>              \* 340d8765a4dda9c2
=============================================================================
