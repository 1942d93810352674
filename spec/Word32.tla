------------------------------ MODULE Word32 ------------------------------
(* 32-bit machine words as pairs <<hi, lo>> of 16-bit naturals.            *)
(* TLC's integers are 32-bit signed, so a plain integer cannot hold them.  *)
EXTENDS Integers, Bitwise

Half == 65536
W(h, l) == <<h, l>>
Zero == <<0, 0>>
One  == <<0, 1>>
Four == <<0, 4>>
Ones == <<65535, 65535>>
Small(n) == <<0, n>>
IsWord(a) == a[1] \in 0..65535 /\ a[2] \in 0..65535

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
P2(n) == Pow2[n + 1]

Bit(a, n) == IF n < 16 THEN (a[2] \div P2(n)) % 2 ELSE (a[1] \div P2(n - 16)) % 2

WNot(a) == <<65535 - a[1], 65535 - a[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b) == <<a[1] | b[1], a[2] | b[2]>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>

Add(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \div Half) % Half, lo % Half>>
Sub(a, b) == LET lo == a[2] - b[2] IN <<(a[1] - b[1] + lo \div Half) % Half, lo % Half>>

Ltu(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
SHalf(h) == IF h >= 32768 THEN h - Half ELSE h
Lts(a, b) == SHalf(a[1]) < SHalf(b[1]) \/ (a[1] = b[1] /\ a[2] < b[2])

(* 65535 * 32768 + 32767 = 2^31 - 1: the products below never overflow TLC.*)
Sll(a, n) == IF n >= 16 THEN <<(a[2] * P2(n - 16)) % Half, 0>>
             ELSE LET lo == a[2] * P2(n)
                  IN <<(a[1] * P2(n) + lo \div Half) % Half, lo % Half>>
Srl(a, n) == IF n >= 16 THEN <<0, a[1] \div P2(n - 16)>>
             ELSE <<a[1] \div P2(n), (a[2] \div P2(n)) + (a[1] % P2(n)) * P2(16 - n)>>
Sra(a, n) == IF a[1] < 32768 THEN Srl(a, n) ELSE WNot(Srl(WNot(a), n))

B2W(b) == IF b THEN One ELSE Zero
SextByte(v) == IF v >= 128 THEN <<65535, 65280 + v>> ELSE <<0, v>>
SextHalf(v) == IF v >= 32768 THEN <<65535, v>> ELSE <<0, v>>
ByteOf(a, off) == CASE off = 0 -> a[2] % 256 [] off = 1 -> a[2] \div 256
                    [] off = 2 -> a[1] % 256 [] OTHER -> a[1] \div 256
HalfOf(a, off) == IF off < 2 THEN a[2] ELSE a[1]
AlignDown4(a) == <<a[1], a[2] - (a[2] % 4)>>
===========================================================================
