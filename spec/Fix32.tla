------------------------------- MODULE Fix32 -------------------------------
(* PICO-8's numbers: 16.16 fixed point, two's complement, held as the 32-bit integer
   of their bits (-2^31 .. 2^31-1), which is also TLC's integer range: every operator
   below is arranged so that no intermediate value leaves that range.
   Unlike pico_constfold.py this describes what PICO-8 computes, also where the
   implementation chooses not to compute. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

MINI == -2147483647 - 1
MAXI == 2147483647
ONE  == 65536

Hi(a) == a \div 65536            \* signed upper half (floor)
Lo(a) == a % 65536               \* unsigned lower half
UHi(a) == Hi(a) % 65536          \* the upper half as 0..65535
Mk(h, l) == LET m == h % 65536 IN (IF m >= 32768 THEN m - 65536 ELSE m) * 65536 + l
FromInt(i) == Mk(i, 0)           \* i reduced modulo 2^16
IsWhole(a) == Lo(a) = 0
Whole(a) == Hi(a)                \* floor, as an integer

FAdd(a, b) == LET l == Lo(a) + Lo(b) IN Mk(Hi(a) + Hi(b) + (l \div 65536), l % 65536)
FNot(a) == -1 - a
FNeg(a) == IF a = MINI THEN MINI ELSE -a
FSub(a, b) == FAdd(FAdd(a, FNot(b)), 1)

\* (a * b) >> 16, wrapping
FMul(a, b) ==
  LET ah == Hi(a)  al == Lo(a)  bh == Hi(b)  bl == Lo(b)
      ll == ((al \div 256) * bl + (((al % 256) * bl) \div 256)) \div 256
  IN FAdd(FAdd(Mk(ah * bh, 0), ah * bl), FAdd(bh * al, ll))

\* the 32 bits of a (most significant first)
Bit16(x, k) == (x \div (2 ^ (15 - k))) % 2
Bits(a) == [k \in 1..32 |-> IF k <= 16 THEN Bit16(UHi(a), k - 1) ELSE Bit16(Lo(a), k - 17)]
Abs(a) == IF a = MINI THEN MINI ELSE IF a < 0 THEN -a ELSE a
\* the bits of |a| (|-2^31| = 2^31 is the bit pattern of -2^31 itself)
MagBits(a) == Bits(Abs(a))

\* |a| * 2^sh / |b| for b # 0, b # MINI: quotient's bits accumulated in q, saturating; <<q, r, overflow>>
LongDiv(bits, b) ==
  FoldLeft(LAMBDA acc, bit :
     LET q == acc[1]  r == acc[2]
         ge == r >= b - r - bit
         r1 == IF ge THEN r - (b - r - bit) ELSE 2 * r + bit
     IN IF q >= 1073741824 \/ acc[3] THEN <<q, r1, TRUE>>
        ELSE <<2 * q + (IF ge THEN 1 ELSE 0), r1, FALSE>>, <<0, 0, FALSE>>, bits)

\* division truncates; out of range or by zero saturates
FDiv(a, b) ==
  LET neg == (a < 0) # (b < 0)
      sat == IF neg THEN -MAXI ELSE MAXI
  IN IF b = 0 THEN IF a < 0 THEN -MAXI ELSE MAXI
     ELSE IF b = MINI THEN                    \* |a|*2^16 / 2^31
        (IF a = MINI THEN ONE ELSE LET q == Abs(a) \div 32768 IN IF neg THEN -q ELSE q)
     ELSE IF a = MINI /\ b = ONE THEN MINI
     ELSE LET d == LongDiv(MagBits(a) \o [k \in 1..16 |-> 0], Abs(b))
          IN IF d[3] THEN sat ELSE IF neg THEN -d[1] ELSE d[1]

FFlr(a) == a - Lo(a)
FCeil(a) == FNeg(FFlr(FNeg(a)))
FIDiv(a, b) == FFlr(FDiv(a, b))
FAbs(a) == IF a = MINI THEN MAXI ELSE Abs(a)
FMod(a, b) ==   \* non-negative remainder by |b|; 0 when b is 0
  IF b = 0 THEN 0
  ELSE LET m == FAbs(b)
           r == IF a = MINI THEN LongDiv(MagBits(a), m)[2] ELSE Abs(a) % m
       IN IF a >= 0 \/ r = 0 THEN r ELSE m - r

FAnd(a, b) == Mk(UHi(a) & UHi(b), Lo(a) & Lo(b))
FOr(a, b)  == Mk(UHi(a) | UHi(b), Lo(a) | Lo(b))
FXor(a, b) == Mk(UHi(a) ^^ UHi(b), Lo(a) ^^ Lo(b))

FromBits(s) == LET v(o) == FoldLeft(LAMBDA x, b : 2 * x + b, 0, SubSeq(s, o, o + 15)) IN Mk(v(1), v(17))
Fill(n, b) == [k \in 1..n |-> b]
ShlN(a, n)  == IF n >= 32 THEN 0 ELSE FromBits(SubSeq(Bits(a) \o Fill(n, 0), n + 1, n + 32))
LshrN(a, n) == IF n >= 32 THEN 0 ELSE FromBits(SubSeq(Fill(n, 0) \o Bits(a), 1, 32))
ShrN(a, n)  == IF n >= 32 THEN (IF a < 0 THEN -1 ELSE 0) ELSE FromBits(SubSeq(Fill(n, IF a < 0 THEN 1 ELSE 0) \o Bits(a), 1, 32))
RotlN(a, n) == LET k == n % 32 IN FromBits(SubSeq(Bits(a), k + 1, 32) \o SubSeq(Bits(a), 1, k))
\* shift counts: the whole part; a negative count shifts the other way (logically when shifting left)
FShl(a, b)  == IF b >= 0 THEN ShlN(a, Whole(b)) ELSE LshrN(a, -Whole(b))
FShr(a, b)  == IF b >= 0 THEN ShrN(a, Whole(b)) ELSE ShlN(a, -Whole(b))
FLshr(a, b) == IF b >= 0 THEN LshrN(a, Whole(b)) ELSE ShlN(a, -Whole(b))
FRotl(a, b) == RotlN(a, Whole(b))
FRotr(a, b) == RotlN(a, 32 - (Whole(b) % 32))

FMax(a, b) == IF a > b THEN a ELSE b
FMin(a, b) == IF a < b THEN a ELSE b
FMid(a, b, c) == FMax(FMin(a, b), FMin(FMax(a, b), c))
FSgn(a) == IF a < 0 THEN -ONE ELSE ONE

\* decimal text (bytes): four digits after the point, rounded half to even, trailing zeros dropped
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>>
               ELSE IF n < 1000 THEN <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
               ELSE IF n < 10000 THEN <<48 + n \div 1000, 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
               ELSE <<48 + n \div 10000, 48 + ((n \div 1000) % 10), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
FToStr(a) ==
  LET neg == a < 0
      ip == IF a = MINI THEN 32768 ELSE Hi(Abs(a))
      fr == Lo(Abs(a))
      x == fr * 625
      q0 == x \div 4096
      rm == x % 4096
      q == IF rm > 2048 \/ (rm = 2048 /\ q0 % 2 = 1) THEN q0 + 1 ELSE q0
      i == IF q = 10000 THEN ip + 1 ELSE ip
      f == IF q = 10000 THEN 0 ELSE q
      d4 == <<48 + f \div 1000, 48 + ((f \div 100) % 10), 48 + ((f \div 10) % 10), 48 + (f % 10)>>
      n == IF f = 0 THEN 0 ELSE IF f % 1000 = 0 THEN 1 ELSE IF f % 100 = 0 THEN 2 ELSE IF f % 10 = 0 THEN 3 ELSE 4
  IN (IF neg THEN <<45>> ELSE <<>>) \o DigitsOf(i) \o (IF n = 0 THEN <<>> ELSE <<46>> \o SubSeq(d4, 1, n))
\* all the bits: 0xhhhh.hhhh
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex4(x) == <<HexDigit(x \div 4096), HexDigit((x \div 256) % 16), HexDigit((x \div 16) % 16), HexDigit(x % 16)>>
FToHex(a) == <<48, 120>> \o Hex4(UHi(a)) \o <<46>> \o Hex4(Lo(a))
=============================================================================
