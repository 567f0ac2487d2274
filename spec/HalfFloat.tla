------------------------------ MODULE HalfFloat -----------------------------
(* IEEE 754 half precision, as used by the floating point blocks.  A finite    *)
(* number is sign * mant * 2^(exp-25) with exp >= 1 and mant < 2048.           *)
EXTENDS Bits, SequencesExt

Mant(h) == IF (h \div 1024) % 32 = 0 THEN h % 1024 ELSE 1024 + (h % 1024)
Expo(h) == IF (h \div 1024) % 32 = 0 THEN 1 ELSE (h \div 1024) % 32
Sign(h) == h \div 32768
Finite(h) == (h \div 1024) % 32 # 31

BitLenTab == [i \in 0..4095 |-> IF i = 0 THEN 0 ELSE CHOOSE n \in 1..12 : Pow2[n - 1] <= i /\ i < Pow2[n]]
BitLen(x) == IF x < 4096 THEN BitLenTab[x] ELSE 12 + BitLenTab[x \div 4096]

\* s * 2^(e-25), rounded towards zero; e may be any integer; s < 2^24.
\* Overflow: -1.
PackRZ(s, e) ==
  IF s = 0 THEN 0
  ELSE LET sh == BitLen(s) - 11
           ex == e + sh
       IN IF ex >= 31 THEN -1
          ELSE IF ex >= 1
               THEN (ex - 1) * 1024 + (IF sh >= 0 THEN s \div Pow2[sh] ELSE s * Pow2[-sh])
               ELSE IF e >= 1 THEN s * Pow2[e - 1]
                    ELSE IF 1 - e > 24 THEN 0 ELSE s \div Pow2[1 - e]

\* sum of two non-negative numbers
FAddMag(a, b) ==
  LET ea == Expo(a)
      eb == Expo(b)
      ma == Mant(a)
      mb == Mant(b)
      d  == IF ea >= eb THEN ea - eb ELSE eb - ea
      hi == IF ea >= eb THEN ma ELSE mb
      lo == IF ea >= eb THEN mb ELSE ma
      el == IF ea >= eb THEN eb ELSE ea
  \* beyond 11 places the smaller operand is less than one unit of the larger;
  \* the sum's leading bit cannot move, so truncation drops it entirely
  IN IF d > 11 THEN PackRZ(hi, el + d) ELSE PackRZ(hi * Pow2[d] + lo, el)

FMulMag(a, b) == PackRZ(Mant(a % 32768) * Mant(b % 32768), Expo(a) + Expo(b) - 25)

----------------------------------------------------------------------------
\* pixel <-> half float in [0, 1): v/256 exactly, and floor(256 x)
PixToHalf(v) == PackRZ(v, 17)                        \* v * 2^(17-25)
HalfToPix(h) == LET e == Expo(h)                     \* floor(mant * 2^(e-25+8))
                IN IF 17 - e >= 12 THEN 0 ELSE Mant(h) \div Pow2[17 - e]
BelowOne(h)  == h < 15 * 1024

AddRow(row, hdr) == LET e == FAddMag(row[1], row[2])
                    IN IF e = -1 \/ e = row[3] THEN "" ELSE "sum"
MulRow(row, hdr) ==
  LET e  == FMulMag(row[1], row[2])
      sg == (Sign(row[1]) + Sign(row[2])) % 2
  IN IF e = -1 THEN ""
     ELSE IF row[3] % 32768 # e THEN "product_magnitude"
     ELSE IF hdr.signed /\ e # 0 /\ Sign(row[3]) # sg THEN "product_sign" ELSE ""
PixRow(row, hdr)  == IF row[2] = PixToHalf(row[1]) THEN "" ELSE "pixel_to_float"
FloatRow(row, hdr) == IF ~BelowOne(row[1]) \/ row[2] = HalfToPix(row[1]) THEN "" ELSE "float_to_pixel"
RoundTrip(row, hdr) == IF row[3] = row[1] THEN "" ELSE "round_trip"

P == 67108859
\* digest of one operand against in2 = lo .. lo+n-1; an overflowing result counts as 0
DigestOp(op, a, lo, n, h) ==
  LET F(acc, i) == LET b == lo + i - 1
                       r == IF op = 0 THEN FAddMag(a, b) ELSE FMulMag(a, b)
                   IN (acc * 31 + (IF r = -1 THEN 0 ELSE r)) % P
  IN FoldLeft(F, h, [i \in 1..n |-> i])
=============================================================================
