-------------------------------- MODULE Bits --------------------------------
(* Bit-level helpers over the natural numbers (TLC integers are 32-bit signed, *)
(* so every operand here is below 2^31).                                       *)
EXTENDS Integers, Sequences, Bitwise

Pow2 == [i \in 0..30 |-> 2^i]
Bit(x, i)        == (x \div Pow2[i]) % 2
Slice(x, lo, n)  == (x \div Pow2[lo]) % Pow2[n]
Xor1(a, b)       == (a + b) % 2

RECURSIVE OnesR(_, _)
OnesR(x, n) == IF n = 0 THEN 0 ELSE (x % 2) + OnesR(x \div 2, n - 1)
Ones(x, n)  == OnesR(x, n)

RECURSIVE TransR(_, _)
TransR(x, n) == IF n = 0 THEN 0          \* transitions between adjacent bits 0..n
                ELSE (IF (x % 2) # ((x \div 2) % 2) THEN 1 ELSE 0) + TransR(x \div 2, n - 1)

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

(* keep the last n elements of a history *)
LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
=============================================================================
