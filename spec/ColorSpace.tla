----------------------------- MODULE ColorSpace -----------------------------
(* Colour space conversion, after Xilinx XAPP930 / XAPP931, in fixed point.    *)
(* dw: component width, cw: fractional bits of the coefficients (rgb->ycbcr);  *)
(* the inverse uses cw-2 fractional bits.  Each scaled product is rounded down *)
(* (towards minus infinity) and results saturate to 0 .. 2^dw-1.               *)
EXTENDS Bits, SequencesExt

\* coefficient numerators over 10000
CoefA == 1819   CoefB == 618   CoefC == 5512   CoefD == 6495
Fix(num, den, cw) == (num * Pow2[cw]) \div den        \* truncated, num >= 0

Sat(x, dw) == Clamp(x, 0, Pow2[dw] - 1)
\* floor(x / 2^n) also for negative x: TLA+ \div rounds down

Coefs(cw) == [a |-> Fix(CoefA, 10000, cw), b |-> Fix(CoefB, 10000, cw),
              c |-> Fix(CoefC, 10000, cw), d |-> Fix(CoefD, 10000, cw),
              s |-> Pow2[cw]]
\* k = Coefs(cw), m = 2^dw - 1
YCbCrK(r, g, b, k, m) ==
  LET yraw == ((k.a * (r - g) + k.b * (b - g)) \div k.s) + g
      y    == yraw + ((m + 1) \div 16)
      cb   == ((k.c * (b - yraw)) \div k.s) + ((m + 1) \div 2)
      cr   == ((k.d * (r - yraw)) \div k.s) + ((m + 1) \div 2)
  IN <<IF y > m THEN m ELSE IF y < 0 THEN 0 ELSE y,
       IF cb > m THEN m ELSE IF cb < 0 THEN 0 ELSE cb,
       IF cr > m THEN m ELSE IF cr < 0 THEN 0 ELSE cr>>
ToYCbCr(r, g, b, dw, cw) == YCbCrK(r, g, b, Coefs(cw), Pow2[dw] - 1)

\* 1/cd, cb/(cc(1-ca-cb)), ca/(cd(1-ca-cb)), 1/cc as scaled integers, truncated
\* towards zero in cw-2 fractional bits
InvA(cw) == (10000 * Pow2[cw - 2]) \div CoefD
InvD(cw) == (10000 * Pow2[cw - 2]) \div CoefC
\* 618/(5512*(10000-1819-618)/10000) = 618*10000/(5512*7563); scaled to stay in 32 bits
InvB(cw) == (618 * 10000 * Pow2[cw - 2]) \div (5512 * 7563)
InvC(cw) == (((1819 * 10000 * Pow2[2]) \div 6495) * Pow2[cw - 4]) \div 7563

InvCoefs(cw) == [a |-> InvA(cw), b |-> 0 - InvB(cw), c |-> 0 - InvC(cw), d |-> InvD(cw),
                 s |-> Pow2[cw - 2]]
RGBK(y, cb, cr, k, m) ==
  LET y0 == y - ((m + 1) \div 16)
      b0 == cb - ((m + 1) \div 2)
      r0 == cr - ((m + 1) \div 2)
      r  == y0 + ((r0 * k.a) \div k.s)
      g  == y0 + ((b0 * k.b) \div k.s) + ((r0 * k.c) \div k.s)
      b  == y0 + ((b0 * k.d) \div k.s)
  IN <<IF r > m THEN m ELSE IF r < 0 THEN 0 ELSE r,
       IF g > m THEN m ELSE IF g < 0 THEN 0 ELSE g,
       IF b > m THEN m ELSE IF b < 0 THEN 0 ELSE b>>
ToRGB(y, cb, cr, dw, cw) == RGBK(y, cb, cr, InvCoefs(cw), Pow2[dw] - 1)

----------------------------------------------------------------------------
(* row = <<a, b, c, x, y, z>>: converter input and observed output             *)
Differ(exp, row) == IF <<row[4], row[5], row[6]>> = exp THEN ""
                    ELSE IF row[4] # exp[1] THEN "component_1"
                    ELSE IF row[5] # exp[2] THEN "component_2" ELSE "component_3"
YCbCrRow(row, hdr) == Differ(ToYCbCr(row[1], row[2], row[3], hdr.dw, hdr.cw), row)
RGBRow(row, hdr)   == Differ(ToRGB(row[1], row[2], row[3], hdr.dw, hdr.cw), row)

\* order-sensitive digest of a plane of results: one number per first component
P == 67108859
K8 == Coefs(8)
I8 == InvCoefs(8)
Bytes == [i \in 1..256 |-> i - 1]
LineY(a, b, h) ==
  LET F(acc, c) == LET o == YCbCrK(a, b, c, K8, 255)
                   IN (acc * 31 + o[1] * 131 + o[2] * 257 + o[3]) % P
  IN FoldLeft(F, h, Bytes)
LineR(a, b, h) ==
  LET F(acc, c) == LET o == RGBK(a, b, c, I8, 255)
                   IN (acc * 31 + o[1] * 131 + o[2] * 257 + o[3]) % P
  IN FoldLeft(F, h, Bytes)
=============================================================================
