----------------------------- MODULE PixelStream ----------------------------
(* Every stream converter: a beat is accepted when valid and ready meet at the *)
(* sink, and exactly the accepted beats come out of the source, once each, in  *)
(* order, converted, with their packet markers, and held while the consumer    *)
(* stalls.                                                                     *)
(* hdr: kind, dw, cw, maxout (bound on ready wait), drain (TRUE: end must be   *)
(* empty).  row = <<sink valid, sink ready, first, last, din,                  *)
(*                  source valid, source ready, first, last, dout>>            *)
(* din/dout are sequences of component values.  The chroma downsampler has an   *)
(* eleventh column, its line start marker: pairs are counted from there, and a  *)
(* pixel left without a partner by a new line keeps only its luma.             *)
EXTENDS ColorSpace, HalfFloat

Convert(hdr, x) ==
  CASE hdr.kind = "rgb2ycbcr" -> ToYCbCr(x[1], x[2], x[3], hdr.dw, hdr.cw)
    [] hdr.kind = "ycbcr2rgb" -> ToRGB(x[1], x[2], x[3], hdr.dw, hdr.cw)
    [] hdr.kind = "rgb2rgb16f" -> <<PixToHalf(x[1]), PixToHalf(x[2]), PixToHalf(x[3])>>
    [] hdr.kind = "rgb16f2rgb" -> <<HalfToPix(x[1]), HalfToPix(x[2]), HalfToPix(x[3])>>
    [] hdr.kind = "floatadd" -> <<FAddMag(x[1], x[2])>>
    [] hdr.kind = "floatmult" -> <<FMulMag(x[1], x[2])>>

\* chroma resampling works on pairs of pixels; q is the sequence of accepted,
\* not yet emitted pixels, odd = the first of them is the second of its pair
\* (then carry holds its partner's chroma)
Mean(a, b) == (a + b) \div 2

\* expected output for the head of the queue, <<>> when it cannot be known yet
HeadOf(s, hdr) ==
  LET q == s.q
      x == q[1].d
  IN CASE hdr.kind = "444to422" ->
            IF ~s.odd THEN IF Len(q) < 2 THEN <<>> ELSE <<x[1], Mean(x[2], q[2].d[2])>>
            ELSE <<x[1], Mean(s.carry[3], x[3])>>
       [] hdr.kind = "422to444" ->
            IF ~s.odd THEN IF Len(q) < 2 THEN <<>> ELSE <<x[1], x[2], q[2].d[2]>>
            ELSE <<x[1], s.carry[2], x[2]>>
       [] OTHER -> Convert(hdr, x)

\* the pixel offered has lost its partner to the start of a new line
Alone(s) == s.q # <<>> /\ ~s.odd /\ Len(s.q) >= 2 /\ s.q[2].p

PxInit(hdr) == [q |-> <<>>, odd |-> FALSE, carry |-> <<>>, held |-> <<>>, wait |-> 0, idle |-> 0]

Accepted(row) == row[1] = 1 /\ row[2] = 1
Emitted(row)  == row[6] = 1 /\ row[7] = 1
OutOf(row)    == <<row[8], row[9], row[10]>>

PxCheck(s, row, hdr) ==
  IF row[6] = 1 /\ s.q = <<>> THEN "output_without_input"
  ELSE IF s.held # <<>> /\ row[6] = 0 THEN "valid_withdrawn"
  ELSE IF s.held # <<>> /\ s.held # OutOf(row) THEN "output_changes_while_stalled"
  ELSE IF row[6] = 1 /\ HeadOf(s, hdr) = <<>> THEN "output_before_its_pair"
  ELSE IF row[6] = 1 /\ Alone(s) THEN (IF row[10][1] # s.q[1].d[1] THEN "wrong_luma" ELSE "")
  ELSE IF row[6] = 1 /\ row[10] # HeadOf(s, hdr) THEN "wrong_data"
  ELSE IF row[6] = 1 /\ (row[8] # s.q[1].f \/ row[9] # s.q[1].l) THEN "packet_marker"
  ELSE IF s.wait > hdr.maxwait THEN "sink_never_ready"
  ELSE IF s.idle > hdr.maxwait THEN "output_withheld"
  ELSE ""

PxStep(s, row, hdr) ==
  LET q1 == IF Accepted(row) THEN Append(s.q, [d |-> row[5], f |-> row[3], l |-> row[4],
                                                     p |-> Len(row) > 10 /\ row[11] = 1]) ELSE s.q
  IN [q     |-> IF Emitted(row) THEN Tail(q1) ELSE q1,
      odd   |-> IF Emitted(row) THEN (~s.odd /\ ~Alone(s)) ELSE s.odd,
      carry |-> IF Emitted(row) THEN s.q[1].d ELSE s.carry,
      held  |-> IF row[6] = 1 /\ row[7] = 0 THEN OutOf(row) ELSE <<>>,
      \* cycles a willing producer / consumer has been kept waiting by the block
      wait  |-> IF row[1] = 1 /\ row[2] = 0 /\ (row[7] = 1) THEN s.wait + 1 ELSE 0,
      idle  |-> IF row[7] = 1 /\ row[6] = 0 /\ s.q # <<>> /\ (hdr.pairs = 0 \/ Len(s.q) > 1 \/ s.odd)
                THEN s.idle + 1 ELSE 0]

PxFinal(s, hdr) == IF s.q = <<>> THEN "" ELSE "beats_lost"
=============================================================================
