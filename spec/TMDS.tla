-------------------------------- MODULE TMDS --------------------------------
(* DVI 1.0 transition minimised differential signalling, one channel.          *)
(* Encoder state: the running disparity `cnt` and the inputs still in flight.  *)
EXTENDS Bits

ControlToken == <<852, 171, 340, 683>>     \* c = 0,1,2,3 (bit 9 first on paper)

\* stage 1: transition minimised word q_m[8:0] of a data byte
RECURSIVE QmBits(_, _, _)
QmBits(d, i, xnor) ==       \* q_m[i:0] as an integer
  IF i = 0 THEN Bit(d, 0)
  ELSE LET lo == QmBits(d, i - 1, xnor)
           b  == (Bit(lo, i - 1) + Bit(d, i) + xnor) % 2
       IN lo + b * Pow2[i]
UseXnor(d) == LET n == Ones(d, 8) IN n > 4 \/ (n = 4 /\ Bit(d, 0) = 0)
QmOf(d)    == IF UseXnor(d) THEN QmBits(d, 7, 1) ELSE QmBits(d, 7, 0) + 256
Qm  == [d \in 0..255 |-> QmOf(d)]
N1  == [q \in 0..255 |-> Ones(q, 8)]

\* stage 2: DC balance.  Result: <<10-bit symbol, new disparity>>
Encode(d, cnt) ==
  LET q   == Qm[d]
      q8  == q \div 256
      lo  == q % 256
      n1  == N1[lo]
      n0  == 8 - n1
  IN IF cnt = 0 \/ n1 = n0
     THEN IF q8 = 1 THEN <<lo + 256, cnt + n1 - n0>>
                    ELSE <<(255 - lo) + 512, cnt + n0 - n1>>
     ELSE IF (cnt > 0 /\ n1 > n0) \/ (cnt < 0 /\ n0 > n1)
          THEN <<512 + q8 * 256 + (255 - lo), cnt + 2 * q8 + n0 - n1>>
          ELSE <<q8 * 256 + lo, cnt - 2 * (1 - q8) + n1 - n0>>

\* DVI receiver: inverse mapping
RECURSIVE DecBits(_, _, _)
DecBits(q, i, xnor) ==
  IF i = 0 THEN Bit(q, 0)
  ELSE DecBits(q, i - 1, xnor) + Pow2[i] * ((Bit(q, i) + Bit(q, i - 1) + xnor) % 2)
DecodeData(s) ==
  LET inv == Bit(s, 9)
      lo  == IF inv = 1 THEN 255 - (s % 256) ELSE s % 256
  IN DecBits(lo, 7, 1 - Bit(s, 8))
IsControl(s)  == \E i \in 1..4 : ControlToken[i] = s
ControlOf(s)  == (CHOOSE i \in 1..4 : ControlToken[i] = s) - 1

\* what the encoder emits for one input [d, c, de]
Emit(x, cnt) == IF x[3] = 1 THEN Encode(x[1], cnt) ELSE <<ControlToken[x[2] + 1], 0>>

----------------------------------------------------------------------------
(* conformance of the encoder: row = <<d, c, de, out>>, hdr.lat = latency      *)
EncInit(hdr) == [line |-> <<>>, cnt |-> 0, sync |-> FALSE]
\* the disparity is only known after the first control symbol
EncCheck(s, row, hdr) ==
  IF Len(s.line) < hdr.lat THEN ""
  ELSE LET x == s.line[1]
           e == Emit(x, s.cnt)
       IN IF x[3] = 0
          THEN IF row[4] = e[1] THEN "" ELSE "control_token"
          ELSE IF ~s.sync \/ row[4] = e[1] THEN ""
               ELSE IF DecodeData(row[4]) # x[1] THEN "data_symbol_decodes_wrong"
               ELSE IF IsControl(row[4]) THEN "data_symbol_is_control"
               ELSE "dc_balance"
EncStep(s, row, hdr) ==
  IF Len(s.line) < hdr.lat
  THEN [s EXCEPT !.line = Append(@, SubSeq(row, 1, 3))]
  ELSE LET x == s.line[1]
       IN [line |-> Append(Tail(s.line), SubSeq(row, 1, 3)),
           cnt  |-> IF s.sync \/ x[3] = 0 THEN Emit(x, s.cnt)[2] ELSE 0,
           sync |-> s.sync \/ x[3] = 0]
NoFinal(s, hdr) == ""
=============================================================================
