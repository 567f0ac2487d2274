------------------------------ MODULE EDID_MC ------------------------------
(* Any master on the display data channel, against a small memory.             *)
EXTENDS EDID, Integers
Mem == <<165, 0, 255>>
VARIABLES s, row, exp, bits
\* exp: pointer of the byte being delivered; bits: its bits so far
hdr == [size |-> Len(Mem), mem |-> Mem, gated |-> 1]
Row(k, v, d) == <<k, v, d, d, s.en, 0, 0>>
Init == s = EdiInit(hdr) /\ row = <<5, 0, 0, 0, 0, 0, 0>> /\ exp = 0 /\ bits = <<>>
D == Pulls(s, hdr)
\* the wire is low if either side pulls; a master cannot make START/STOP while the slave pulls
Act(r) == /\ s' = EdiStep(s, r, hdr) /\ row' = r
          /\ bits' = IF r[1] = 3 /\ s.ph = "read" /\ s.n < 8 THEN Append(bits, 1 - D)
                     ELSE <<>>
          /\ exp' = IF r[1] = 3 /\ s.ph = "read" /\ s.n = 0 THEN s.ptr ELSE exp
Next == \/ D = 0 /\ \E k \in {1, 2} : Act(Row(k, 0, 0))
        \/ \E v \in 0..1 : Act(Row(3, v, D))
        \/ \E v \in 0..1 : Act(<<4, v, 0, 0, v, 0, 0>>)
Val(b) == b[1] * 128 + b[2] * 64 + b[3] * 32 + b[4] * 16 + b[5] * 8 + b[6] * 4 + b[7] * 2 + b[8]
\* the bytes on the wire are the memory's, most significant bit first, in order, wrapping
Bytes  == Len(bits) = 8 => Val(bits) = Mem[exp + 1] /\ s.ptr = exp
\* silent while hot plug is off
Silent == s.en = 0 => D = 0
\* never pulls SDA while the master sends: address bits, offset bits, acknowledge of a read
Polite == /\ s.ph = "idle" => D = 0
          /\ s.ph \in {"addr", "offset"} /\ s.n < 8 => D = 0
          /\ s.ph = "read" /\ s.n = 8 => D = 0
\* acknowledges its own address only
Own    == s.ph = "addr" /\ s.n = 8 /\ D = 1 => s.sh \in {160, 161}
Inv == Bytes /\ Silent /\ Polite /\ Own
=============================================================================
