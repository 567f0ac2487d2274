-------------------------------- MODULE EDID --------------------------------
(* The display data channel: an I2C read-only memory at address 0x50 that     *)
(* answers only while hot plug is enabled.                                    *)
(* row = <<kind, v, d1, d2, hpd_pin, notif, notif_pin>>                       *)
(*  kind 1 START, 2 STOP, 3 clock pulse with the master sending v (1 released)*)
(*       4 hot plug enable set to v, 5 nothing happens for a while            *)
(*  d1, d2: the slave pulls SDA low at the beginning / at the end of the      *)
(*  clock's high phase (kinds 4, 5: at the end)                               *)
(* hdr = [size, mem, gated: the pins include a hot plug enable]               *)
EXTENDS Naturals, Sequences, SequencesExt, Bits

B(x) == IF x THEN 1 ELSE 0
NoFinal(s, hdr) == ""
EdiInit(hdr) == [ph |-> "idle", n |-> 0, sh |-> 0, ptr |-> 0, en |-> IF hdr.gated = 1 THEN 0 ELSE 1]

\* what the slave does with SDA during the next clock pulse
Pulls(s, hdr) ==
  CASE s.ph = "addr" -> B(s.n = 8 /\ s.sh \div 2 = 80)
    [] s.ph = "offset" -> B(s.n = 8)
    [] s.ph = "read" -> IF s.n = 8 THEN 0 ELSE 1 - Bit(hdr.mem[s.ptr + 1], 7 - s.n)
    [] OTHER -> 0

EdiCheck(s, row, hdr) ==
  LET k == row[1] IN
  IF row[5] # (IF hdr.gated = 1 /\ k # 4 THEN s.en ELSE row[5]) THEN "hot_plug_pin"
  ELSE IF row[6] # row[7] THEN "hot_plug_status"
  ELSE IF k = 3 THEN
     IF row[3] # row[4] THEN "sda_changes_while_clock_high"
     ELSE IF row[3] # Pulls(s, hdr)
          THEN CASE s.en = 0 -> "answers_while_disabled"
                 [] s.ph = "addr" /\ s.n = 8 -> IF row[3] = 1 THEN "acknowledges_other_address" ELSE "address_not_acknowledged"
                 [] s.ph = "offset" /\ s.n = 8 -> "offset_not_acknowledged"
                 [] s.ph = "read" /\ s.n < 8 -> "data_bit"
                 [] OTHER -> "sda_not_released"
          ELSE ""
  ELSE IF k = 4 /\ row[5] # row[2] THEN "hot_plug_pin"
  ELSE IF k = 4 /\ row[2] = 0 /\ row[4] = 1 THEN "sda_not_released"
  ELSE IF k \in {1, 2} /\ (row[3] = 1 \/ row[4] = 1) THEN "sda_not_released"
  ELSE IF k = 5 /\ s.ph = "idle" /\ row[4] = 1 THEN "sda_not_released" ELSE ""

EdiStep(s, row, hdr) ==
  LET k == row[1]
      v == row[2]
  IN CASE k = 1 -> IF s.en = 1 THEN [s EXCEPT !.ph = "addr", !.n = 0, !.sh = 0] ELSE s
       [] k = 2 -> [s EXCEPT !.ph = "idle"]
       [] k = 4 -> IF v = 0 THEN [s EXCEPT !.en = 0, !.ph = "idle"] ELSE [s EXCEPT !.en = 1]
       [] k = 5 -> s
       [] s.ph = "addr" -> IF s.n < 8 THEN [s EXCEPT !.n = @ + 1, !.sh = (@ * 2 + v) % 256]
                           ELSE IF s.sh = 160 THEN [s EXCEPT !.ph = "offset", !.n = 0, !.sh = 0]
                           ELSE IF s.sh = 161 THEN [s EXCEPT !.ph = "read", !.n = 0]
                           ELSE [s EXCEPT !.ph = "idle"]
       \* an offset byte moves the read pointer; a further byte needs a new START
       [] s.ph = "offset" -> IF s.n < 8 THEN [s EXCEPT !.n = @ + 1, !.sh = (@ * 2 + v) % 256]
                             ELSE [s EXCEPT !.ph = "idle", !.ptr = s.sh % hdr.size]
       [] s.ph = "read" -> IF s.n < 8 THEN [s EXCEPT !.n = @ + 1]
                           ELSE [s EXCEPT !.ptr = (@ + 1) % hdr.size, !.n = 0,
                                          !.ph = IF v = 1 THEN "idle" ELSE "read"]
       [] OTHER -> s

----------------------------------------------------------------------------
(* EdiT: whole transfers.  row = <<offset or -1, count, byte1..byten>>: bytes  *)
(* a master read after setting the offset (-1: continuing)                     *)
EdiTInit(hdr) == [ptr |-> 0]
EdiTCheck(s, row, hdr) ==
  LET o == IF row[1] >= 0 THEN row[1] % hdr.size ELSE s.ptr
  IN IF \E i \in 1..row[2] : row[3][i] # hdr.mem[((o + i - 1) % hdr.size) + 1] THEN "bytes_read" ELSE ""
EdiTStep(s, row, hdr) == [ptr |-> ((IF row[1] >= 0 THEN row[1] ELSE s.ptr) + row[2]) % hdr.size]

(* EdiBlock: the blocks of the built-in description.  row = <<number, bytes>>  *)
SumSeq(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
EdiBlock(row, hdr) ==
  IF Len(row[2]) # 128 THEN "block_size"
  ELSE IF SumSeq(row[2]) % 256 # 0 THEN "block_checksum"
  ELSE IF row[1] = 0 /\ SubSeq(row[2], 1, 8) # <<0, 255, 255, 255, 255, 255, 255, 0>> THEN "header"
  ELSE IF row[1] = 0 /\ row[2][127] # hdr.blocks - 1 THEN "extension_count" ELSE ""
=============================================================================
