------------------------------ MODULE Terminal ------------------------------
(* The VGA text terminal.                                                      *)
(*   Ras  sync raster                                                          *)
(*   TextLine  what a scan line shows                                          *)
(*   Wb   memory access from the bus                                           *)
EXTENDS Bits, Sequences

NoFinal(s, hdr) == ""
B(x) == IF x THEN 1 ELSE 0

\* 640x480: clocks of a line from the fall of hsync, lines of a picture from
\* the fall of vsync
LineClocks == 800
HSync == 96
HFirst == 144
HLast == 783
Lines == 521
VSync == 2
VFirst == 31
VLast == 510

(* Ras.  row = <<hsync, vsync, n>>: n clocks with these levels, then a change. *)
(* at: clocks since the start of the picture, -1 before the first vsync; low:  *)
(* clocks hsync has been low.  vsync may change up to two clocks after a line  *)
(* starts.                                                                     *)
RasInit(hdr) == [at |-> -1, vs |-> 0, low |-> 0]
RasAt(s, row) == IF s.at >= 0 THEN s.at ELSE IF s.vs = 1 /\ row[2] = 0 THEN s.low ELSE -1
RasOk(a, row) ==
  LET h == a % LineClocks
      v == a \div LineClocks
  IN /\ row[1] = B(h >= HSync)
     /\ (row[2] = B(v >= VSync) \/ (v \in {0, VSync} /\ h <= 2))
RasCheck(s, row, hdr) ==
  LET a == RasAt(s, row)
  IN IF a < 0 THEN ""
     ELSE IF s.at < 0 /\ a > 2 THEN "vsync_inside_line"
     ELSE IF \A i \in 0..row[3] - 1 : RasOk((a + i) % (LineClocks * Lines), row) THEN "" ELSE "raster"
RasStep(s, row, hdr) ==
  LET a == RasAt(s, row)
  IN [at |-> IF a < 0 THEN -1 ELSE (a + row[3]) % (LineClocks * Lines), vs |-> row[2],
      low |-> IF row[1] = 0 THEN s.low + row[3] ELSE 0]
RasFinal(s, hdr) == IF s.at < 0 THEN "no_vsync" ELSE ""

----------------------------------------------------------------------------
Columns == 80
CellHeight == 16
FontBase == 4800
Palette == <<0, 170, 43520, 43690, 11141120, 11141290, 11162880, 11184810,
             5592405, 5592575, 5635925, 5636095, 16733525, 16733695, 16777045, 16777215>>
\* colour of each pixel of cell c (from 0) on picture line y
Cell(mem, c, y) ==
  LET a   == 2 * ((y \div CellHeight) * Columns + c)
      ch  == mem[a + 1]
      col == mem[a + 2]
      dots == mem[FontBase + ch * CellHeight + (y % CellHeight) + 1]
      fg  == Palette[(col % 16) + 1]
      bg  == Palette[(col \div 16) + 1]
  IN [i \in 1..8 |-> IF Bit(dots, 8 - i) = 1 THEN fg ELSE bg]
(* row = <<line of the picture>> \o colours of its 800 clocks                  *)
TextLine(row, hdr) ==
  LET v == row[1]
      shown == v >= VFirst /\ v <= VLast
  IN IF \E h \in 0..LineClocks - 1 : (~shown \/ h < HFirst \/ h > HLast) /\ row[2 + h] # 0
     THEN "not_black_outside"
     ELSE IF shown /\ \E c \in 0..Columns - 1 :
               SubSeq(row, 2 + HFirst + 8 * c, 9 + HFirst + 8 * c) # Cell(hdr.mem, c, v - VFirst)
     THEN "text" ELSE ""

----------------------------------------------------------------------------
(* Wb.  hdr.init: what the addresses in use hold at first; row = <<request     *)
(*   (cyc and stb), write, index of the address, data to write, ack, data read>> *)
WbInit(hdr) == [mem |-> hdr.init, wait |-> 0]
WbCheck(s, row, hdr) ==
  IF row[5] = 1 /\ row[1] = 0 THEN "ack_without_request"
  ELSE IF row[5] = 1 /\ s.wait = 0 THEN "ack_too_early"
  ELSE IF row[5] = 0 /\ s.wait >= 3 THEN "no_ack"
  ELSE IF row[5] = 1 /\ row[2] = 0 /\ row[6] # s.mem[row[3]] THEN "read_data" ELSE ""
WbStep(s, row, hdr) ==
  [mem  |-> IF row[5] = 1 /\ row[2] = 1 THEN [s.mem EXCEPT ![row[3]] = row[4]] ELSE s.mem,
   wait |-> IF row[5] = 1 \/ row[1] = 0 THEN 0 ELSE s.wait + 1]
=============================================================================
