------------------------------ MODULE VideoOut ------------------------------
(* The video output, one operator family per block:                            *)
(*   Tim   timing generator: the raster of a frame                             *)
(*   Vid   core: raster and frame words from memory, parameters per frame      *)
(*   Gen   core locked to an external raster                                   *)
(*   Und   underflow counter                                                   *)
(*   Wire  everything up to the connector, HDMI or VGA                         *)
(* A parameter set is <<hres, hsync start, hsync end, hscan, vres, vsync start,*)
(*   vsync end, vscan, base, words, enabled>>, base and words in memory words. *)
EXTENDS ColorSpace, TMDS, FiniteSets

B(x) == IF x THEN 1 ELSE 0
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
MaxOf(S) == CHOOSE i \in S : \A j \in S : i >= j

\* the raster: position <<h, v>>, columns 0..hscan, lines 0..vscan
De(p, x) == x[1] < p[1] /\ x[2] < p[5]
Hs(p, x) == p[2] <= x[1] /\ x[1] < p[3]
Vs(p, x) == p[6] <= x[2] /\ x[2] < p[7]
Sig(p, x) == <<B(De(p, x)), B(Hs(p, x)), B(Vs(p, x))>>
IsLast(p, x) == x = <<p[4], p[8]>>
NextPos(p, x) == IF x[1] < p[4] THEN <<x[1] + 1, x[2]>>
                 ELSE IF x[2] < p[8] THEN <<0, x[2] + 1>> ELSE <<0, 0>>

----------------------------------------------------------------------------
(* Tim.  hdr.sets; row = <<valid, ready, set, ovalid, de, hs, vs, taken>>.     *)
(* pos <<>>: the blank tick that precedes the first frame.                     *)
TimInit(hdr) == [pos |-> <<>>]
TimEnd(s, row, hdr) == row[1] = 1 /\ row[2] = 1 /\ s.pos # <<>> /\ IsLast(hdr.sets[row[3]], s.pos)
TimCheck(s, row, hdr) ==
  IF row[1] = 0
  THEN IF row[4] # 0 \/ row[5] # 0 THEN "output_while_disabled" ELSE ""
  ELSE LET e == IF s.pos = <<>> THEN <<0, 0, 0>> ELSE Sig(hdr.sets[row[3]], s.pos)
       IN IF row[4] # 1 THEN "output_missing"
          ELSE IF row[5] # e[1] THEN "data_enable"
          ELSE IF row[6] # e[2] THEN "hsync" ELSE IF row[7] # e[3] THEN "vsync"
          ELSE IF row[8] # B(TimEnd(s, row, hdr))
               THEN IF row[8] = 1 THEN "parameters_taken_early" ELSE "parameters_not_taken" ELSE ""
TimStep(s, row, hdr) ==
  [pos |-> IF row[1] = 0 THEN <<>> ELSE IF row[2] = 0 THEN s.pos
           ELSE IF s.pos = <<>> THEN <<0, 0>> ELSE NextPos(hdr.sets[row[3]], s.pos)]
(* TimL.  row = <<want, ready, next, withdraw>> \o <<valid, set (from 0)>> \o outputs *)
TimRow(row) == <<row[5], row[2], row[6] + 1, row[7], row[8], row[9], row[10], row[11]>>
TimLInit(hdr) == TimInit(hdr)
TimLCheck(s, row, hdr) == TimCheck(s, TimRow(row), hdr)
TimLStep(s, row, hdr) == TimStep(s, TimRow(row), hdr)

----------------------------------------------------------------------------
(* Vid.  hdr.sets: what the registers held, in order of time; row, one per     *)
(* pixel tick = <<set in the registers now, ovalid, oready, de, hs, vs, data,  *)
(*   cmd valid, cmd ready, cmd address, read valid, read ready, memory willing>> *)
(* memory returns Word(address); hdr.mul, hdr.mod, hdr.amod (addresses), raw,  *)
(* lim/offlim: ticks a wait may last while memory is willing.                  *)
(* hyp: <<set, position>> the frame may be at; b: sets its base may be from.   *)
Word(hdr, a) == ((a % hdr.amod) * hdr.mul) % hdr.mod
Enabled(hdr, i) == hdr.sets[i][11] = 1
Deep == 6                    \* frames a parameter set may wait in the queue

VidInit(hdr) == [ph |-> "off", hyp |-> {}, k |-> 0, b |-> {}, held |-> <<>>, cmd |-> <<>>,
                 hist |-> <<>>, lo |-> 1, cands |-> {}, offw |-> 0, idle |-> 0, wait |-> 0]
\* sets a frame starting now may use
Window(s, row, hdr) ==
  LET lo == IF Len(s.hist) >= Deep THEN MaxI(s.lo, s.hist[1]) ELSE s.lo
  IN {i \in lo..row[1] : Enabled(hdr, i)}
\* the hypotheses the row leaves, given those before it
Keep(s, row, hdr) == {x \in s.hyp : Sig(hdr.sets[x[1]], x[2]) = <<row[4], row[5], row[6]>>}
Waiting(s, hdr)   == {x \in s.hyp : De(hdr.sets[x[1]], x[2])}
KeepB(s, row, hdr) == {j \in s.b : Word(hdr, hdr.sets[j][9] + s.k) = row[7]}
Starts(s, row) == row[2] = 1 /\ (s.ph = "off" \/ (s.ph = "either" /\ row[4] = 0))
MayStop(s, row, hdr) == \E i \in MinOf(s.cands)..row[1] : ~Enabled(hdr, i)

Shown(row, hdr) == <<row[4], row[5], row[6], IF row[4] = 1 \/ hdr.raw THEN row[7] ELSE 0>>

VidCheck(s, row, hdr) ==
  IF row[11] = 1 /\ row[12] = 0 THEN "read_data_dropped"
  ELSE IF s.cmd # <<>> /\ (row[8] = 0 \/ row[10] # s.cmd[1]) THEN "command_withdrawn"
  ELSE IF s.held # <<>> /\ row[2] = 0 THEN "valid_withdrawn"
  ELSE IF s.held # <<>> /\ s.held # Shown(row, hdr) THEN "output_changes_while_stalled"
  ELSE IF row[2] = 0
       THEN IF s.ph = "run" /\ Waiting(s, hdr) = {} THEN "output_missing"
            ELSE IF s.ph # "off" /\ s.wait > hdr.lim THEN "pixels_withheld"
            ELSE IF s.ph = "off" /\ s.offw > hdr.offlim THEN "never_starts" ELSE ""
  ELSE IF Starts(s, row)
       THEN IF <<row[4], row[5], row[6]>> # <<0, 0, 0>> THEN "starts_inside_frame"
            ELSE IF Window(s, row, hdr) = {} THEN "output_while_disabled"
            ELSE IF s.ph = "either" /\ ~MayStop(s, row, hdr) THEN "stops_while_enabled" ELSE ""
  ELSE IF s.hyp = {} THEN "output_while_disabled"
  ELSE IF Keep(s, row, hdr) = {} THEN "raster"
  ELSE IF (row[4] = 1 \/ hdr.raw) /\ KeepB(s, row, hdr) = {}
       THEN IF s.k = 0 THEN "frame_start_word" ELSE "frame_word" ELSE ""

VidStep(s, row, hdr) ==
  LET acc   == row[2] = 1 /\ row[3] = 1
      lead  == Starts(s, row)
      hyp1  == IF lead THEN {} ELSE IF row[2] = 1 THEN Keep(s, row, hdr)
               ELSE IF s.ph = "run" THEN Waiting(s, hdr) ELSE s.hyp
      ended == acc /\ ~lead /\ (\E x \in hyp1 : IsLast(hdr.sets[x[1]], x[2]))
      fresh == acc /\ (lead \/ ended)
      used  == {x[1] : x \in hyp1}
      word  == row[2] = 1 /\ ~lead /\ (row[4] = 1 \/ hdr.raw)
      b1    == IF word THEN KeepB(s, row, hdr) ELSE s.b
      \* frames whose end is certain and frames whose end is one possibility of
      \* several are not both explored: sets of one run end together or differ
      \* in what they show first
      s1    == [s EXCEPT !.lo = IF ended THEN MinOf(used) ELSE @]
      win   == Window(s1, row, hdr)
      live  == IF ended THEN {x \in hyp1 : IsLast(hdr.sets[x[1]], x[2])} ELSE hyp1
  IN [ph   |-> IF fresh THEN (IF lead THEN "run" ELSE "either")
               ELSE IF lead THEN "off"
               ELSE IF row[2] = 1 THEN "run"
               ELSE IF s.ph = "either" /\ s.idle > 40 /\ s.lo = row[1] /\ ~Enabled(hdr, row[1]) THEN "off"
               ELSE s.ph,
      hyp  |-> IF fresh THEN {<<i, <<0, 0>>>> : i \in win}
               ELSE IF lead THEN {}
               ELSE IF acc THEN {<<x[1], NextPos(hdr.sets[x[1]], x[2])>> : x \in live} ELSE hyp1,
      k    |-> IF fresh THEN 0 ELSE IF acc /\ word THEN s.k + 1 ELSE s.k,
      b    |-> IF fresh /\ lead THEN win
               ELSE IF fresh THEN {j \in MaxI(MinOf(b1), MinOf(s.cands))..MaxOf(win \union {1}) : Enabled(hdr, j)}
               ELSE b1,
      cands |-> IF fresh THEN win ELSE IF row[2] = 1 /\ ~lead THEN used ELSE s.cands,
      lo   |-> IF s.ph # "run" /\ s.idle > 40 /\ ~Enabled(hdr, row[1]) THEN row[1] ELSE s1.lo,
      hist |-> IF fresh THEN LastN(Append(s.hist, row[1]), Deep) ELSE s.hist,
      held |-> IF row[2] = 1 /\ row[3] = 0 THEN Shown(row, hdr) ELSE <<>>,
      cmd  |-> IF row[8] = 1 /\ row[9] = 0 THEN <<row[10]>> ELSE <<>>,
      \* ticks without output
      idle |-> IF row[2] = 1 THEN 0 ELSE MinI(s.idle + 1, 1000),
      offw |-> IF row[2] = 0 /\ Enabled(hdr, row[1]) /\ row[13] = 1 THEN s.offw + 1
               ELSE IF row[13] = 0 THEN s.offw ELSE 0,
      wait |-> IF row[2] = 0 /\ row[13] = 1 THEN s.wait + 1 ELSE IF row[2] = 0 THEN s.wait ELSE 0]

----------------------------------------------------------------------------
(* Big.  Pictures of full size, one row per run of accepted ticks inside a     *)
(* line: <<ticks, de, hs, vs, first word, last word>> (words count up by one   *)
(* within a row).  hdr.p; the leading blank tick is not part of the rows.      *)
BigInit(hdr) == [pos |-> <<0, 0>>, k |-> 0]
BigInside(b, h, n) == h < b /\ b < h + n
BigCheck(s, row, hdr) ==
  LET p == hdr.p
      h == s.pos[1]
  IN IF h + row[1] > p[4] + 1 THEN "line_too_long"
     ELSE IF \E b \in {p[1], p[2], p[3]} : BigInside(b, h, row[1]) /\ Sig(p, <<b, s.pos[2]>>) # Sig(p, <<b - 1, s.pos[2]>>) THEN "raster"
     ELSE IF SubSeq(row, 2, 4) # Sig(p, s.pos) THEN "raster"
     ELSE IF row[2] = 1 /\ row[5] # Word(hdr, p[9] + s.k) THEN (IF s.k = 0 THEN "frame_start_word" ELSE "frame_word")
     ELSE IF row[2] = 1 /\ row[6] # Word(hdr, p[9] + s.k + row[1] - 1) THEN "frame_word" ELSE ""
BigStep(s, row, hdr) ==
  LET n == NextPos(hdr.p, <<s.pos[1] + row[1] - 1, s.pos[2]>>)
  IN [pos |-> n, k |-> IF n = <<0, 0>> THEN 0 ELSE IF row[2] = 1 THEN s.k + row[1] ELSE s.k]

----------------------------------------------------------------------------
(* Gen.  hdr.base, hdr.delay; row = <<de, hs, vs, ovalid, ode, ohs, ovs, data, *)
(*   memory willing>>.  The output carries the external raster at all times;   *)
(* a frame shows its words, whatever happened before, when the memory kept up  *)
(* since the vsync that starts it - from the third vsync on, for the registers *)
(* to have settled.                                                            *)
GenInit(hdr) == [vs |-> 0, f |-> 0, k |-> 0, ok |-> FALSE]
GenCheck(s, row, hdr) ==
  IF SubSeq(row, 5, 7) # SubSeq(row, 1, 3) THEN "raster"
  ELSE IF s.f < 3 \/ ~s.ok THEN ""
  ELSE IF row[4] = 0 THEN "output_missing"
  ELSE IF row[1] = 1 /\ row[8] # Word(hdr, hdr.base + hdr.delay + s.k) THEN "frame_word" ELSE ""
GenStep(s, row, hdr) ==
  LET new == row[3] = 1 /\ s.vs = 0
  IN [vs |-> row[3], f |-> IF new THEN MinI(s.f + 1, 3) ELSE s.f,
      ok |-> row[9] = 1 /\ (new \/ s.ok),
      k |-> IF new THEN 0 ELSE IF row[1] = 1 THEN s.k + 1 ELSE s.k]

----------------------------------------------------------------------------
(* Und.  row = <<pix tick, sys tick, enable, update pulse, ovalid, counter>>.  *)
(* The enable level and the update pulse cross into the pixel domain within    *)
(* Cross ticks of each clock; hyp: <<enable seen, count, shown, update seen>>. *)
Cross == 4
UndInit(hdr) == [hyp |-> {<<0, 0, 0, 1>>}, en |-> 0, e |-> <<0, 0>>, u |-> <<0, 0>>]
Seen(t) == t[1] >= Cross /\ t[2] >= Cross
UndCheck(s, row, hdr) == IF \E h \in s.hyp : h[3] = row[6] THEN "" ELSE "underflow_counter"
UndTick(h, s, row) ==
  LET n(x) == IF x = 0 THEN 0 ELSE IF row[5] = 0 THEN h[2] + 1 ELSE h[2]
      es == IF Seen(s.e) THEN {s.en} ELSE {h[1], s.en}
      us == IF h[4] = 1 THEN {<<h[3], 1>>} ELSE IF Seen(s.u) THEN {<<h[2], 1>>} ELSE {<<h[3], 0>>, <<h[2], 1>>}
  IN {<<x, n(x), y[1], y[2]>> : x \in es, y \in us}
UndStep(s, row, hdr) ==
  LET pix == row[1] = 1
      sys == row[2] = 1
      ok  == {h \in s.hyp : h[3] = row[6]}
      h1  == IF pix THEN UNION {UndTick(h, s, row) : h \in ok} ELSE ok
      inc(t) == <<MinI(t[1] + row[1], 9), MinI(t[2] + row[2], 9)>>
  IN [hyp |-> IF sys /\ row[4] = 1 THEN {<<h[1], h[2], h[3], 0>> : h \in h1} ELSE h1,
      en |-> row[3],
      e |-> IF row[3] # s.en THEN <<0, 0>> ELSE inc(s.e),
      u |-> IF sys /\ row[4] = 1 THEN <<0, 0>> ELSE inc(s.u)]

----------------------------------------------------------------------------
(* UndLong.  row = <<cycles without output between two readings, both taken    *)
(* while there is none, the first reading, the second>>.                       *)
UndLong(row, hdr) == IF row[3] = row[2] + row[1] THEN "" ELSE "underflow_counter"

-----------------------------------------------------------------------------
(* Wire.  hdr: p (parameter set), mode "rgb" | "ycbcr422", phy "hdmi" | "vga", *)
(* inv (per channel), keepbits (VGA), and the memory contents as above.        *)
(* row = <<c0, c1, c2, clock>> (HDMI: symbols in order of transmission, first  *)
(* bit least significant) or <<hsync_n, vsync_n, r, g, b>> in both halves of a    *)
(* pixel and the clock in both halves (VGA).                                   *)
(* Tracking starts with the first vsync.                                       *)
WireInit(hdr) == [pos |-> <<>>, vs |-> -1, k |-> 0, cnt |-> <<0, 0, 0>>]
Sym(row, hdr, i) == IF hdr.inv[i] = 1 THEN 1023 - row[i] ELSE row[i]
\* the pixel shown at the k-th position of the picture
Pixel(hdr, k) ==
  IF hdr.mode = "rgb"
  THEN LET w == Word(hdr, hdr.p[9] + k) IN <<w % 256, (w \div 256) % 256, (w \div 65536) % 256>>
  ELSE LET w  == Word(hdr, hdr.p[9] + k)
           w0 == Word(hdr, hdr.p[9] + (k - (k % 2)))
           w1 == Word(hdr, hdr.p[9] + (k - (k % 2)) + 1)
       IN ToRGB(w % 256, w0 \div 256, w1 \div 256, 8, 8)
VsOf(row, hdr) == IF hdr.phy = "vga" THEN 1 - row[2]
                  ELSE IF IsControl(Sym(row, hdr, 1)) THEN ControlOf(Sym(row, hdr, 1)) \div 2 ELSE 0
\* position of this row: known, or recognised by the start of vsync
PosOf(s, row, hdr) == IF s.pos # <<>> THEN s.pos
                      ELSE IF s.vs = 0 /\ VsOf(row, hdr) = 1 THEN <<0, hdr.p[6]>> ELSE <<>>
Chan(s, row, hdr, i, v) == Encode(v, s.cnt[i])
WireCheck(s, row, hdr) ==
  LET x == PosOf(s, row, hdr)
      g == Sig(hdr.p, x)
      px == Pixel(hdr, s.k)
  IN IF x = <<>> THEN ""
     ELSE IF hdr.phy = "vga"
     THEN IF row[11] = row[12] THEN "pixel_clock"
          ELSE IF \E i \in 1..5 : row[i] # row[5 + i] THEN "changes_within_pixel"
          ELSE IF 1 - row[1] # g[2] THEN "hsync" ELSE IF 1 - row[2] # g[3] THEN "vsync"
          ELSE IF g[1] = 0 THEN (IF <<row[3], row[4], row[5]>> = <<0, 0, 0>> THEN "" ELSE "not_black_in_blanking")
          ELSE IF \E i \in 1..3 : row[2 + i] # px[i] \div Pow2[8 - hdr.keepbits[i]] THEN "pixel" ELSE ""
     ELSE IF \E i \in 1..4 : row[i] + row[4 + i] # 1023 THEN "differential_pair"
     ELSE IF Sym(row, hdr, 4) # 31 THEN "clock"
     ELSE IF g[1] = 0
     THEN IF \E i \in 1..3 : ~IsControl(Sym(row, hdr, i)) THEN "control_expected"
          ELSE IF ControlOf(Sym(row, hdr, 1)) # g[2] + 2 * g[3] THEN "syncs"
          ELSE IF ControlOf(Sym(row, hdr, 2)) # 0 \/ ControlOf(Sym(row, hdr, 3)) # 0 THEN "control_bits" ELSE ""
     ELSE IF \E i \in 1..3 : IsControl(Sym(row, hdr, i)) THEN "data_expected"
     ELSE IF \E i \in 1..3 : DecodeData(Sym(row, hdr, i)) # px[4 - i] THEN "pixel"
     ELSE IF \E i \in 1..3 : Sym(row, hdr, i) # Encode(px[4 - i], s.cnt[i])[1] THEN "dc_balance" ELSE ""
WireStep(s, row, hdr) ==
  LET x == PosOf(s, row, hdr)
      act == x # <<>> /\ De(hdr.p, x)
      n == NextPos(hdr.p, x)
      px == Pixel(hdr, s.k)
  IN [pos |-> IF x = <<>> THEN <<>> ELSE n,
      vs  |-> VsOf(row, hdr),
      k   |-> IF x = <<>> THEN 0 ELSE IF n = <<0, 0>> THEN 0 ELSE IF act THEN s.k + 1 ELSE s.k,
      cnt |-> IF act THEN [i \in 1..3 |-> Encode(px[4 - i], s.cnt[i])[2]] ELSE <<0, 0, 0>>]
\* a trace that never got to show a frame proves nothing
WireFinal(s, hdr) == IF s.pos = <<>> THEN "no_vsync" ELSE ""

(* raw mode: the words of the frame go out unchanged, one per tick, for ever   *)
RawInit(hdr) == [k |-> -1]
RawWord(hdr, k) == LET a == hdr.p[9] + k IN <<Word(hdr, a) % 1024, (Word(hdr, a) \div 1024) % 1024, a % 1024>>
RawSyms(row, hdr) == [i \in 1..3 |-> Sym(row, hdr, i)]
RawCheck(s, row, hdr) == IF Sym(row, hdr, 4) # 31 /\ s.k >= 0 THEN "clock"
                         ELSE IF s.k < 0 \/ RawSyms(row, hdr) = RawWord(hdr, s.k) THEN "" ELSE "raw_symbols"
RawStep(s, row, hdr) == [k |-> IF s.k >= 0 THEN (s.k + 1) % hdr.p[10]
                               ELSE IF RawSyms(row, hdr) = RawWord(hdr, 0) THEN 1 ELSE -1]
RawFinal(s, hdr) == IF s.k < 0 THEN "no_frame" ELSE ""

----------------------------------------------------------------------------
(* Pat: test patterns.  hdr: kind "bars" | "lines" | "dots", hres;             *)
(* row = <<valid, ready, ovalid, r, g, b>>.  k: pixels taken so far.           *)
Bars == <<<<255, 255, 255>>, <<255, 255, 0>>, <<0, 255, 255>>, <<0, 255, 0>>,
          <<255, 0, 255>>, <<255, 0, 0>>, <<0, 0, 255>>, <<0, 0, 0>>>>
White == Bars[1]
Black == Bars[8]
PatColor(hdr, k) ==
  CASE hdr.kind = "bars"  -> Bars[((k % hdr.hres) \div (hdr.hres \div 8)) + 1]
    [] hdr.kind = "lines" -> IF k % 2 = 1 THEN White ELSE Black
    [] hdr.kind = "dots"  -> IF ((k % hdr.hres) + (k \div hdr.hres)) % 2 = 1 THEN White ELSE Black
PatInit(hdr) == [k |-> 0, on |-> 0]
PatCheck(s, row, hdr) ==
  IF row[3] = 0 THEN (IF s.on >= 2 THEN "output_missing" ELSE "")
  ELSE IF s.on = 0 THEN "output_before_parameters"
  ELSE IF PatColor(hdr, s.k) # <<row[4], row[5], row[6]>> THEN "pattern" ELSE ""
PatStep(s, row, hdr) == [k |-> s.k + row[3] * row[2], on |-> MinI(s.on + row[1], 2)]

----------------------------------------------------------------------------
(* Dcm: programming the Spartan-6 clock generator.  row = <<cmd register, send, *)
(*   go, progdone, locked, lock, progdata, progen, status>>                    *)
(* A command goes out least significant bit first, one bit per clock, with     *)
(* progen; go is a single progen clock; busy covers a command and the gap      *)
(* after it.                                                                   *)
CmdBits == 10
CmdBusy == 13
DcmInit(hdr) == [n |-> 0, v |-> 0, busy |-> 0, lock |-> <<0, 0, 0, 0>>]
DcmCheck(s, row, hdr) ==
  IF row[7] # (IF s.n > 0 THEN s.v % 2 ELSE 0) THEN "progdata"
  ELSE IF row[8] # B(s.n > 0 \/ row[3] = 1) THEN "progen"
  ELSE IF row[9] % 2 # B(s.busy > 0) THEN "busy"
  ELSE IF (row[9] \div 2) % 2 # row[4] THEN "progdone_status"
  ELSE IF (row[9] \div 4) % 2 # row[5] THEN "locked_status"
  ELSE IF (\A i \in 1..4 : s.lock[i] = s.lock[1]) /\ row[9] \div 8 # s.lock[1] THEN "mult_locked_status" ELSE ""
DcmStep(s, row, hdr) ==
  [n    |-> IF row[2] = 1 THEN CmdBits ELSE MaxI(s.n - 1, 0),
   v    |-> IF row[2] = 1 THEN row[1] ELSE s.v \div 2,
   busy |-> IF row[2] = 1 THEN CmdBusy ELSE MaxI(s.busy - 1, 0),
   lock |-> LastN(Append(s.lock, row[6]), 4)]

(* Drp: reconfiguration port of a PLL.  row = <<adr, dat_w, reset, read, write, *)
(*   DRDY, DO, locked>> \o <<DEN, DWE, DADDR, DI, RST, drdy, dat_r>>            *)
DrpInit(hdr) == [drdy |-> 0]
DrpCheck(s, row, hdr) ==
  IF row[9] # B(row[4] = 1 \/ row[5] = 1) THEN "den"
  ELSE IF row[10] # row[5] THEN "dwe"
  ELSE IF row[9] = 1 /\ row[11] # row[1] THEN "daddr"
  ELSE IF row[10] = 1 /\ row[12] # row[2] THEN "di"
  ELSE IF row[13] # B(row[3] = 1 \/ (hdr.chained /\ row[8] = 0)) THEN "reset"
  ELSE IF row[14] # s.drdy THEN "drdy"
  ELSE IF row[15] # row[7] THEN "dat_r" ELSE ""
DrpStep(s, row, hdr) ==
  [drdy |-> IF row[4] = 1 \/ row[5] = 1 THEN 0 ELSE IF row[6] = 1 THEN 1 ELSE s.drdy]
=============================================================================
