---------------------------- MODULE DataCapture -----------------------------
(* The pad side of the receiver, one operator family per function:             *)
(*   Des   deserialisation: received bits become 10-bit words, in order        *)
(*   Ctl   software's delay commands become pulses on the delay lines          *)
(*   Bsy   busy status of the delay lines (Spartan-6)                          *)
(*   Lat   phase error accumulator and its register                            *)
(*   Cnt   delay value read back                                               *)
(*   Lck   lock status and resets of the recovered clocks                      *)
(* and, as functions of one row, Wires* (connections of the vendor primitives) *)
(* and Clocks (which clock goes where, at which rate).                         *)
EXTENDS Bits, FiniteSets

NoFinal(s, hdr) == ""
B(x) == IF x THEN 1 ELSE 0

----------------------------------------------------------------------------
(* Des.  hdr.iw bits per group, hdr.inv, hdr.settle words after reset.         *)
(* row = <<input tick, output tick, group, word, reset>>: the group as the     *)
(* deserialiser holds it, oldest bit least significant, and the word on the    *)
(* output, both before the tick.  cand: how many bits may separate the start   *)
(* of the next word from the end of what was received.                         *)
Keep == 160
DesInit(hdr) == [buf |-> <<>>, cand |-> {}, n |-> 0]
BitsOf(w, n) == [i \in 1..n |-> Bit(w, i - 1)]
Fits(buf, off, bits) == /\ off >= 10 /\ off <= Len(buf)
                        /\ \A i \in 1..10 : buf[Len(buf) - off + i] = bits[i]
DesCands(s, row, hdr) ==
  LET bits == BitsOf(IF hdr.inv = 1 THEN 1023 - row[4] ELSE row[4], 10)
  IN IF s.n = hdr.settle THEN {o \in 10..Len(s.buf) : Fits(s.buf, o, bits)}
     ELSE {o \in s.cand : Fits(s.buf, o, bits)}
DesCheck(s, row, hdr) ==
  IF row[2] = 0 \/ row[5] = 1 \/ s.n < hdr.settle THEN ""
  ELSE IF DesCands(s, row, hdr) = {} THEN (IF s.n = hdr.settle THEN "bits_not_received" ELSE "bits_out_of_order") ELSE ""
DesStep(s, row, hdr) ==
  LET out == row[2] = 1
      c1  == IF row[5] = 1 THEN {}
             ELSE IF out /\ s.n >= hdr.settle THEN {o - 10 : o \in DesCands(s, row, hdr)} ELSE s.cand
  IN [n    |-> IF row[5] = 1 THEN 0 ELSE IF out THEN MinI(s.n + 1, hdr.settle + 1) ELSE s.n,
      buf  |-> IF row[1] = 1 THEN LastN(s.buf \o BitsOf(row[3], hdr.iw), Keep) ELSE s.buf,
      cand |-> IF row[1] = 1 THEN {o + hdr.iw : o \in c1} ELSE c1]

----------------------------------------------------------------------------
(* Ctl.  hdr.family 6 or 7; row = <<sys tick, delay clock tick, command>> \o   *)
(* pulse ports \o <<INC master, INC slave>>.                                   *)
(* Command bits: 7: reset, master +, master -, slave +, slave -;               *)
(*               6: master calibrate, reset, slave calibrate, reset, +, -.     *)
(* Pulse ports:  7: LD master, LD slave, CE master, CE slave;                  *)
(*               6: CAL master, RST master, CAL slave, RST slave, CE, CE.      *)
\* for each pulse port the bits that cause a pulse, and those that count up
CtlBits(f) == IF f = 7 THEN <<{0}, {0}, {1, 2}, {3, 4}>> ELSE <<{0}, {1}, {2}, {3}, {4, 5}, {4, 5}>>
CtlUp(f)   == IF f = 7 THEN {1, 3} ELSE {4}
CtlCross == 4             \* delay clock ticks a command takes at most
CtlInit(hdr) == [pend |-> [p \in 1..Len(CtlBits(hdr.family)) |-> <<>>]]
\* the port that carries the direction of pulse port p, 0: none
CtlDir(f, p) == LET n == Len(CtlBits(f)) IN IF p = n - 1 THEN 3 + n + 1 ELSE IF p = n THEN 3 + n + 2 ELSE 0
CtlCheck(s, row, hdr) ==
  LET f == hdr.family
      P == 1..Len(CtlBits(f))
      wrong(p) == CtlDir(f, p) # 0 /\ row[CtlDir(f, p)] # B(s.pend[p][1][1] \in CtlUp(f))
  IN IF row[2] = 0 THEN ""
     ELSE IF \E p \in P : row[3 + p] = 1 /\ s.pend[p] = <<>> THEN "pulse_without_command"
     ELSE IF \E p \in P : row[3 + p] = 0 /\ s.pend[p] # <<>> /\ s.pend[p][1][2] >= CtlCross THEN "command_lost"
     ELSE IF \E p \in P : row[3 + p] = 1 /\ wrong(p) THEN "delay_direction" ELSE ""
CtlStep(s, row, hdr) ==
  LET B4 == CtlBits(hdr.family)
      aged(q) == [i \in 1..Len(q) |-> <<q[i][1], MinI(q[i][2] + 1, 100)>>]
      new(p) == IF row[1] = 1 /\ \E b \in B4[p] : Bit(row[3], b) = 1
                THEN <<<<CHOOSE b \in B4[p] : Bit(row[3], b) = 1, 0>>>> ELSE <<>>
  IN [pend |-> [p \in 1..Len(B4) |-> (IF row[2] = 0 THEN s.pend[p]
                                      ELSE aged(IF row[3 + p] = 1 THEN Tail(s.pend[p]) ELSE s.pend[p])) \o new(p)]]

----------------------------------------------------------------------------
(* Bsy.  row = <<sys tick, delay clock tick, command, pulse, BUSY, status>>    *)
(* for the master (hdr.bits = {0, 4, 5}) or the slave ({2, 4, 5}).             *)
(* ph: "idle", "commanded", "started", "finished".                             *)
BsyCross == 12
BsyInit(hdr) == [ph |-> "idle", age |-> <<0, 0>>]
BsyCheck(s, row, hdr) ==
  IF row[1] = 0 THEN ""
  ELSE IF s.ph = "idle" /\ row[6] = 1 THEN "busy_without_command"
  ELSE IF s.ph \in {"commanded", "started"} /\ row[6] = 0 THEN "busy_cleared_early"
  ELSE IF s.ph = "finished" /\ row[6] = 1 /\ s.age[1] >= BsyCross /\ s.age[2] >= BsyCross THEN "busy_stuck" ELSE ""
BsyStep(s, row, hdr) ==
  LET cmd == row[1] = 1 /\ \E i \in 1..Len(hdr.bits) : Bit(row[3], hdr.bits[i]) = 1
      ph1 == IF s.ph = "finished" /\ row[1] = 1 /\ row[6] = 0 THEN "idle" ELSE s.ph
      ph2 == IF row[2] = 0 THEN ph1
             ELSE IF ph1 = "commanded" /\ row[4] = 1 THEN "started"
             ELSE IF ph1 = "started" /\ row[5] = 0 THEN "finished" ELSE ph1
  IN [ph |-> IF cmd THEN "commanded" ELSE ph2,
      age |-> IF ph2 = "finished" /\ s.ph # "finished" THEN <<0, 0>>
              ELSE <<MinI(s.age[1] + row[1], 100), MinI(s.age[2] + row[2], 100)>>]

----------------------------------------------------------------------------
(* Lat.  row = <<sys tick, delay clock tick, reset command, a, b, c, d,        *)
(*   status>>; family 7: a, b the groups of the master and the slave           *)
(*   deserialiser; family 6: VALID, INCDEC, BUSY master, BUSY slave.           *)
(* hyp: <<lateness, age of a reset command on its way or -1>>.                 *)
LatMid(hdr) == Pow2[hdr.nbits - 1]
LatMax(hdr) == Pow2[hdr.nbits] - 1
LatCross == 4
LatInit(hdr) == [hyp |-> {<<LatMid(hdr), -1>>}, prev |-> 0, seen |-> [i \in 1..3 |-> {0}]]
LatStatus(l, hdr) == IF l = LatMax(hdr) THEN 1 ELSE IF l = 0 THEN 2 ELSE 0
LatCheck(s, row, hdr) == IF row[8] \in UNION {s.seen[i] : i \in 1..3} THEN "" ELSE "phase_status"
Group(w, hdr, inv) == IF inv THEN 255 - w ELSE w
LatDelta(s, row, hdr) ==
  IF hdr.family = 7
  THEN LET m == Group(row[4], hdr, hdr.inv = 1)
           q == Group(row[5], hdr, hdr.inv = 0)
       IN IF m = s.prev THEN 0 ELSE IF m = q THEN -1 ELSE 1
  ELSE IF row[6] = 1 \/ row[7] = 1 \/ row[4] = 0 THEN 0 ELSE IF row[5] = 1 THEN -1 ELSE 1
LatTick(h, s, row, hdr) ==
  LET move == IF h[1] = 0 \/ h[1] = LatMax(hdr) THEN h[1] ELSE h[1] + LatDelta(s, row, hdr)
      go   == {<<move, IF h[2] < 0 THEN -1 ELSE h[2] + 1>>}
      zero == {<<LatMid(hdr), -1>>}
  IN IF h[2] < 0 THEN go ELSE IF h[2] >= LatCross THEN zero ELSE go \union zero
LatStep(s, row, hdr) ==
  LET fast == row[2] = 1
      sys  == row[1] = 1
      h1   == IF fast THEN UNION {LatTick(h, s, row, hdr) : h \in s.hyp} ELSE s.hyp
  IN [hyp  |-> IF sys /\ row[3] = 1 THEN {<<h[1], 0>> : h \in h1} ELSE h1,
      prev |-> IF fast /\ hdr.family = 7 THEN Group(row[4], hdr, hdr.inv = 1) ELSE s.prev,
      seen |-> IF sys THEN <<{LatStatus(h[1], hdr) : h \in s.hyp}, s.seen[1], s.seen[2]>> ELSE s.seen]

----------------------------------------------------------------------------
(* Cnt.  row = <<sys tick, delay clock tick, value, register>>: the register   *)
(* shows, whole, a value the delay line had not long ago.                      *)
CntCross == 24
CntInit(hdr) == [past |-> {<<0, 0, 0>>}, now |-> 0]
CntCheck(s, row, hdr) ==
  IF row[4] = row[3] \/ row[4] = s.now \/ \E x \in s.past : x[1] = row[4] THEN "" ELSE "delay_value"
CntStep(s, row, hdr) ==
  LET aged == {<<x[1], MinI(x[2] + row[1], 100), MinI(x[3] + row[2], 100)>> : x \in s.past}
      live == {x \in aged : x[2] < CntCross \/ x[3] < CntCross}
  IN [past |-> IF row[3] # s.now THEN live \union {<<s.now, 0, 0>>} ELSE live, now |-> row[3]]

----------------------------------------------------------------------------
(* Lck.  row = <<LOCKED, status, resets>>, one row per system clock;           *)
(* hdr.slack rows cover a few periods of every generated clock.  Resets are    *)
(* asserted while there is no lock, and released after.                        *)
LckInit(hdr) == [k |-> 0, l |-> <<0, 0, 0>>]
LckCheck(s, row, hdr) ==
  IF hdr.status /\ ~(\E i \in 1..3 : s.l[i] = row[2]) THEN "locked_status"
  ELSE IF row[1] = 0 /\ \E i \in 1..Len(row[3]) : row[3][i] = 0 THEN "no_reset_without_lock"
  ELSE IF row[1] = 1 /\ s.k > hdr.slack /\ \E i \in 1..Len(row[3]) : row[3][i] = 1 THEN "reset_despite_lock" ELSE ""
LckStep(s, row, hdr) ==
  [k |-> IF row[1] = 1 THEN MinI(s.k + 1, 1000) ELSE 0, l |-> <<row[1], s.l[1], s.l[2]>>]

----------------------------------------------------------------------------
(* Connections of the vendor primitives; row: record of port values.           *)
\* the two delay lines and deserialisers of one data channel, 7 series
Wires7(r, hdr) ==
  IF r.pad_p # r.IB_I \/ r.pad_n # r.IB_IB THEN "pad"
  ELSE IF r.m_IDATAIN # r.IB_O \/ r.s_IDATAIN # r.IB_OB THEN "delay_input"
  ELSE IF r.m_DDLY # r.m_DATAOUT \/ r.s_DDLY # r.s_DATAOUT THEN "delay_output"
  ELSE IF r.m_CLK # r.pix5x \/ r.s_CLK # r.pix5x \/ r.m_CLKB # 1 - r.pix5x \/ r.s_CLKB # 1 - r.pix5x THEN "bit_clock"
  ELSE IF r.m_CLKDIV # r.pix1p25x \/ r.s_CLKDIV # r.pix1p25x \/ r.m_C # r.pix1p25x \/ r.s_C # r.pix1p25x THEN "group_clock"
  ELSE IF r.m_RST # r.rst \/ r.s_RST # r.rst THEN "deserialiser_reset"
  ELSE IF <<r.m_CE1, r.s_CE1, r.m_BITSLIP, r.s_BITSLIP, r.m_LDPIPEEN, r.s_LDPIPEEN>> # <<1, 1, 0, 0, 0, 0>> THEN "enables" ELSE ""
Mode7(r, hdr) == IF r.width # 8 \/ r.rate # "DDR" THEN "group_size" ELSE IF r.delay # "VARIABLE" THEN "delay_mode" ELSE ""
Wires6(r, hdr) ==
  IF r.pad_p # r.IB_I \/ r.pad_n # r.IB_IB THEN "pad"
  ELSE IF r.m_IDATAIN # r.IB_O \/ r.s_IDATAIN # r.IB_O THEN "delay_input"
  ELSE IF r.m_D # r.m_DATAOUT \/ r.s_D # r.s_DATAOUT THEN "delay_output"
  ELSE IF r.m_SHIFTIN # r.s_SHIFTOUT \/ r.s_SHIFTIN # r.m_SHIFTOUT THEN "cascade"
  ELSE IF r.m_CLK0 # r.pix10x \/ r.s_CLK0 # r.pix10x \/ r.m_IOCLK0 # r.pix10x \/ r.s_IOCLK0 # r.pix10x THEN "bit_clock"
  ELSE IF r.m_CLKDIV # r.pix2x \/ r.s_CLKDIV # r.pix2x \/ r.m_CLK # r.pix2x \/ r.s_CLK # r.pix2x THEN "group_clock"
  ELSE IF r.m_IOCE # r.strobe \/ r.s_IOCE # r.strobe THEN "strobe"
  ELSE IF <<r.m_CE0, r.s_CE0, r.m_BITSLIP, r.s_BITSLIP, r.m_RST, r.s_RST, r.m_T, r.s_T>> # <<1, 1, 0, 0, 0, 0, 1, 1>> THEN "enables" ELSE ""
Mode6(r, hdr) == IF r.width # 5 \/ r.rate # "SDR" THEN "group_size" ELSE IF r.delay # "DIFF_PHASE_DETECTOR" THEN "delay_mode" ELSE ""

\* Clocks.  Values of many moments at once: row.dom[d] the clock of domain d, row.out[j] output j of the clock generator,
\* row.same pairs that have to be equal (input clock, feedback and the like).
\* hdr.rate[j]: rate of output j against the input, hdr.want[d]: rate of domain d, in the same unit when hdr.abs,
\* otherwise only the proportions count.
ClockSrc(row, d) == {j \in 1..Len(row.out) : row.out[j] = row.dom[d]}
Clocks(row, hdr) ==
  IF \E i \in 1..Len(row.same) : row.same[i][1] # row.same[i][2] THEN "clock_connection"
  ELSE IF \E d \in 1..Len(row.dom) : ClockSrc(row, d) = {} THEN "clock_source"
  ELSE IF \E d \in 1..Len(row.dom) : \A i \in ClockSrc(row, 1) : \A j \in ClockSrc(row, d) :
            hdr.rate[j] * hdr.want[1] # hdr.rate[i] * hdr.want[d] THEN "clock_proportion"
  ELSE IF hdr.abs /\ \A i \in ClockSrc(row, 1) : hdr.rate[i] # hdr.want[1] THEN "clock_rate" ELSE ""
=============================================================================
