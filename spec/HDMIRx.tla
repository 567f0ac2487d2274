------------------------------- MODULE HDMIRx -------------------------------
(* The symbol side of an HDMI/DVI receiver, one operator family per block:     *)
(*   Dec   TMDS symbol decoder                                                 *)
(*   Chr   character synchroniser (finds the 10-bit word boundary)             *)
(*   Chn   channel synchroniser (removes the skew between the channels)        *)
(*   T4    HDMI period decoder (preambles, guard bands, data islands, video)   *)
(*   Wer   word error rate counter                                             *)
EXTENDS TMDS, SequencesExt, FiniteSets

\* first position of the TMDS tables as sets
B(x) == IF x THEN 1 ELSE 0
Tokens == {ControlToken[i] : i \in 1..4}
TokIdx == [s \in 0..1023 |-> IF s \in Tokens THEN ControlOf(s) ELSE 4]
DecTab == [s \in 0..1023 |-> DecodeData(s)]

----------------------------------------------------------------------------
(* Dec.  row = <<valid_i, symbol, valid_o, de, c, d, raw>>: outputs describe   *)
(* the previous symbol                                                         *)
DecInit(hdr) == [p |-> <<>>]
DecCheck(s, row, hdr) ==
  IF s.p = <<>> THEN ""
  ELSE LET sym == s.p[2]
           k   == TokIdx[sym]
       IN IF row[3] # s.p[1] THEN "valid_not_forwarded"
          ELSE IF row[7] # sym THEN "raw_not_forwarded"
          ELSE IF row[4] # (IF k < 4 THEN 0 ELSE 1) THEN "data_enable"
          ELSE IF k < 4 /\ row[5] # k THEN "control_code"
          ELSE IF k = 4 /\ row[6] # DecTab[sym] THEN "data_value" ELSE ""
DecStep(s, row, hdr) == [p |-> <<row[1], row[2]>>]

\* encoder followed by decoder, aligned rows <<d, c, de, de_out, c_out, d_out>>
LopInit(hdr) == [k |-> 0]
LopCheck(s, row, hdr) ==
  IF row[4] # row[3] THEN "data_enable"
  ELSE IF row[3] = 0 /\ row[5] # row[2] THEN "control_code"
  ELSE IF row[3] = 1 /\ row[6] # row[1] THEN "data_value" ELSE ""
LopStep(s, row, hdr) == [k |-> s.k + 1]

----------------------------------------------------------------------------
(* Chr.  row = <<raw, synced, data>>; hdr.req = consecutive controls required; *)
(* hdr.reg = 1: the row goes on with the status registers <<synced, position>>,*)
(* which follow within RegLag clocks.                                          *)
RegLag == 6
ChrInit(hdr) == [prev |-> 0, pos |-> -1, at |-> 0, last |-> 0, n |-> 0, synced |-> 0, sel |-> 0,
                 data |-> 0, fresh |-> TRUE, h |-> <<<<0, 0>>>>]
Window(prev, raw) == prev + 1024 * raw
Hits(w) == {i \in 0..9 : ((w \div Pow2[i]) % 1024) \in Tokens}
\* a control character found in one window is acted upon one cycle later
ChrCheck(s, row, hdr) ==
  IF row[2] # s.synced THEN "synced"
  ELSE IF ~s.fresh /\ row[3] # s.data THEN "word_alignment"
  ELSE IF hdr.reg = 1 /\ ~(\E i \in 1..Len(s.h) : s.h[i][1] = row[4]) THEN "synced_register"
  ELSE IF hdr.reg = 1 /\ ~(\E i \in 1..Len(s.h) : s.h[i][2] = row[5]) THEN "position_register" ELSE ""
ChrStep(s, row, hdr) ==
  LET w == Window(s.prev, row[1])
      h == Hits(w)
      hit == h # {}
      newat == IF hit THEN CHOOSE i \in h : \A j \in h : j <= i ELSE s.at
      run == s.pos = 1 /\ s.at = s.last
      lock == run /\ s.n = hdr.req - 1
  IN [prev |-> row[1], pos |-> IF hit THEN 1 ELSE 0, at |-> newat, last |-> s.at,
      n |-> IF run /\ ~lock THEN s.n + 1 ELSE 0,
      synced |-> IF lock THEN 1 ELSE s.synced,
      sel |-> IF lock THEN s.at ELSE s.sel,
      data |-> (w \div Pow2[s.sel]) % 1024, fresh |-> FALSE,
      h |-> IF hdr.reg = 1 THEN LastN(Append(s.h, <<s.synced, s.sel>>), RegLag) ELSE s.h]

(* the guarantee the block exists for: on a stream of known characters cut at  *)
(* an unknown phase, once synced the words are the transmitted characters.     *)
(* row = <<raw, synced, data, char>> with char the transmitted character whose *)
(* last bit entered with the raw word of hdr.lag rows before                   *)
ChrAInit(hdr) == [k |-> 0, was |-> 0]
ChrACheck(s, row, hdr) ==
  IF s.was = 1 /\ row[2] = 0 THEN "lost_sync"
  ELSE IF s.k >= hdr.settle /\ row[2] # 1 THEN "never_synced"
  ELSE IF s.was = 1 /\ row[3] # row[4] THEN "wrong_character" ELSE ""
ChrAStep(s, row, hdr) == [k |-> s.k + 1, was |-> row[2]]

----------------------------------------------------------------------------
(* Chn.  hdr.n channels, hdr.depth buffer words.                               *)
(* row = <<valid, din_1..n, dout_1..n, synced>>; a word is                     *)
(* raw + 2^10 data + 2^18 control + 2^20 data enable; hdr.reg = 1: the row     *)
(* goes on with the status register                                            *)
IsData(w) == w \div 1048576 = 1
ChnInit(hdr) == [mem |-> [i \in 1..hdr.n |-> [a \in 1..hdr.depth |-> 0]],
                 prod |-> 0, cons |-> [i \in 1..hdr.n |-> 0], synced |-> 0, h |-> <<0>>]
ChnOut(s, hdr) == [i \in 1..hdr.n |-> s.mem[i][s.cons[i] + 1]]
ChnCheck(s, row, hdr) ==
  LET o == ChnOut(s, hdr)
  IN IF \E i \in 1..hdr.n : row[1 + hdr.n + i] # o[i] THEN "channel_data"
     ELSE IF row[2 + 2 * hdr.n] # s.synced THEN "channels_synced"
     ELSE IF hdr.reg = 1 /\ ~(\E i \in 1..Len(s.h) : s.h[i] = row[3 + 2 * hdr.n]) THEN "synced_register" ELSE ""
ChnStep(s, row, hdr) ==
  LET o    == ChnOut(s, hdr)
      ctl  == {i \in 1..hdr.n : ~IsData(o[i])}
      all  == ctl = 1..hdr.n
      some == ctl # {}
  IN [mem  |-> [i \in 1..hdr.n |-> [s.mem[i] EXCEPT ![s.prod + 1] = row[1 + i]]],
      prod |-> (s.prod + 1) % hdr.depth,
      cons |-> [i \in 1..hdr.n |-> IF i \notin ctl \/ all THEN (s.cons[i] + 1) % hdr.depth ELSE s.cons[i]],
      synced |-> IF row[1] = 0 THEN 0 ELSE IF some THEN (IF all THEN 1 ELSE 0) ELSE s.synced,
      h |-> IF hdr.reg = 1 THEN LastN(Append(s.h, s.synced), RegLag) ELSE s.h]

(* ChA: alignment guarantee.  The channels carry the same sequence of lines    *)
(* with skews below the buffer depth; word 20 low bits carry a sequence number *)
(* common to the channels.  row as above.  From hdr.settle on, channels are    *)
(* synchronised and show the same sequence number.                             *)
ChAInit(hdr) == [k |-> 0]
ChACheck(s, row, hdr) ==
  IF s.k < hdr.settle THEN ""
  ELSE IF row[2 + 2 * hdr.n] # 1 THEN "not_synchronised"
  ELSE IF \E i \in 2..hdr.n : row[1 + hdr.n + i] # row[2 + hdr.n] THEN "channels_skewed" ELSE ""
ChAStep(s, row, hdr) == [k |-> s.k + 1]

----------------------------------------------------------------------------
(* T4.  HDMI 1.3 link periods.  row = <<valid, sym0, sym1, sym2, de0, dvi,     *)
(*      de_o, encoding_terc4, encrypting_video, encrypting_data, ctl_code>>    *)
DataGB  == 307                       \* 0100110011
VideoGB == <<716, 307, 716>>         \* 1011001100, 0100110011, 1011001100
NoSym   == [c |-> 0, dgb |-> FALSE, vgb |-> FALSE, cv |-> FALSE]
\* ch in 1..3; c0: control code remembered across data symbols
SymOf(valid, sym, ch, c0) ==
  IF valid = 0 THEN NoSym
  ELSE IF TokIdx[sym] < 4 THEN [c |-> TokIdx[sym], dgb |-> FALSE, vgb |-> FALSE, cv |-> TRUE]
  ELSE IF ch = 2
       THEN IF sym = DataGB \/ sym = VideoGB[2] THEN [c |-> 0, dgb |-> TRUE, vgb |-> TRUE, cv |-> FALSE]
            ELSE [c |-> c0, dgb |-> FALSE, vgb |-> FALSE, cv |-> FALSE]
       ELSE IF sym = DataGB THEN [c |-> 0, dgb |-> TRUE, vgb |-> FALSE, cv |-> FALSE]
            ELSE IF sym = VideoGB[ch] THEN [c |-> 0, dgb |-> FALSE, vgb |-> TRUE, cv |-> FALSE]
            ELSE [c |-> c0, dgb |-> FALSE, vgb |-> FALSE, cv |-> FALSE]

\* ch: the decoded symbols of the previous cycle, per: link period, dvi: recent settings of the mode register,
\* which crosses into the pixel clock
DviCross == 6
T4Init(hdr) == [ch |-> <<NoSym, NoSym, NoSym>>, per |-> "INIT", de |-> <<0, 0>>, dvi |-> [i \in 1..DviCross |-> hdr.dvi]]
AllVGB(ch)  == ch[1].vgb /\ ch[2].vgb /\ ch[3].vgb
AnyCtl(ch)  == ch[1].cv \/ ch[2].cv \/ ch[3].cv
IslandGB(ch) == ch[2].dgb /\ ch[3].dgb
CtlCode(ch) == ch[2].c + 4 * ch[3].c
NextPeriod(per, ch) ==
  CASE per = "INIT" -> IF AllVGB(ch) THEN "GOING_VID" ELSE IF CtlCode(ch) = 5 THEN "PREAM_T4"
                       ELSE IF CtlCode(ch) = 1 THEN "PREAM_VID" ELSE "INIT"
    [] per = "PREAM_T4" -> IF AllVGB(ch) THEN "GOING_VID" ELSE IF IslandGB(ch) THEN "GOING_T4"
                           ELSE IF CtlCode(ch) = 5 THEN "PREAM_T4" ELSE "INIT"
    [] per = "GOING_T4" -> IF IslandGB(ch) THEN "GOING_T4" ELSE "TERC4"
    [] per = "TERC4" -> IF AnyCtl(ch) THEN "INIT" ELSE IF AllVGB(ch) THEN "GOING_VID"
                        ELSE IF IslandGB(ch) THEN "LEAVE_T4" ELSE "TERC4"
    [] per = "LEAVE_T4" -> IF IslandGB(ch) THEN "LEAVE_T4" ELSE "INIT"
    [] per = "PREAM_VID" -> IF CtlCode(ch) = 1 THEN "PREAM_VID" ELSE IF AllVGB(ch) THEN "GOING_VID" ELSE "INIT"
    \* the guard band has two characters; the first pixel may look like them
    [] per = "GOING_VID" -> IF AllVGB(ch) THEN "FIRST_VID" ELSE "VIDEO"
    [] per = "FIRST_VID" -> "VIDEO"
    [] per = "VIDEO" -> IF AnyCtl(ch) THEN "INIT" ELSE "VIDEO"
T4Check(s, row, hdr) ==
  LET dehdmi == B(s.per = "VIDEO")
      dvi == {s.dvi[i] : i \in 1..DviCross} \cup {row[6]}
  IN IF ~(\E d \in dvi : row[7] = (IF d = 1 THEN s.de[1] ELSE dehdmi)) THEN "data_enable"
     ELSE IF row[8] # B(s.per \in {"GOING_T4", "TERC4", "LEAVE_T4"}) THEN "data_island"
     ELSE IF row[9] # dehdmi THEN "encrypting_video"
     ELSE IF row[10] # B(s.per = "TERC4") THEN "encrypting_data" ELSE ""
T4Step(s, row, hdr) ==
  [ch |-> [i \in 1..3 |-> SymOf(row[1], row[1 + i], i, s.ch[i].c)],
   per |-> NextPeriod(s.per, s.ch), de |-> <<s.de[2], row[5]>>,
   dvi |-> Append(Tail(s.dvi), row[6])]

(* T4P: what the periods are for.  row = <<kind, de, island, video, body>>     *)
(* kind of the character two clocks before: 0 control, 1 video, 2/4 island     *)
(* guard band, 3 island body, 5 video guard band                               *)
T4PInit(hdr) == [k |-> 0]
T4PCheck(s, row, hdr) ==
  IF row[2] # B(row[1] = 1) THEN "data_enable"
  ELSE IF row[3] # B(row[1] \in {2, 3, 4}) THEN "data_island"
  ELSE IF row[4] # B(row[1] = 1) THEN "encrypting_video"
  ELSE IF row[5] # B(row[1] = 3) THEN "encrypting_data" ELSE ""
T4PStep(s, row, hdr) == [k |-> s.k + 1]

\* the 16 TERC4 characters in order of value (HDMI 1.3, table 5-5)
TERC4 == <<668, 611, 740, 738, 369, 286, 398, 316, 716, 313, 412, 710, 654, 625, 355, 707>>
\* row = <<sym0, sym1, sym2, value0, value1, value2>>
Nibble(row, hdr) == IF \E i \in 1..3 : TERC4[row[3 + i] + 1] # row[i] THEN "terc4_value" ELSE ""

----------------------------------------------------------------------------
(* Wer.  row = <<pix, sys, data, update, value>>: which clocks tick, the word,  *)
(* the software trigger and the value register before the tick.                *)
(* hdr.period words per measurement, hdr.lag pixel ticks from word to count,   *)
(* hdr.hand system ticks to hand a result over.                                *)
Wrong(w) == TransR(w % 512, 8) > 4 /\ ~(\E i \in 1..4 : ControlToken[i] % 512 = w % 512)
WrongTab == [w \in 0..1023 |-> B(Wrong(w))]
\* res: results still possible to be read, oldest first:
\* <<count, pixel ticks since (at most 2), then system ticks since>>
WerInit(hdr) == [line |-> [i \in 1..hdr.lag |-> 0], t |-> 0, n |-> 0, res |-> <<<<0, 2, 1000>>>>, val |-> {0}]
Settled(r, hdr) == r[3] >= hdr.hand
RECURSIVE DropOld(_, _)
DropOld(res, hdr) == IF Len(res) >= 2 /\ Settled(res[2], hdr) THEN DropOld(Tail(res), hdr) ELSE res
WerCheck(s, row, hdr) == IF row[5] \in s.val THEN "" ELSE "error_count"
WerStep(s, row, hdr) ==
  LET over == s.t > 0 /\ (s.t % hdr.period) = 0        \* a measurement ends on this pixel tick
      err  == Head(s.line)
      Older(r) == IF r[2] = 2 /\ row[2] = 1 THEN <<r[1], 2, MinI(r[3] + 1, 1000)>>
                  ELSE IF row[1] = 1 THEN <<r[1], MinI(r[2] + 1, 2), r[3]>> ELSE r
      res1 == DropOld([i \in 1..Len(s.res) |-> Older(s.res[i])], hdr)
      res2 == IF row[1] = 1 /\ over THEN Append(res1, <<s.n, 0, 0>>) ELSE res1
  IN [line |-> IF row[1] = 1 THEN Append(Tail(s.line), WrongTab[row[3]]) ELSE s.line,
      t    |-> IF row[1] = 1 THEN s.t + 1 ELSE s.t,
      n    |-> IF row[1] = 1 THEN (IF over THEN 0 ELSE s.n + err) ELSE s.n,
      res  |-> res2,
      val  |-> IF row[2] = 1 /\ row[4] = 1 THEN {s.res[i][1] : i \in 1..Len(s.res)}
               ELSE IF row[2] = 1 THEN {row[5]} ELSE s.val]
\* a whole measurement at the period a design uses: row = <<runs of <<length, word>> inside it, value read>>
RECURSIVE WrongIn(_)
WrongIn(runs) == IF runs = <<>> THEN 0 ELSE WrongIn(Tail(runs)) + WrongTab[runs[1][2]] * runs[1][1]
WerBig(row, hdr) == IF row[2] # WrongIn(row[1]) THEN "error_count" ELSE ""
=============================================================================
