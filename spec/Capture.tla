------------------------------ MODULE Capture -------------------------------
(* The picture side of the receiver, one operator family per block:            *)
(*   Pol   sync polarity normalisation                                         *)
(*   Res   resolution measurement                                              *)
(*   Frm   frame extraction: pixels packed into memory words, overflow flag    *)
(*   Dma   slots and the transfer of frames into memory                        *)
EXTENDS ColorSpace, FiniteSets

NoFinal(s, hdr) == ""
B(x) == IF x THEN 1 ELSE 0

----------------------------------------------------------------------------
(* Pol.  row = <<valid, c, de, d0, d1, d2, raw0, raw1, raw2,                   *)
(*   valid_o, de_o, hsync, vsync, r, g, b, c0, c1, c2>>                        *)
(* The control code seen when video data ends is the idle level of the syncs.  *)
Xor2(a, b) == <<(a[1] + b[1]) % 2, (a[2] + b[2]) % 2>>
Code(c) == <<c % 2, c \div 2>>
PolInit(hdr) == [p |-> <<>>, idle |-> <<0, 0>>, sync |-> <<0, 0>>, de |-> 0]
PolCheck(s, row, hdr) ==
  IF s.p = <<>> THEN ""
  ELSE IF row[10] # s.p[1] THEN "valid"
  ELSE IF row[11] # s.p[3] THEN "data_enable"
  ELSE IF <<row[12], row[13]>> # s.sync THEN "sync_polarity"
  ELSE IF <<row[14], row[15], row[16]>> # <<s.p[6], s.p[5], s.p[4]>> THEN "pixel"
  ELSE IF <<row[17], row[18], row[19]>> # <<s.p[7], s.p[8], s.p[9]>> THEN "raw_symbols" ELSE ""
PolStep(s, row, hdr) ==
  LET ends == s.de = 1 /\ row[3] = 0
  IN [p |-> SubSeq(row, 1, 9), de |-> row[3],
      idle |-> IF ends THEN Code(row[2]) ELSE s.idle,
      sync |-> IF ends THEN <<0, 0>> ELSE Xor2(Code(row[2]), s.idle)]

\* on whole frames: row = <<de, hs, vs, de_o, hsync, vsync>>, syncs active high
PolFInit(hdr) == [k |-> 0]
PolFCheck(s, row, hdr) == IF s.k < hdr.start THEN "" ELSE IF row[1] # row[4] THEN "data_enable"
                          ELSE IF row[1] = 0 /\ <<row[2], row[3]>> # <<row[5], row[6]>> THEN "sync_polarity" ELSE ""
PolFStep(s, row, hdr) == [k |-> s.k + 1]

----------------------------------------------------------------------------
(* Res.  row = <<pix, sys, valid, de, vsync, hres, vres>>; counts modulo       *)
(* 2^hdr.nbits                                                                 *)
ResInit(hdr) == [de |-> 0, vs |-> 0, w |-> 0, l |-> 0, h |-> 0, v |-> 0, hs |-> <<0, 0>>, vr |-> <<0, 0>>]
ResCheck(s, row, hdr) ==
  IF row[6] # s.hs[2] THEN "horizontal_resolution"
  ELSE IF row[7] # s.vr[2] THEN "vertical_resolution" ELSE ""
ResStep(s, row, hdr) ==
  LET m    == Pow2[hdr.nbits]
      pix  == row[1] = 1   sys == row[2] = 1   ok == row[3] = 1
      eol  == row[4] = 0 /\ s.de = 1
      sof  == row[5] = 1 /\ s.vs = 0
  IN [de |-> IF pix THEN row[4] ELSE s.de, vs |-> IF pix THEN row[5] ELSE s.vs,
      w  |-> IF ~pix THEN s.w ELSE IF ok /\ row[4] = 1 THEN (s.w + 1) % m ELSE 0,
      l  |-> IF ~pix THEN s.l ELSE IF ok /\ sof THEN 0 ELSE IF eol THEN (s.l + 1) % m ELSE s.l,
      h  |-> IF ~pix THEN s.h ELSE IF ~ok THEN 0 ELSE IF eol THEN s.w ELSE s.h,
      v  |-> IF ~pix THEN s.v ELSE IF ~ok THEN 0 ELSE IF sof THEN s.l ELSE s.v,
      \* two system clock stages of clock domain crossing
      hs |-> IF sys THEN <<s.h, s.hs[1]>> ELSE s.hs,
      vr |-> IF sys THEN <<s.v, s.vr[1]>> ELSE s.vr]

\* once two frames have passed the registers show the picture size hdr.w x hdr.h
ResFInit(hdr) == [k |-> 0]
ResFCheck(s, row, hdr) == IF row[6] # hdr.w THEN "horizontal_resolution" ELSE IF row[7] # hdr.h THEN "vertical_resolution" ELSE ""
ResFStep(s, row, hdr) == [k |-> s.k + 1]

----------------------------------------------------------------------------
(* Frm.  hdr.mode "rgb" or "ycbcr422", hdr.k pixels per word, hdr.depth words  *)
(* of buffer, hdr.plat pixel ticks from pixel to buffer.                       *)
(* row = <<pix, sys, valid, de, vsync, r, g, b,                                *)
(*         ovalid, oready, osof, oword, overflow, clear>>                      *)
(* oword: the pixels of the word, first pixel (most significant) first.        *)
(* q: words not yet read, oldest first:                                        *)
(*   [w, sof, pa: age in pixel ticks, sa: in system ticks once surely stored,  *)
(*    st: "new" (too young to tell), "yes" (surely stored), "maybe"]           *)
FrmInit(hdr) == [q |-> <<>>, cur |-> <<>>, sof |-> 0, vs |-> 0, de |-> 0, odd |-> FALSE, wait |-> <<>>,
                 cr |-> 0, reads |-> <<>>, held |-> <<>>,
                 may |-> FALSE, must |-> -1, clr |-> <<0, 0>>]
Recent == 12
HiOcc(s) == Len(s.q) + Len(s.reads)
\* words before the one that is out were lost: of a young one it was just not known yet
Gone(s, j, hdr) == s.q[j].st = "maybe" \/ (s.q[j].st = "new" /\ (j - 1) + Len(s.reads) >= hdr.depth)
Match(s, row, hdr) == {i \in 1..Len(s.q) : /\ \A j \in 1..(i - 1) : Gone(s, j, hdr)
                                           /\ s.q[i].w = row[12] /\ s.q[i].sof = row[11]}
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
FrmCheck(s, row, hdr) ==
  IF row[2] = 0 THEN ""
  ELSE IF s.held # <<>> /\ (row[9] = 0 \/ s.held # <<row[11], row[12]>>) THEN "word_withdrawn"
  ELSE IF row[9] = 1 /\ Match(s, row, hdr) = {}
       THEN IF s.q = <<>> THEN "word_out_of_nothing"
            ELSE IF s.q[1].w = row[12] THEN "start_of_frame_marker" ELSE "wrong_word"
  ELSE IF row[9] = 0 /\ s.q # <<>> /\ s.q[1].st = "yes" /\ s.q[1].sa > 8 THEN "word_lost"
  ELSE IF row[13] = 1 /\ ~s.may /\ HiOcc(s) <= hdr.depth THEN "overflow_without_loss"
  ELSE IF row[13] = 0 /\ s.must > 8 THEN "overflow_not_reported" ELSE ""

FrmStep(s, row, hdr) ==
  LET pix == row[1] = 1
      sys == row[2] = 1
      \* --- pixel side: pixels to slots
      new   == pix /\ row[5] = 1 /\ s.vs = 0
      px    == pix /\ row[3] = 1 /\ row[4] = 1
      ycc   == ToYCbCr(row[6], row[7], row[8], 8, 8)
      first == s.de = 0
      odd   == IF first THEN FALSE ELSE s.odd          \* position of this pixel in its pair
      slots == IF hdr.mode = "rgb"
               THEN IF px THEN <<row[8] + 256 * row[7] + 65536 * row[6]>> ELSE <<>>
               ELSE (IF pix /\ s.wait # <<>> THEN <<s.wait[1] + 256 * ((s.wait[2] + ycc[2]) \div 2)>> ELSE <<>>)
                    \o (IF px /\ odd THEN <<ycc[1] + 256 * ((s.cr + ycc[3]) \div 2)>> ELSE <<>>)
      cur1  == IF new THEN <<>> ELSE s.cur \o slots
      full  == Len(cur1) >= hdr.k
      nw    == IF hdr.k = 1 THEN Len(cur1) ELSE IF full THEN 1 ELSE 0
      fresh == [i \in 1..nw |-> [w |-> SubSeq(cur1, (i - 1) * hdr.k + 1, i * hdr.k),
                                 sof |-> IF i = 1 THEN s.sof ELSE 0, pa |-> 0, sa |-> 0, st |-> "new"]]
      \* --- system side: a word is read
      hit   == sys /\ row[9] = 1 /\ row[10] = 1
      first1 == IF hit THEN MinOf(Match(s, row, hdr)) ELSE 0
      q1    == SubSeq(s.q, first1 + 1, Len(s.q))
      skip  == \E j \in 1..(first1 - 1) : s.q[j].st = "new"
      reads == (IF pix THEN SelectSeq([i \in 1..Len(s.reads) |-> s.reads[i] + 1], LAMBDA a : a < Recent)
                ELSE s.reads) \o (IF hit THEN <<0>> ELSE <<>>)
      \* --- what became of words that should have reached the buffer by now
      due(e) == pix /\ e.st = "new" /\ e.pa + 1 = hdr.plat + 2
      Sure(q, i) == Cardinality({j \in 1..(i - 1) : q[j].st = "yes"})
      verdict(q, i) == IF i - 1 + Len(reads) < hdr.depth THEN "yes"
                       ELSE IF Sure(q, i) >= hdr.depth THEN "no" ELSE "maybe"
      age(q, i) == LET e == q[i]
                   IN [e EXCEPT !.pa = IF pix THEN MinI(@ + 1, 100) ELSE @,
                                !.sa = IF e.st = "yes" /\ sys THEN MinI(@ + 1, 100) ELSE @,
                                !.st = IF due(e) THEN verdict(q, i) ELSE @]
      q2    == [i \in 1..Len(q1) |-> age(q1, i)]
      lost  == \E i \in 1..Len(q2) : q2[i].st = "no"
      maybe == \E i \in 1..Len(q2) : q2[i].st = "maybe" /\ q1[i].st = "new"
      q3    == SelectSeq(q2, LAMBDA e : e.st # "no")
      \* --- overflow flag
      clear == sys /\ row[14] = 1
      busy  == s.clr # <<0, 0>>
  IN [q    |-> q3 \o fresh,
      cur  |-> IF nw > 0 THEN SubSeq(cur1, nw * hdr.k + 1, Len(cur1)) ELSE cur1,
      sof  |-> IF new THEN 1 ELSE IF nw > 0 THEN 0 ELSE s.sof,
      vs   |-> IF pix THEN row[5] ELSE s.vs,
      de   |-> IF pix THEN row[4] ELSE s.de,
      odd  |-> IF px THEN ~odd ELSE s.odd,
      wait |-> IF ~pix THEN s.wait ELSE IF px /\ ~odd THEN <<ycc[1], ycc[2]>> ELSE <<>>,
      cr   |-> IF px /\ ~odd THEN ycc[3] ELSE s.cr,
      reads |-> reads,
      held |-> IF ~sys THEN s.held ELSE IF row[9] = 1 /\ row[10] = 0 THEN <<row[11], row[12]>> ELSE <<>>,
      may  |-> IF clear THEN FALSE ELSE s.may \/ lost \/ maybe \/ skip,
      must |-> IF clear THEN -1
               ELSE IF lost /\ ~busy /\ s.must = -1 THEN 0
               ELSE IF s.must >= 0 /\ sys THEN MinI(s.must + 1, 100) ELSE s.must,
      clr  |-> IF clear THEN <<16, 16>>
               ELSE <<IF pix /\ s.clr[1] > 0 THEN s.clr[1] - 1 ELSE s.clr[1],
                      IF sys /\ s.clr[2] > 0 THEN s.clr[2] - 1 ELSE s.clr[2]>>]

\* the reader has been draining: nothing surely stored is left
FrmFinal(s, hdr) == IF \E i \in 1..Len(s.q) : s.q[i].st = "yes" THEN "word_lost" ELSE ""

----------------------------------------------------------------------------
(* Dma.  hdr.n slots.  row = <<fvalid, fsof, fword, fready,                    *)
(*   cvalid, cready, caddr, cwe, wvalid, wready, wdata, wmask,                 *)
(*   wr, wrslot, wrval, status_1..n, address_1..n, irq>>                       *)
(* wr: 0 none, 1 slot status, 2 slot address, 3 frame size, 4 event enable;    *)
(* status: 0 empty, 1 loaded, 2 filled.  Addresses and sizes in memory words.  *)
Valid(s, i) == s.st[i] = 1
DmaInit(hdr) == [mode |-> "WAIT", cur |-> 1, st |-> [i \in 1..hdr.n |-> 0], ad |-> [i \in 1..hdr.n |-> 0],
                 size |-> 0, rem |-> 0, a |-> 0, cq |-> <<>>, dq |-> <<>>, en |-> 0]
Starts(s, row) == s.mode = "WAIT" /\ Valid(s, s.cur) /\ row[1] = 1 /\ row[2] = 1
Taken(s, row)  == s.mode = "MOVE" /\ row[1] = 1 /\ row[4] = 1
DmaDone(s, row) == s.mode = "END" /\ row[9] = 0
DmaCheck(s, row, hdr) ==
  LET n  == hdr.n
      cq == IF Taken(s, row) THEN Append(s.cq, s.a) ELSE s.cq
      dq == IF Taken(s, row) THEN Append(s.dq, row[3]) ELSE s.dq
  IN IF \E i \in 1..n : row[15 + i] # s.st[i] THEN "slot_status"
     ELSE IF \E i \in 1..n : row[15 + n + i] # s.ad[i] THEN "slot_address"
     ELSE IF row[16 + 2 * n] # B(\E i \in 1..n : s.st[i] \in {2, 3} /\ Bit(s.en, i - 1) = 1) THEN "interrupt"
     ELSE IF s.mode = "WAIT" /\ row[1] = 1 /\ row[4] # B(~Valid(s, s.cur) \/ row[2] = 0)
          THEN IF row[4] = 1 THEN "frame_start_dropped" ELSE "stream_blocked"
     ELSE IF s.mode = "END" /\ row[4] = 1 THEN "word_dropped_at_end"
     ELSE IF s.mode = "MOVE" /\ row[1] = 1 /\ row[4] = 0 /\ row[6] = 1 /\ Len(s.dq) < 12 THEN "transfer_stalled"
     ELSE IF row[5] = 1 /\ row[6] = 1 /\ cq = <<>> THEN "write_without_word"
     ELSE IF row[5] = 1 /\ row[6] = 1 /\ row[7] # cq[1] THEN "write_address"
     ELSE IF row[5] = 1 /\ row[8] # 1 THEN "not_a_write"
     ELSE IF row[9] = 1 /\ row[10] = 1 /\ dq = <<>> THEN "data_without_word"
     ELSE IF row[9] = 1 /\ row[10] = 1 /\ row[11] # dq[1] THEN "write_data"
     ELSE IF row[9] = 1 /\ row[12] # hdr.mask THEN "write_mask"
     ELSE IF DmaDone(s, row) /\ (dq # <<>> \/ cq # <<>>) THEN "done_before_written" ELSE ""
DmaStep(s, row, hdr) ==
  LET n    == hdr.n
      take == Taken(s, row)
      done == DmaDone(s, row)
      cq1  == IF take THEN Append(s.cq, s.a) ELSE s.cq
      dq1  == IF take THEN Append(s.dq, row[3]) ELSE s.dq
      cand == {i \in 1..n : Valid(s, i) /\ ~(done /\ i = s.cur)}
      wr(k, i) == row[13] = k /\ row[14] = i
  IN [mode |-> IF Starts(s, row) THEN "MOVE" ELSE IF take /\ s.rem = 1 THEN "END" ELSE IF done THEN "WAIT" ELSE s.mode,
      cur  |-> IF (~Valid(s, s.cur) \/ done) /\ cand # {} THEN CHOOSE i \in cand : \A j \in cand : i <= j ELSE s.cur,
      st   |-> [i \in 1..n |-> IF wr(1, i) THEN row[15] ELSE IF done /\ i = s.cur THEN 2 ELSE s.st[i]],
      ad   |-> [i \in 1..n |-> IF wr(2, i) THEN row[15] ELSE IF done /\ i = s.cur THEN s.a ELSE s.ad[i]],
      size |-> IF row[13] = 3 THEN row[15] ELSE s.size,
      en   |-> IF row[13] = 4 THEN row[15] ELSE s.en,
      rem  |-> IF s.mode = "WAIT" THEN s.size ELSE IF take THEN s.rem - 1 ELSE s.rem,
      a    |-> IF s.mode = "WAIT" THEN s.ad[s.cur] ELSE IF take THEN (s.a + 1) % hdr.span ELSE s.a,
      cq   |-> IF row[5] = 1 /\ row[6] = 1 THEN Tail(cq1) ELSE cq1,
      dq   |-> IF row[9] = 1 /\ row[10] = 1 THEN Tail(dq1) ELSE dq1]
\* A whole frame at real size: row = <<first address, size, first value, runs, slot status, slot address>>, values being
\* words that count up; runs = <<address, length, value>> of what was written, in order.
RECURSIVE RunsOk(_, _, _, _, _)
RunsOk(runs, a, v, left, span) ==
  IF runs = <<>> THEN left = 0
  ELSE /\ runs[1][1] = a % span /\ runs[1][3] = v /\ runs[1][2] <= left
       /\ RunsOk(Tail(runs), (a + runs[1][2]) % span, v + runs[1][2], left - runs[1][2], span)
BigFrame(row, hdr) ==
  IF ~RunsOk(row[4], row[1], row[3], row[2], hdr.span) THEN "frame_in_memory"
  ELSE IF row[5] # 2 THEN "slot_status"
  ELSE IF row[6] # (row[1] + row[2]) % hdr.span THEN "slot_address" ELSE ""
----------------------------------------------------------------------------
(* Whole receiver, characters to memory.                                       *)
(* Pix.  row = <<de, hs, vs, r, g, b sent, de, hs, vs, r, g, b delivered>>:    *)
(* everything sent arrives together, with one common delay                     *)
PixInit(hdr) == [k |-> 0]
PixCheck(s, row, hdr) ==
  IF row[1] # row[7] THEN "data_enable"
  ELSE IF row[1] = 1 /\ SubSeq(row, 4, 6) # SubSeq(row, 10, 12) THEN "pixel"
  ELSE IF row[1] = 0 /\ SubSeq(row, 2, 3) # SubSeq(row, 8, 9) THEN "syncs" ELSE ""
PixStep(s, row, hdr) == [k |-> s.k + 1]

(* RcvFrame.  row = <<pixels of the frame as sent, first address, addresses    *)
(* written, words written>>; hdr.mode, hdr.k slots per word                    *)
Ycc422(p, q) == LET a == ToYCbCr(p[1], p[2], p[3], 8, 8)
                    b == ToYCbCr(q[1], q[2], q[3], 8, 8)
                IN <<a[1] + 256 * ((a[2] + b[2]) \div 2), b[1] + 256 * ((a[3] + b[3]) \div 2)>>
Packed(px, mode) ==
  IF mode = "rgb" THEN [i \in 1..Len(px) |-> px[i][3] + 256 * px[i][2] + 65536 * px[i][1]]
  ELSE FoldLeft(LAMBDA acc, i : acc \o Ycc422(px[2 * i - 1], px[2 * i]), <<>>, [i \in 1..(Len(px) \div 2) |-> i])
RcvFrame(row, hdr) ==
  LET exp == Packed(row[1], hdr.mode)
      n   == Len(exp) \div hdr.k
  IN IF Len(row[3]) # n THEN "frame_size_in_memory"
     ELSE IF \E i \in 1..n : row[3][i] # row[2] + i - 1 THEN "frame_address"
     ELSE IF \E i \in 1..n : row[4][i] # SubSeq(exp, (i - 1) * hdr.k + 1, i * hdr.k) THEN "frame_contents" ELSE ""
(* Lossy.  A memory that stops for a while.  hdr.pics: frames sent; row =      *)
(* <<slot address, addresses, words, overflow seen, after>>, one per slot      *)
(* filled.  What a slot holds is a whole frame, later than the one before, or  *)
(* the overflow register was set; once the memory takes words again and the    *)
(* register has been cleared, frames are whole and the register stays clear.   *)
LosInit(hdr) == [f |-> 0, n |-> 0]
WholeFrames(row, hdr) == {f \in 1..Len(hdr.pics) : RcvFrame(<<hdr.pics[f], row[1], row[2], row[3]>>, hdr) = ""}
LosCheck(s, row, hdr) ==
  IF row[5] = 1 /\ row[4] = 1 THEN "overflow_without_loss"
  ELSE IF row[4] = 0 /\ WholeFrames(row, hdr) = {} THEN "broken_frame_without_overflow"
  ELSE IF row[4] = 0 /\ \A f \in WholeFrames(row, hdr) : f <= s.f THEN "frame_twice" ELSE ""
LosStep(s, row, hdr) == [f |-> IF row[4] = 0 THEN CHOOSE f \in WholeFrames(row, hdr) : f > s.f ELSE s.f,
                         n |-> s.n + row[5]]
LosFinal(s, hdr) == IF s.n < hdr.least THEN "no_frames_after_the_stalls" ELSE ""
ResRow(row, hdr) == IF row[1] # row[3] THEN "horizontal_resolution" ELSE IF row[2] # row[4] THEN "vertical_resolution" ELSE ""
=============================================================================
