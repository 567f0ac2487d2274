From 67c27e9a65d084d698fc0f3b5eb5f8dfd8e3a171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:30 +0000
Subject: [PATCH 01/23] fix: csc/rgb2rgb16f: use pixel width in leading one
 detector, clear sign, handle zero

---
 litevideo/csc/rgb2rgb16f.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/litevideo/csc/rgb2rgb16f.py b/litevideo/csc/rgb2rgb16f.py
index f5c3a1c..05505e3 100644
--- a/litevideo/csc/rgb2rgb16f.py
+++ b/litevideo/csc/rgb2rgb16f.py
@@ -105,11 +105,13 @@ class PIX2PIXFDatapath(Module):
 
         lshift = Signal(4)
         frac_val = Signal(10)
+        is_zero = Signal()
 
-        self.submodules.l1 = LeadOne(12)
+        self.submodules.l1 = LeadOne(pix_w)
         self.comb += self.l1.datai.eq(sink.pix)
 
         self.sync += [
+            is_zero.eq(sink.pix == 0),
             lshift.eq(self.l1.leadone),
             frac_val[3:].eq(sink.pix[:7]),
             frac_val[:3].eq(0)
@@ -121,8 +123,12 @@ class PIX2PIXFDatapath(Module):
 
         self.sync += [
             source.pixf[:10].eq(frac_val << lshift),
-            source.pixf[10:15].eq(15 - 1 - lshift),
-            source.pixf[15].eq(1)
+            If(is_zero,
+                source.pixf[10:15].eq(0)
+            ).Else(
+                source.pixf[10:15].eq(15 - 1 - lshift)
+            ),
+            source.pixf[15].eq(0)
         ]
 
 class RGB2RGB16f(PipelinedActor, Module):
-- 
2.43.0


From 4fc79753fc5215b91aee76d7785ac1621997daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:15 +0000
Subject: [PATCH 02/23] fix: float_arithmetic/floatmult: use the multiplication
 result of the same operands in stage 4, fix the normal/subnormal boundary and
 subnormal operands

---
 litevideo/float_arithmetic/floatmult.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/litevideo/float_arithmetic/floatmult.py b/litevideo/float_arithmetic/floatmult.py
index edd118e..081345b 100644
--- a/litevideo/float_arithmetic/floatmult.py
+++ b/litevideo/float_arithmetic/floatmult.py
@@ -137,12 +137,16 @@ class FloatMultDatapath(Module):
 
         self.sync += [
             out_status4.eq(out_status3),
-            If((out_exp3 - one_ptr) < 1,
+            If((out_exp3 - one_ptr) < 0,
                 out_exp_adjust.eq(0),
-                out_mult_shift.eq(((out_mult >> (0 - out_exp3)) << 1))
+                If(out_exp3 > 0,
+                    out_mult_shift.eq(out_mult3 << (out_exp3 + 1))
+                ).Else(
+                    out_mult_shift.eq(((out_mult3 >> (0 - out_exp3)) << 1))
+                )
             ).Else(
                 out_exp_adjust.eq(out_exp3 + 1 - one_ptr),
-                out_mult_shift.eq(out_mult << one_ptr + 1)
+                out_mult_shift.eq(out_mult3 << one_ptr + 1)
             )
         ]
 
-- 
2.43.0


From 138cb5d69c418df4a3d1c3f6162b64da5f99faeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:26 +0000
Subject: [PATCH 03/23] fix: float_arithmetic/floatmult: propagate the sign of
 the product

---
 litevideo/float_arithmetic/floatmult.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/litevideo/float_arithmetic/floatmult.py b/litevideo/float_arithmetic/floatmult.py
index 081345b..c7d29fb 100644
--- a/litevideo/float_arithmetic/floatmult.py
+++ b/litevideo/float_arithmetic/floatmult.py
@@ -70,7 +70,11 @@ class FloatMultDatapath(Module):
             in2_sign.eq(sink.in2[15])
         ]
 
+        out_sign1 = Signal()
+
         self.sync += [
+            out_sign1.eq(in1_sign ^ in2_sign),
+
             If(in1_exp == 0,
                 in1_mant.eq(Cat(in1_frac, 0)),
                 in1_exp1.eq(in1_exp + 1)
@@ -101,8 +105,10 @@ class FloatMultDatapath(Module):
         out_mult = Signal(22)
         out_exp = Signal((7, True))
         out_status2 = Signal(2)
+        out_sign2 = Signal()
 
         self.sync += [
+            out_sign2.eq(out_sign1),
             out_mult.eq(in1_mant * in2_mant),
             out_exp.eq(in1_exp1 + in2_exp1 - 15),
             out_status2.eq(out_status1),
@@ -114,6 +120,7 @@ class FloatMultDatapath(Module):
         out_status3 = Signal(2)
         out_mult3 = Signal(22)
         out_exp3 = Signal((7, True))
+        out_sign3 = Signal()
 
         lead_one_ptr = Signal(5)
         self.submodules.leadone = LeadOne(22)
@@ -124,6 +131,7 @@ class FloatMultDatapath(Module):
 
         self.sync += [
             out_status3.eq(out_status2),
+            out_sign3.eq(out_sign2),
             out_mult3.eq(out_mult),
             out_exp3.eq(out_exp),
             one_ptr.eq(lead_one_ptr)
@@ -134,9 +142,11 @@ class FloatMultDatapath(Module):
         out_exp_adjust = Signal((7, True))
         out_mult_shift = Signal(22)
         out_status4 = Signal(2)
+        out_sign4 = Signal()
 
         self.sync += [
             out_status4.eq(out_status3),
+            out_sign4.eq(out_sign3),
             If((out_exp3 - one_ptr) < 0,
                 out_exp_adjust.eq(0),
                 If(out_exp3 > 0,
@@ -156,7 +166,7 @@ class FloatMultDatapath(Module):
             If(out_status4 == 0,
                 source.out.eq(0)
             ).Elif(out_status4 == 3,
-                source.out.eq(Cat(out_mult_shift[12:], out_exp_adjust[:5],0))
+                source.out.eq(Cat(out_mult_shift[12:], out_exp_adjust[:5], out_sign4))
             )
         ]
 
-- 
2.43.0


From a327bc16b8d324fc8b22fdc9c90b845cfb8bae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:34 +0000
Subject: [PATCH 04/23] fix: float_arithmetic/floatadd: align with the
 effective exponent of subnormal operands, handle zero and subnormal sums

---
 litevideo/float_arithmetic/floatadd.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/litevideo/float_arithmetic/floatadd.py b/litevideo/float_arithmetic/floatadd.py
index f02ffdf..daababf 100644
--- a/litevideo/float_arithmetic/floatadd.py
+++ b/litevideo/float_arithmetic/floatadd.py
@@ -99,7 +99,7 @@ class FloatAddDatapath(Module):
         in2_exp_stage1 = Signal(5)
 
         self.sync += [
-            in1_minus_in2_exp.eq(in1_exp1 - in2_exp),
+            in1_minus_in2_exp.eq(in1_exp1 - in2_exp1),
             in1_frac_stage1.eq(in1_mant),
             in2_frac_stage1.eq(in2_mant),
             in1_exp_stage1.eq(in1_exp1),
@@ -158,8 +158,14 @@ class FloatAddDatapath(Module):
         out_exp_stage4 = Signal(5)
         out_4 = Signal(16)
         self.sync += [
-            out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
-            out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1),
+            If((in1_plus_in2_frac == 0) | (leadone > in1_minus_in2_exp_stage3),
+                # zero or subnormal
+                out_frac_stage4.eq(in1_plus_in2_frac << in1_minus_in2_exp_stage3),
+                out_exp_stage4.eq(0)
+            ).Else(
+                out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
+                out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1)
+            ),
             out_sign_stage4.eq(in1_plus_in2_sign),
             out_4.eq(out_frac_stage4)
         ]
-- 
2.43.0


From e3d50299655b7d28404a8ac6b3fc79fbf52839c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:34 +0000
Subject: [PATCH 05/23] fix: csc/ycbcr422to444: propagate first/last

---
 litevideo/csc/ycbcr422to444.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/litevideo/csc/ycbcr422to444.py b/litevideo/csc/ycbcr422to444.py
index ef4286a..763cbdf 100644
--- a/litevideo/csc/ycbcr422to444.py
+++ b/litevideo/csc/ycbcr422to444.py
@@ -27,6 +27,14 @@ class YCbCr422to444(Module):
         cr_fifo = stream.SyncFIFO([("data", dw)], 4)
         self.submodules += y_fifo, cb_fifo, cr_fifo
 
+        # first/last
+        self.comb += [
+            y_fifo.sink.first.eq(sink.first),
+            y_fifo.sink.last.eq(sink.last),
+            source.first.eq(y_fifo.source.first),
+            source.last.eq(y_fifo.source.last)
+        ]
+
         # input
         parity_in = Signal()
         self.sync += If(sink.valid & sink.ready, parity_in.eq(~parity_in))
-- 
2.43.0


From 59840a197fac64cd262b03cba25aabd50c14b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:59 +0000
Subject: [PATCH 06/23] fix: input/analysis: do not emit the incomplete last
 word of a frame as the start of the next one

---
 litevideo/input/analysis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index 1bed19c..ae13fdb 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -198,8 +198,7 @@ class FrameExtraction(Module, AutoCSR):
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
-                    pack_counter.eq(0),
+                    pack_counter.eq(0)
                 ).Elif(chroma_downsampler.source.valid & de,
                     [If(pack_counter == (pack_factor-i-1),
                         cur_word[16*i:16*(i+1)].eq(encoded_pixel)) for i in range(pack_factor)],
@@ -222,8 +221,7 @@ class FrameExtraction(Module, AutoCSR):
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
-                    pack_counter.eq(0),
+                    pack_counter.eq(0)
                 ).Elif(self.valid_i & de,
                     [If(pack_counter == (pack_factor-i-1),
                         cur_word[32*i:32*(i+1)].eq(encoded_pixel)) for i in range(pack_factor)],
-- 
2.43.0


From 3a0be5a79e6386073a7de78b1550a69f22f7d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:59 +0000
Subject: [PATCH 07/23] fix: input/dma: do not select again the slot that is
 being completed

---
 litevideo/input/dma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 1030e4a..5920719 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -50,7 +50,7 @@ class _SlotArray(Module, AutoCSR):
 
         change_slot = Signal()
         current_slot = Signal(max=nslots)
-        self.sync += If(change_slot, [If(slot.address_valid, current_slot.eq(n))
+        self.sync += If(change_slot, [If(slot.address_valid & ~slot.address_done, current_slot.eq(n))
                          for n, slot in reversed(list(enumerate(slots)))])
         self.comb += change_slot.eq(~self.address_valid | self.address_done)
 
-- 
2.43.0


From 17431dad889d41753d76fe41d80d7202133ae782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:59 +0000
Subject: [PATCH 08/23] fix: input/edid: release SDA when returning to idle

---
 litevideo/input/edid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/litevideo/input/edid.py b/litevideo/input/edid.py
index 04ccb15..5d643da 100644
--- a/litevideo/input/edid.py
+++ b/litevideo/input/edid.py
@@ -178,7 +178,9 @@ class EDID(Module, AutoCSR):
 
         self.submodules.fsm = fsm = FSM()
 
-        fsm.act("WAIT_START")
+        fsm.act("WAIT_START",
+            data_drv_stop.eq(1)
+        )
         fsm.act("RCV_ADDRESS",
             If(counter == 8,
                 If(din[1:] == 0x50,
-- 
2.43.0


From 14b9b7a3762410f92a7482c13a2aeffd741c8f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:03 +0000
Subject: [PATCH 09/23] fix: input/dma: name the slot event sources, so that
 more than one slot can be elaborated

---
 litevideo/input/dma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 5920719..01eb416 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -9,8 +9,8 @@ from litedram.frontend.dma import LiteDRAMDMAWriter
 
 # Slot status: EMPTY=0 LOADED=1 PENDING=2
 class _Slot(Module, AutoCSR):
-    def __init__(self, addr_bits, alignment_bits):
-        self.ev_source = EventSourceLevel()
+    def __init__(self, addr_bits, alignment_bits, name=None):
+        self.ev_source = EventSourceLevel(name=name)
         self.address = Signal(addr_bits)
         self.address_reached = Signal(addr_bits)
         self.address_valid = Signal()
@@ -42,7 +42,7 @@ class _SlotArray(Module, AutoCSR):
 
         # # #
 
-        slots = [_Slot(addr_bits, alignment_bits) for i in range(nslots)]
+        slots = [_Slot(addr_bits, alignment_bits, name="slot"+str(i)) for i in range(nslots)]
         for n, slot in enumerate(slots):
             setattr(self.submodules, "slot"+str(n), slot)
             setattr(self.ev, "slot"+str(n), slot.ev_source)
-- 
2.43.0


From ec59fd2b62075a2203d711a0cbca1df94147ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:15 +0000
Subject: [PATCH 10/23] fix: input: in HDMI mode delay the channels by the
 latency of the period decoder

The channel decoders and the state machine of DecodeTERC4 take two clocks, the
channels were delayed by one only: the first pixel of each line was lost and a
control character appended to it.
---
 litevideo/input/__init__.py | 6 +++---
 litevideo/input/decoding.py | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/litevideo/input/__init__.py b/litevideo/input/__init__.py
index 5c566bd..1b8751c 100644
--- a/litevideo/input/__init__.py
+++ b/litevideo/input/__init__.py
@@ -105,9 +105,9 @@ class HDMIIn(Module, AutoCSR):
              #   timingdelay = ClockDomainsRenamer("pix")(timingdelay)
              #   setattr(self.submodules, name + "_timingdelay", timingdelay)
                 # self.comb += timingdelay.sink.eq(getattr(self, "self.chansync.data_out" + str(datan)))  # this code doesn't work. why???
-            self.submodules.data0_timingdelay = TimingDelayChannel(1)
-            self.submodules.data1_timingdelay = TimingDelayChannel(1)
-            self.submodules.data2_timingdelay = TimingDelayChannel(1)
+            self.submodules.data0_timingdelay = TimingDelayChannel(2)
+            self.submodules.data1_timingdelay = TimingDelayChannel(2)
+            self.submodules.data2_timingdelay = TimingDelayChannel(2)
 
             self.comb += [
                 self.data0_timingdelay.sink.eq(self.chansync.data_out0),
diff --git a/litevideo/input/decoding.py b/litevideo/input/decoding.py
index 6e607c3..3384932 100644
--- a/litevideo/input/decoding.py
+++ b/litevideo/input/decoding.py
@@ -197,8 +197,10 @@ class DecodeTERC4(Module, AutoCSR):
         dvimode_bit = Signal()
         self.specials += MultiReg(self.dvimode.storage, dvimode_bit)
         self.de_r = Signal()
+        de_r0 = Signal()
         self.sync.pix += [
-            self.de_r.eq(self.data_in0.de)  # delay one clock to match the HDMI pipe latency
+            de_r0.eq(self.data_in0.de),
+            self.de_r.eq(de_r0)  # delay two clocks to match the HDMI pipe latency (channel decoders + state machine)
         ]
         self.comb += [
             If(dvimode_bit,
-- 
2.43.0


From f84819c9d5f94578c1df89356fa4a13ad4f13fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:00 +0000
Subject: [PATCH 11/23] fix: output: align timings with pixels in ycbcr422 mode

The pixels go through one more register than TimingDelay accounted for, so that
every line was shown one pixel late with its last pixel cut off.
---
 litevideo/output/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/litevideo/output/__init__.py b/litevideo/output/__init__.py
index 248efc4..a3cd479 100644
--- a/litevideo/output/__init__.py
+++ b/litevideo/output/__init__.py
@@ -58,7 +58,8 @@ class VideoOut(Module, AutoCSR):
         elif mode == "ycbcr422":
             ycbcr422to444 = ClockDomainsRenamer(cd)(YCbCr422to444())
             ycbcr2rgb = ClockDomainsRenamer(cd)(YCbCr2RGB())
-            timing_delay = TimingDelay(ycbcr422to444.latency + ycbcr2rgb.latency)
+            # one more cycle for the core_source_*_d registers
+            timing_delay = TimingDelay(ycbcr422to444.latency + ycbcr2rgb.latency + 1)
             timing_delay = ClockDomainsRenamer(cd)(timing_delay)
             self.submodules += ycbcr422to444, ycbcr2rgb, timing_delay
 
-- 
2.43.0


From 442e2efc696bb8f387214e6c94017ff08f241490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:00 +0000
Subject: [PATCH 12/23] fix: output/core: read a whole frame from one base

The reader prefetches the start of the next frame before the timing generator
moves on to the next parameters: with a new base, the first words of the frame
came from the old base and the others from the new one.
---
 litevideo/output/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 536bfb2..2e20907 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -54,6 +54,7 @@ class DMAReader(Module, AutoCSR):
 
         shift = log2_int(dram_port.dw//8)
         base = Signal(dram_port.aw)
+        frame_base = Signal(dram_port.aw) # base the current frame is read from
         length = Signal(dram_port.aw)
         offset = Signal(dram_port.aw)
         self.delay_base = CSRStorage(32)
@@ -75,6 +76,7 @@ class DMAReader(Module, AutoCSR):
         if genlock_stream == None:
             fsm.act("IDLE",
                 NextValue(offset, 0),
+                NextValue(frame_base, base),
                 If(sink.valid,  # if our parameters are valid, start reading
                        NextState("READ")
                     ).Else(
@@ -94,6 +96,7 @@ class DMAReader(Module, AutoCSR):
         else:
             fsm.act("IDLE",
                 NextValue(offset, self.delay_base.storage),
+                NextValue(frame_base, base),
                 If(sink.valid,  # if our parameters are valid, start reading
                        NextState("READ")
                     ).Else(
@@ -117,7 +120,7 @@ class DMAReader(Module, AutoCSR):
             )
 
         self.comb += [
-            self.dma.sink.address.eq(base + offset),  # input to the DMA is an address of base + offset
+            self.dma.sink.address.eq(frame_base + offset),  # input to the DMA is an address of base + offset
             self.dma.source.connect(self.source)      # connect the DMA's output to the output of this module
         ]
 
-- 
2.43.0


From 308e7e40cad22914ed80dfd4cb75f4049f9b0880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:00 +0000
Subject: [PATCH 13/23] fix: output/core: wait for the DMA before restarting

When the output was enabled again while the reader was still fetching the
frame it had started before the output was disabled, the picture stayed
shifted by the words that were left.
---
 litevideo/output/core.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 2e20907..baae83f 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -58,7 +58,9 @@ class DMAReader(Module, AutoCSR):
         length = Signal(dram_port.aw)
         offset = Signal(dram_port.aw)
         self.delay_base = CSRStorage(32)
+        self.idle = Signal() # no read going on or in flight
         self.comb += [
+            self.idle.eq(fsm.ongoing("IDLE") & (self.dma.rsv_level == 0)),
             base.eq(sink.base[shift:]),   # ignore the lower bits of the base + length to match the DMA's expectations
             length.eq(sink.length[shift:]), # need to noodle on what that expectation is, exactly...
         ]
@@ -225,18 +227,25 @@ class VideoOutCore(Module, AutoCSR):
         self.submodules.dma = dma = ClockDomainsRenamer(cd)(DMAReader(dram_port, fifo_depth, genlock_stream))
 
         # ctrl path
-        self.comb += timing.sink.valid.eq(initiator.source.valid) # if the CSR FIFO data is valid, timing may proceed
+        # (re)start only once the reads of the previous run are flushed, the data
+        # would otherwise be shifted relative to the timings
+        running = Signal()
+        running_r = Signal()
+        self.comb += running.eq(initiator.source.valid & running_r)
+        sync = getattr(self.sync, cd)
+        sync += running_r.eq(initiator.source.valid & (running_r | dma.idle))
+        self.comb += timing.sink.valid.eq(running) # if the CSR FIFO data is valid, timing may proceed
 
         self.comb += [
             # dispatch initiator parameters to timing & dma
-            dma.sink.valid.eq(initiator.source.valid),   # the DMA's parameter input "pushed" from the initiator, so connect the valids
+            dma.sink.valid.eq(running),   # the DMA's parameter input "pushed" from the initiator, so connect the valids
             initiator.source.ready.eq(timing.sink.ready), # timing's parameters come from initiator, but this is "pulled" by timing so connect readys
 
             # combine timing and dma
             source.valid.eq(timing.source.valid & (~timing.source.de | dma.source.valid)), # our output is valid only when timing's outputs are valid and (when the dma's output is valid or de is low)
               # the "or de is low" thing seems like a hack to fix some edge case??
             # flush dma/timing when disabled
-            If(~initiator.source.valid,  # if the initiator's (e.g. CSR) outputs aren't valid
+            If(~running,  # if the initiator's (e.g. CSR) outputs aren't valid
                 timing.source.ready.eq(1), # force the outputs to 1 to keep the DMA running
                 dma.source.ready.eq(1)
             ).Elif(source.valid & source.ready, # else if our DMA output stream has valid data, and is ready to accept addresses
-- 
2.43.0


From b4cffe786281d619c6cd4b11c3daaaba656a9b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:00 +0000
Subject: [PATCH 14/23] fix: terminal: 800 clocks per line

Lines were 801 clocks long, not the 800 of the VGA timing documented above.
---
 litevideo/terminal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/terminal/core.py b/litevideo/terminal/core.py
index 8aac296..ab953cc 100755
--- a/litevideo/terminal/core.py
+++ b/litevideo/terminal/core.py
@@ -233,7 +233,7 @@ class Terminal(Module):
                 fx.eq(0),
                 text_addr.eq(text_addr_start)
             ),
-            If(pixel_counter == H_FRONT_PORCH,
+            If(pixel_counter == H_FRONT_PORCH - 1,
                 # Initilize next line
                 pixel_counter.eq(0),
                 line_counter.eq(line_counter + 1),
-- 
2.43.0


From 7cedd021f0bef0fb81b53bbd9ab0a315db9e5c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:18 +0000
Subject: [PATCH 15/23] fix: output/driver: black outside of the active area on
 VGA

The next pixel of the frame was already driven during blanking, where VGA
monitors take their black level.
---
 litevideo/output/driver.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/litevideo/output/driver.py b/litevideo/output/driver.py
index dccc9ee..81e98c9 100644
--- a/litevideo/output/driver.py
+++ b/litevideo/output/driver.py
@@ -29,9 +29,12 @@ class VGAPHY(Module):
             self.sink.ready.eq(1),
             pads.hsync_n.eq(~self.sink.hsync),
             pads.vsync_n.eq(~self.sink.vsync),
-            pads.r.eq(self.sink.r[8-len(pads.r):]),
-            pads.g.eq(self.sink.g[8-len(pads.g):]),
-            pads.b.eq(self.sink.b[8-len(pads.b):]),
+            # black outside of the active area
+            If(self.sink.de,
+                pads.r.eq(self.sink.r[8-len(pads.r):]),
+                pads.g.eq(self.sink.g[8-len(pads.g):]),
+                pads.b.eq(self.sink.b[8-len(pads.b):])
+            ),
             pads.psave_n.eq(1)
         ]
 
-- 
2.43.0


From b4eecc1f45a80283bc4c9e627393c92b10e2a89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:24 +0000
Subject: [PATCH 16/23] fix: output/core: drop late words on the external vsync
 with genlock

---
 litevideo/output/core.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index baae83f..3a92108 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -59,6 +59,7 @@ class DMAReader(Module, AutoCSR):
         offset = Signal(dram_port.aw)
         self.delay_base = CSRStorage(32)
         self.idle = Signal() # no read going on or in flight
+        self.flush = Signal() # words left in the FIFO are to be dropped
         self.comb += [
             self.idle.eq(fsm.ongoing("IDLE") & (self.dma.rsv_level == 0)),
             base.eq(sink.base[shift:]),   # ignore the lower bits of the base + length to match the DMA's expectations
@@ -69,10 +70,16 @@ class DMAReader(Module, AutoCSR):
             self.v = Signal()
             self.v_r = Signal()
             self.sof = Signal()
+            sof_pending = Signal()
             self.sync += [
                 self.v.eq(genlock_stream.vsync),
                 self.v_r.eq(self.v),
                 self.sof.eq(self.v & ~self.v_r),
+                If(self.sof,
+                    sof_pending.eq(1)
+                ).Elif(fsm.ongoing("FLUSH"),
+                    sof_pending.eq(0)
+                )
             ]
 
         if genlock_stream == None:
@@ -113,10 +120,19 @@ class DMAReader(Module, AutoCSR):
                         self.sink.ready.eq(1),  # indicate we're ready for more parameters
                         NextState("WAIT_SOF")
                     )
+                ),
+                If(sof_pending & (~dram_port.cmd.valid | dram_port.cmd.ready), # late, give up this frame
+                    NextState("FLUSH")
                 )
             )
             fsm.act("WAIT_SOF",  # wait till vsync/start of frame
-                If(self.sof,
+                If(sof_pending,
+                   NextState("FLUSH")
+                )
+            )
+            fsm.act("FLUSH",  # drop what the previous frame did not show
+                self.flush.eq(1),
+                If(self.dma.rsv_level == 0,
                    NextState("IDLE")
                 )
             )
@@ -251,6 +267,9 @@ class VideoOutCore(Module, AutoCSR):
             ).Elif(source.valid & source.ready, # else if our DMA output stream has valid data, and is ready to accept addresses
                 timing.source.ready.eq(1),  # output stream of timing is ready to go, which kicks off the timing generator...
                 dma.source.ready.eq(timing.source.de | (mode == "raw"))  # and the DMA's DMAReader source ready is tied to the timing's DE signal
+            ),
+            If(dma.flush,
+                dma.source.ready.eq(1)
             )
         ]
 
-- 
2.43.0


From 844507e972b004ef49a2ad53997f2bd5d29b2ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:23 +0000
Subject: [PATCH 17/23] fix: output/hdmi/s6: allow pads without clk_p (VGA)

---
 litevideo/output/hdmi/s6.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/litevideo/output/hdmi/s6.py b/litevideo/output/hdmi/s6.py
index 10f9b3a..4ce0075 100644
--- a/litevideo/output/hdmi/s6.py
+++ b/litevideo/output/hdmi/s6.py
@@ -170,14 +170,15 @@ class S6HDMIOutClocking(Module, AutoCSR):
 
         # Drive HDMI clock pads
         hdmi_clk_se = Signal()
+        inverted = hasattr(getattr(pads, "clk_p", None), "inverted")
         self.specials += Instance("ODDR2",
                                   p_DDR_ALIGNMENT="NONE", p_INIT=0, p_SRTYPE="SYNC",
                                   o_Q=hdmi_clk_se,
                                   i_C0=ClockSignal("pix"),
                                   i_C1=~ClockSignal("pix"),
                                   i_CE=1,
-                                  i_D0=not hasattr(pads.clk_p, "inverted"),
-                                  i_D1=hasattr(pads.clk_p, "inverted"),
+                                  i_D0=not inverted,
+                                  i_D1=inverted,
                                   i_R=0, i_S=0)
         if hasattr(pads, "clk_p"):
             self.specials += Instance("OBUFDS", i_I=hdmi_clk_se,
-- 
2.43.0


From 60b648cd73f2cca5035442f219cea14fd909c5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 18/23] fix: output/core: read frames without a gap (raw mode
 repeated a symbol per frame)

---
 litevideo/output/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 3a92108..b5bd9f9 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -98,7 +98,11 @@ class DMAReader(Module, AutoCSR):
                     NextValue(offset, offset + 1), # increment the offset
                     If(offset == (length - 1),  # at the end...
                         self.sink.ready.eq(1),  # indicate we're ready for more parameters
-                        NextState("IDLE")
+                        NextValue(offset, 0),  # go on with the next frame, without a gap
+                        NextValue(frame_base, base),
+                        If(~sink.valid,
+                            NextState("IDLE")
+                        )
                     )
                 )
             )
-- 
2.43.0


From 03329cfd67ffd46bef6d1ba6f50407386e4f10e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 19/23] fix: output/pattern: hold the pixel while the consumer
 stalls

---
 litevideo/output/pattern.py | 48 ++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/litevideo/output/pattern.py b/litevideo/output/pattern.py
index 63da58b..e64461a 100644
--- a/litevideo/output/pattern.py
+++ b/litevideo/output/pattern.py
@@ -20,7 +20,7 @@ class ColorBarsPattern(Module):
         self.sync += [
             If(sink.valid,
                 source.valid.eq(1),
-                If(source.ready,
+                If(source.ready | ~source.valid,
                     If(pix == (sink.hres[3:]-1),
                         pix.eq(0),
                         bar.eq(bar + 1)
@@ -50,7 +50,7 @@ class ColorBarsPattern(Module):
                 source.g.eq(color_bar[i][1]),
                 source.b.eq(color_bar[i][2])
             ]
-        self.sync += Case(bar, cases)
+        self.sync += If(sink.valid & (source.ready | ~source.valid), Case(bar, cases))
 
 
 class VerticalLinesPattern(Module):
@@ -66,18 +66,18 @@ class VerticalLinesPattern(Module):
         self.sync += [
             If(sink.valid,
                 source.valid.eq(1),
-                If(source.ready,
-                    parity.eq(~parity)
-                ),
-                If(parity,
-                    source.r.eq(255),
-                    source.g.eq(255),
-                    source.b.eq(255)
-                ).Else(
-                    source.r.eq(0),
-                    source.g.eq(0),
-                    source.b.eq(0)
-               )
+                If(source.ready | ~source.valid,
+                    parity.eq(~parity),
+                    If(parity,
+                        source.r.eq(255),
+                        source.g.eq(255),
+                        source.b.eq(255)
+                    ).Else(
+                        source.r.eq(0),
+                        source.g.eq(0),
+                        source.b.eq(0)
+                    )
+                )
             )
         ]
 
@@ -96,7 +96,7 @@ class DotsPattern(Module):
         self.sync += [
             If(sink.valid,
                 source.valid.eq(1),
-                If(source.ready,
+                If(source.ready | ~source.valid,
                     If(h == (sink.hres-1),
                         # don't change parity:
                         # next line pixel will
@@ -105,16 +105,16 @@ class DotsPattern(Module):
                     ).Else(
                         h.eq(h+1),
                         parity.eq(~parity)
+                    ),
+                    If(parity,
+                        source.r.eq(255),
+                        source.g.eq(255),
+                        source.b.eq(255)
+                    ).Else(
+                        source.r.eq(0),
+                        source.g.eq(0),
+                        source.b.eq(0)
                     )
                 )
-            ),
-            If(parity,
-                source.r.eq(255),
-                source.g.eq(255),
-                source.b.eq(255)
-            ).Else(
-                source.r.eq(0),
-                source.g.eq(0),
-                source.b.eq(0)
             )
         ]
-- 
2.43.0


From e992f7e288324bb5aaee240be03568b2fe901edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:28 +0000
Subject: [PATCH 20/23] fix: reset syncs and last of the timing generator when
 its parameters are withdrawn

---
 litevideo/output/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index b5bd9f9..b08e42f 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -181,7 +181,10 @@ class TimingGenerator(Module):
                     hactive.eq(0),
                     vactive.eq(0),
                     hcounter.eq(0),
-                    vcounter.eq(0)
+                    vcounter.eq(0),
+                    source.hsync.eq(0),
+                    source.vsync.eq(0),
+                    source.last.eq(0)
                 ).Elif(source.ready,  # otherwise, if the thing downstream from us is ready...
                     source.last.eq(0),  # self.sync is blocking, so this will get over-ridden later as needed
                     hcounter.eq(hcounter + 1),
-- 
2.43.0


From 5f444e44b14a858d3f0859e924406ef80b3582de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:47 +0000
Subject: [PATCH 21/23] fix: a first pixel encoded like the video guard band is
 not part of it

---
 litevideo/input/decoding.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/litevideo/input/decoding.py b/litevideo/input/decoding.py
index 3384932..0c8ae92 100644
--- a/litevideo/input/decoding.py
+++ b/litevideo/input/decoding.py
@@ -316,7 +316,7 @@ class DecodeTERC4(Module, AutoCSR):
                 )
         fsm.act("GOING_VID",
                 If(all_vgb,
-                   NextState("GOING_VID")
+                   NextState("FIRST_VID")
                 ).Else(
                     NextState("VIDEO")
                 ),
@@ -325,6 +325,15 @@ class DecodeTERC4(Module, AutoCSR):
                 self.encrypting_video.eq(0),
                 self.de_hdmi.eq(0)
                 )
+        # the guard band has two characters: what follows is the first pixel,
+        # even when it is encoded by the same characters
+        fsm.act("FIRST_VID",
+                NextState("VIDEO"),
+                self.encoding_terc4.eq(0),
+                self.encrypting_data.eq(0),
+                self.encrypting_video.eq(0),
+                self.de_hdmi.eq(0)
+                )
         fsm.act("VIDEO",
                 If(any_cvalid,
                     NextState("INIT")
-- 
2.43.0


From 62124eb6b45125d2c89d46f35c6f8ac346022a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:18 +0000
Subject: [PATCH 22/23] fix: input/edid: a byte written after the offset is not
 an address

---
 litevideo/input/edid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/edid.py b/litevideo/input/edid.py
index 5d643da..1c95393 100644
--- a/litevideo/input/edid.py
+++ b/litevideo/input/edid.py
@@ -229,7 +229,7 @@ class EDID(Module, AutoCSR):
         fsm.act("ACK_OFFSET2",
             zero_drv.eq(1),
             If(~scl_i,
-                NextState("RCV_ADDRESS")
+                NextState("WAIT_START")
             )
         )
 
-- 
2.43.0


From f8a878a60474107f5e7fda0470c89895cb3e256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:04 +0000
Subject: [PATCH 23/23] fix: clearing the overflow register twice in a row
 could hide later losses

A second clear within a few clocks of the first could lose its pulse on the
way to the pixel clock domain (and the first one's with it): no acknowledge
came, the mask stayed up, and words lost later were never reported.
---
 litevideo/input/analysis.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index ae13fdb..5c69129 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -272,14 +272,27 @@ class FrameExtraction(Module, AutoCSR):
             self.overflow_reset_ack.i.eq(pix_overflow_reset)
         ]
 
+        # a reset asked for while another one is on its way is sent after it:
+        # closer pulses can be lost on their way, and no acknowledge would come
         overflow_mask = Signal()
+        overflow_again = Signal()
         self.comb += [
             self._overflow.w.eq(sys_overflow & ~overflow_mask),
-            self.overflow_reset.i.eq(self._overflow.re)
+            If(overflow_mask,
+                self.overflow_reset.i.eq(self.overflow_reset_ack.o & (self._overflow.re | overflow_again))
+            ).Else(
+                self.overflow_reset.i.eq(self._overflow.re)
+            )
         ]
-        self.sync += \
+        self.sync += [
             If(self._overflow.re,
                 overflow_mask.eq(1)
             ).Elif(self.overflow_reset_ack.o,
-                overflow_mask.eq(0)
+                overflow_mask.eq(overflow_again)
+            ),
+            If(self.overflow_reset_ack.o,
+                overflow_again.eq(0)
+            ).Elif(self._overflow.re,
+                overflow_again.eq(overflow_mask)
             )
+        ]
-- 
2.43.0

