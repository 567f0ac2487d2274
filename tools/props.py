CSC = "litevideo/csc/"
FLT = "litevideo/float_arithmetic/"

P("C01", "Stream converters pass every beat exactly once, in order, converted",
  "For the colour-space converters (RGB to/from YCbCr 4:4:4, 8-bit RGB to/from half-float RGB), the YCbCr 4:2:2 to 4:4:4 upsampler and the half-float adder and multiplier, every beat accepted at the sink (valid and ready) appears exactly once at the source, in acceptance order, with its own converted data and its own first/last markers. While the consumer stalls, the offered output stays valid and unchanged, and no output appears that was not accepted as input. No beat is lost or withheld forever, and the sink becomes ready again whenever the consumer accepts, for any valid/ready schedule.",
  ["schedules", "inputs", "histories"], "every interleaving of producer valid and consumer ready, with arbitrary data and packet markers",
  "The test benches stream one image with one pseudo-random ready pattern and look at the picture; they do not compare beats, markers or stalls.",
  [CSC + "rgb2ycbcr.py", CSC + "ycbcr2rgb.py", CSC + "rgb2rgb16f.py", CSC + "rgb16f2rgb.py", CSC + "ycbcr422to444.py", FLT + "floatadd.py", FLT + "floatmult.py"],
  [("datapath latency matched by the valid pipeline; clock enable while stalled", CSC + "rgb2ycbcr.py: RGB2YCbCr (PipelinedActor)"), ("parity-steered FIFOs", CSC + "ycbcr422to444.py: YCbCr422to444")],
  ["sink/source endpoints of each block"],
  "TLA+ queue specification (PixelStream) validated by TLC against recorded traces of the real blocks under random schedules",
  TRUST + "schedules are sampled (8 schedule classes per block), the check of each recorded cycle is exact.")

P("C02", "RGB to YCbCr conversion computes the XAPP930 equations exactly",
  "For every RGB input, RGB2YCbCr produces y = floor((A(r-g)+B(b-g))/2^cw)+g+2^(dw-4), cb = floor(C(b-yr)/2^cw)+2^(dw-1) and cr = floor(D(r-yr)/2^cw)+2^(dw-1), where yr = y-2^(dw-4) before saturation and A,B,C,D are 0.1819, 0.0618, 0.5512, 0.6495 scaled by 2^cw and truncated. Each result saturates to 0..2^dw-1 (dw = component width, equal for RGB and YCbCr; cw = coefficient width).",
  ["inputs", "configurations"], "all 2^24 pixels at the default widths; dw in 8..12 and cw in 6..10 for others",
  "The bench converts one picture and prints statistics; saturation corners and most of the 2^24 inputs are never seen.",
  [CSC + "rgb2ycbcr.py", CSC + "common.py"],
  [("8-stage datapath", CSC + "rgb2ycbcr.py: RGB2YCbCrDatapath"), ("saturation", CSC + "common.py: saturate")],
  ["sink r/g/b, source y/cb/cr"],
  "TLC evaluates the TLA+ ColorSpace function on all 2^24 pixels and compares plane digests with the real block's results",
  TRUST + "exhaustive at the default widths up to a 26-bit digest per 65536 pixels; other widths sampled.")

P("C03", "YCbCr to RGB conversion computes the XAPP931 equations exactly",
  "For every YCbCr input, YCbCr2RGB produces r = y0+floor(cr0*A/s), g = y0+floor(cb0*B/s)+floor(cr0*C/s), b = y0+floor(cb0*D/s) with y0 = y-2^(dw-4), cb0 = cb-2^(dw-1), cr0 = cr-2^(dw-1), s = 2^(cw-2) and A = 1/0.6495, B = -0.0618/(0.5512*0.7563), C = -0.1819/(0.6495*0.7563), D = 1/0.5512 scaled by s and truncated towards zero. Each result saturates to 0..2^dw-1.",
  ["inputs", "configurations"], "all 2^24 pixels at the default widths; dw in 8..12 and cw in 6..10 for others",
  "The bench converts one picture and prints statistics; saturation corners and most of the 2^24 inputs are never seen.",
  [CSC + "ycbcr2rgb.py", CSC + "common.py"],
  [("4-stage datapath", CSC + "ycbcr2rgb.py: YCbCr2RGBDatapath"), ("saturation", CSC + "common.py: saturate")],
  ["sink y/cb/cr, source r/g/b"],
  "TLC evaluates the TLA+ ColorSpace function on all 2^24 pixels and compares plane digests with the real block's results",
  TRUST + "exhaustive at the default widths up to a 26-bit digest per 65536 pixels; other widths sampled.")

P("C04", "Half-float pixel conversion is exact and lossless",
  "RGB2RGB16f turns an 8-bit component v into the half-precision number v/256 exactly (0 gives +0), and RGB16f2RGB turns every non-negative half-precision number x below 1.0 into floor(256 x). The three components are converted independently, and an 8-bit pixel sent through both comes back unchanged.",
  ["inputs"], "all 256 component values and all 15360 half-precision numbers in [0, 1)",
  "The benches save a converted picture without comparing values.",
  [CSC + "rgb2rgb16f.py", CSC + "rgb16f2rgb.py", FLT + "common.py"],
  [("leading-one detection, shift and pack", CSC + "rgb2rgb16f.py: PIX2PIXFDatapath"), ("exponent-driven shift", CSC + "rgb16f2rgb.py: PIXF2PIXDatapath"), ("lookup table", CSC + "rgb2rgb16f.py: PIX2PIXFLUT")],
  ["sink/source endpoints"],
  "exhaustive rows against the TLA+ HalfFloat functions, checked by TLC",
  TRUST + "exhaustive over the value domain on each component.")

P("C05", "Chroma resampling averages and replicates the right pixel pairs",
  "YCbCr444to422, fed without gaps and with its line start input raised on the first pixel of each line, emits for each pixel pair (p0, p1) counted from there: y0 with the mean of the two cb (rounded down), then y1 with the mean of the two cr, unaffected by output stalls. YCbCr422to444 emits for each pair y0 and y1 both with the cb of the first and the cr of the second beat, for any valid/ready schedule.",
  ["schedules", "inputs"], "arbitrary pixel data and stall patterns (gap-free input for the downsampler)",
  "The benches show a picture; pair alignment and rounding are not compared and stalls are of one kind.",
  [CSC + "ycbcr444to422.py", CSC + "ycbcr422to444.py"],
  [("pair parity", CSC + "ycbcr444to422.py: YCbCr444to422Datapath"), ("parity-steered FIFOs", CSC + "ycbcr422to444.py: YCbCr422to444")],
  ["sink/source endpoints, the first input of the downsampler datapath"],
  "TLA+ pair specification (PixelStream) validated by TLC against recorded traces",
  TRUST + "schedules and data are sampled.")

P("C06", "Half-float addition returns the exact sum rounded towards zero",
  "For any two finite non-negative half-precision operands whose sum is below 65536, FloatAdd returns the exact sum rounded towards zero, including zero and subnormal operands and results. The result of each operand pair does not depend on its neighbours in the pipeline.",
  ["inputs", "histories"], "all pairs of finite non-negative operands with a finite sum",
  "The bench adds the same pair five times and prints it.",
  [FLT + "floatadd.py", FLT + "common.py"],
  [("align, add, normalise", FLT + "floatadd.py: FloatAddDatapath"), ("leading-one detector", FLT + "common.py: LeadOne")],
  ["sink in1/in2, source out"],
  "TLC evaluates the TLA+ HalfFloat!FAddMag function; rows and full second-operand sweeps compared with the real adder",
  TRUST + "first operands are boundary and random values (about 240 quick, about 5000 thorough), each against all 31744 second operands.")

P("C07", "Half-float multiplication returns the exact product rounded towards zero",
  "For any two finite half-precision operands whose product is below 65536 in magnitude, FloatMult returns the exact product rounded towards zero with the sign being the exclusive or of the operand signs (a zero operand gives zero), including subnormal operands and results. The result of each operand pair does not depend on its neighbours in the pipeline.",
  ["inputs", "histories"], "all pairs of finite operands with a finite product",
  "The bench multiplies the same pair five times (by zero) and prints it.",
  [FLT + "floatmult.py", FLT + "common.py"],
  [("multiply, normalise, pack", FLT + "floatmult.py: FloatMultDatapath"), ("leading-one detector", FLT + "common.py: LeadOne")],
  ["sink in1/in2, source out"],
  "TLC evaluates the TLA+ HalfFloat!FMulMag function; rows and full second-operand sweeps compared with the real multiplier",
  TRUST + "first operands are boundary and random values (about 240 quick, about 5000 thorough), each against all 31744 second operands.")

INP = "litevideo/input/"
OUT = "litevideo/output/"

P("T01", "TMDS encoder emits DVI 1.0 symbols with bounded running disparity",
  "For every sequence of inputs, the TMDS encoder's output, after a fixed latency, is the DVI 1.0 symbol: the control token of the 2-bit control code when data enable is low (which resets the running disparity), and otherwise the transition-minimised, DC-balanced code of the byte given the disparity of the symbols already sent. The running disparity stays within the DVI bound, whatever the data.",
  ["inputs", "histories"], "every byte from every reachable disparity, every control code, every transition between them",
  "No stable test instantiates the encoder; disparity depends on the whole history.",
  [OUT + "hdmi/encoder.py"],
  [("three-stage encoder with running count", OUT + "hdmi/encoder.py: Encoder")],
  ["encoder inputs d, c, de and output out"],
  "TLC checks the TLA+ TMDS encoder (inverse, balance) and generates a transition tour replayed in the real encoder; random histories validated",
  TRUST + "exhaustive over (disparity, byte) pairs and control codes.", state=[("cnt", "running disparity", OUT + "hdmi/encoder.py: Encoder")])

P("T02", "TMDS decoder inverts the encoder for every symbol",
  "Every 10-bit symbol decodes, after a fixed latency, to the DVI byte, control code and data-enable it stands for: the four control tokens give data-enable low with their code, every other symbol gives data-enable high and the byte obtained by undoing inversion and XOR/XNOR chaining. Encoder followed by decoder is the identity on every history of bytes and control codes, and the undecoded symbol is passed along with the same latency.",
  ["inputs", "histories"], "all 1024 symbols and every encoder history",
  "No stable test instantiates the decoder.",
  [INP + "decoding.py", INP + "common.py"],
  [("two-stage decoder", INP + "decoding.py: Decoding")],
  ["decoder inputs and data_o record"],
  "TLA+ TMDS decoder; TLC compares all 1024 symbols and validates encoder-decoder round trips recorded from the real blocks",
  TRUST + "exhaustive over symbols.")

P("I01", "Symbol synchroniser locks to any bit phase and delivers the symbols",
  "Whatever bit phase the 10-bit words arrive in, once the required number of consecutive control characters has been seen at one bit position the synchroniser reports synchronised and from then on delivers the transmitted symbols, one per word and unshifted. Data symbols never move the lock, it never reports synchronised before such a run, and after a change of phase the next such run moves the lock to the new position. The status registers show whether it is synchronised and at which position.",
  ["inputs", "histories"], "all ten bit phases, every pattern of control characters, phase changes, interrupted runs",
  "No stable test instantiates the synchroniser.",
  [INP + "charsync.py"],
  [("control position history and counter", INP + "charsync.py: CharSync")],
  ["raw_data, data, synced, status registers"],
  "TLA+ synchroniser specification (HDMIRx!Chr) validated by TLC on recorded traces over all phases",
  TRUST + "histories are sampled.")

P("I02", "Channel synchroniser removes inter-channel skew",
  "With three data channels skewed by less than the buffer depth, lines with blanking longer and active periods at least as long as the buffer, the channel synchroniser reports synchronised within two lines and from then on outputs words of the three channels that were transmitted together, each channel's words in order. When its outputs disagree on data enable it stops reporting synchronised one clock later, and it reports unsynchronised whenever the input is not valid. The status register follows.",
  ["inputs", "histories"], "every skew combination below the depth, arbitrary pixel data and line timing within the stated limits",
  "No stable test instantiates the channel synchroniser.",
  [INP + "chansync.py"],
  [("per-channel delay buffers and window detection", INP + "chansync.py: ChanSync")],
  ["data_in/data_out records, chan_synced"],
  "TLC model checks the TLA+ channel synchroniser for alignment and takes the product with the state machine extracted from the code; traces validated",
  TRUST + "alignment model-checked at small line sizes, product and traces at the real depth.")

P("I03", "HDMI period decoder tells video, control and data-island periods apart",
  "The decoder tells video, control and data-island periods apart from preambles and guard bands exactly as the HDMI period rules say, so that data enable covers exactly the video pixels, also when the first of them are encoded by the characters of the guard band, and the island flag exactly the data island with its guard bands; in DVI mode data enable is that of the character decoder, and each TERC4 character gives its 4-bit value. After any corrupted or missing character it recovers at the next preamble.",
  ["inputs", "histories"], "all sequences of periods, preambles, guard bands and corrupted characters",
  "No stable test instantiates the decoder.",
  [INP + "decoding.py"],
  [("period state machine", INP + "decoding.py: DecodeTERC4")],
  ["decoder inputs and outputs"],
  "TLA+ period machine (HDMIRx!T4) validated by TLC on recorded traces and on the product with the extracted machine",
  TRUST + "the machine product is exact for the letters used; symbol values are sampled beyond them.")

P("I04", "Sync polarity normaliser gives active-high syncs and aligned pixels",
  "Whatever the source's hsync and vsync polarities, the normaliser outputs active-high hsync and vsync during blanking (relative to the levels seen at the end of each active line), zero at the start of each active line, together with data enable and the r, g, b of the same character. Data enable, syncs and pixels keep one common latency and the raw symbols are passed through unchanged.",
  ["inputs", "histories"], "all four polarity combinations and arbitrary sequences of control codes and data enable",
  "No stable test instantiates it.",
  [INP + "analysis.py"],
  [("polarity capture at the end of active video", INP + "analysis.py: SyncPolarity")],
  ["data_in records, de, hsync, vsync, r, g, b"],
  "product of the TLA+ specification (Capture!Pol) with the extracted machine, checked by TLC; whole frames validated",
  TRUST + "exhaustive over control/data-enable sequences; pixel values sampled.")

P("I05", "Resolution registers show the size of the incoming picture",
  "After two complete frames of a stable W x H picture the horizontal and vertical resolution registers read W and H (modulo the counter width). They read zero while the input is not valid, and follow a change of size with the next line (horizontal) or frame (vertical).",
  ["inputs", "histories"], "every sequence of valid, data enable and vsync; sizes up to the counter width",
  "No stable test instantiates it.",
  [INP + "analysis.py"],
  [("line and pixel counters", INP + "analysis.py: ResolutionDetection")],
  ["hres and vres registers"],
  "product of the TLA+ specification (Capture!Res) with the extracted machine, checked by TLC; frames up to 2047 wide validated",
  TRUST + "exhaustive with 2-bit counters; the 11-bit configuration on traces.")

P("I06", "Frame extraction packs every pixel of a frame in order, or says it lost some",
  "The frame stream carries, in order, the pixels of each captured frame packed first-pixel-first into words (RGB, or YCbCr 4:2:2 of the frame), the first word after vsync marked start of frame, an incomplete last word of a frame dropped and never mixed into the next frame. A word is lost only when the buffer is full, in which case the overflow register reads 1 until it is cleared, and it never reads 1 when nothing was lost.",
  ["inputs", "schedules", "histories"], "frame sizes, word widths, pixel and system clock ratios, reader stalls, overflow and clearing",
  "No stable test instantiates it; overflow needs particular clock and reader schedules.",
  [INP + "analysis.py"],
  [("packing counter", INP + "analysis.py: FrameExtraction"), ("asynchronous FIFO and overflow flag crossing", INP + "analysis.py: FrameExtraction")],
  ["pixel inputs, frame endpoint, overflow register"],
  "TLA+ specification with bounded non-determinism about the buffer (Capture!Frm) validated by TLC on recorded two-clock traces",
  TRUST + "schedules are sampled.")

P("I07", "Frame DMA writes each frame to the loaded slot and nothing else",
  "Each captured frame starting while a slot is loaded is written word by word to consecutive addresses from that slot's address, exactly the configured frame size and never outside it, starting with the start-of-frame word. When the last word has been handed to memory, and not before, that slot reads pending with its address register at the end of the frame, its enabled interrupt is raised, and the lowest-numbered loaded slot is used next; frames with no slot loaded are discarded whole. Addresses and frame size are in bytes, what is less than a memory word being ignored.",
  ["schedules", "histories", "configurations"], "slot counts, frame sizes, memory stalls, source gaps and any timing of software register writes",
  "No stable test instantiates it; needs particular interleavings of memory stalls and software writes.",
  [INP + "dma.py"],
  [("transfer state machine", INP + "dma.py: DMA"), ("slot selection", INP + "dma.py: _SlotArray"), ("slot status and interrupt", INP + "dma.py: _Slot")],
  ["frame endpoint, memory port, slot registers, interrupt"],
  "TLA+ specification (Capture!Dma) validated by TLC on recorded traces with stalls and concurrent software",
  TRUST + "schedules are sampled.")

P("I08", "EDID channel answers I2C reads at 0x50 and nothing else",
  "While hot plug is enabled, the slave acknowledges exactly the address bytes 0xA0 and 0xA1, takes the byte after 0xA0 as the read offset and ignores what is written after it, and after 0xA1 sends memory bytes from the current offset most significant bit first, one per master acknowledge, wrapping at the end of the memory. It never drives SDA high, changes SDA only while SCL is low, releases it after a NACK, and stays silent otherwise and whenever hot plug is disabled; the built-in EDID blocks have valid headers and checksums.",
  ["inputs", "histories"], "all address bytes and offsets, any transfer lengths, repeated starts, aborted transfers, hot-plug changes at any point",
  "No stable test instantiates it.",
  [INP + "edid.py"],
  [("I2C slave state machine", INP + "edid.py: EDID"), ("open-drain pads", INP + "edid.py: EDID")],
  ["SCL/SDA pads, hot plug pads and registers"],
  "TLC model checks the TLA+ channel specification under any master and validates bus-level traces of the real block",
  TRUST + "all addresses, all offsets and the whole memory; other sessions sampled.")

P("I09", "Word error rate register counts over-transition characters per window",
  "For each window of 2^period_bits received words, the register shows, shortly after the window ends, the number of words in it (the one on the window boundary excepted) that are not control characters and have more than four transitions within their first nine bits. The register changes only when software asks for an update. In a receiver every channel has a counter of its own, which counts that channel's characters as the symbol synchroniser delivers them.",
  ["inputs", "histories"], "every word sequence, window lengths, update requests at any time; a whole receiver with each channel at its own bit phase",
  "No stable test instantiates it.",
  [INP + "wer.py"],
  [("transition counter, window counter, clock crossing", INP + "wer.py: WER"), ("one counter per channel", INP + "__init__.py: HDMIIn")],
  ["data input, update and value registers"],
  "TLA+ specification (HDMIRx!Wer) validated by TLC on recorded traces",
  TRUST + "word sequences are sampled.")

P("I10", "Captured words are the received bits, in order, ten per pixel clock",
  "On each data channel the words delivered are, ten bits at a time and oldest first, exactly the bits the deserialiser received, with no bit lost, repeated or reordered, with a bounded and constant place in the stream from reset to the next reset, for every alignment of the word clock to the group clock when they leave reset, with small jitter. Channels with inverted pads deliver the complement. The delay lines and deserialisers are connected to the pads of the channel, in the vendor's bit order, group size and data rate, on the bit and group clocks, with the cascade, strobe and reset they need.",
  ["schedules", "inputs", "configurations", "histories"], "bit streams, start alignments of the two clocks (20 on 7 series, 2 on Spartan-6), jitter, resets in mid-stream, both families, inverted and straight pads",
  "No test instantiates the capture blocks; the gearbox works over a pair of clocks whose alignment decides which words it can tear.",
  [INP + "datacapture.py"],
  [("group to word conversion", INP + "datacapture.py: S7DataCapture, S6DataCapture"), ("deserialiser connections", INP + "datacapture.py: S7DataCapture, S6DataCapture")],
  ["deserialiser data outputs, delay line and deserialiser ports, d"],
  "TLA+ specification of the bit stream (DataCapture!Des, nondeterministic place in the stream) and of the connections (Wires*, Mode*), evaluated by TLC on recorded runs of the capture blocks at every start alignment",
  TRUST + "vendor primitives are taken at their documented function; bit streams are sampled, start alignments enumerated.")

P("I12", "Delay commands and phase error readings act as the calibration loop needs",
  "Each delay command written by software causes exactly one pulse, on the delay line it names and in the direction it names, a few delay clocks later, and nothing else moves a delay line. On Spartan-6 busy shows from the command until that delay line has finished. The phase accumulator moves by one per transition (7 series) or valid detector sample (Spartan-6) in the direction the detector shows, stays still while a delay line is busy, and holds at either end until reset; the register shows which end was reached. The delay values read by software are ones the delay line had, never a mixture of two.",
  ["schedules", "histories", "configurations"], "command histories, ratios and phases of the two clocks, detector histories and drifts, both families, accumulator widths, pad polarities",
  "No test covers it; a lost pulse or torn value needs a particular relation of the two clocks.",
  [INP + "datacapture.py"],
  [("command pulses", INP + "datacapture.py: do_delay_*"), ("accumulator", INP + "datacapture.py: lateness"), ("phase detector", INP + "datacapture.py: S7PhaseDetector"), ("read back", INP + "datacapture.py: sync_mcntvalue")],
  ["dly_ctl, dly_busy, phase, phase_reset, cntvalueout registers; delay line ports; deserialiser outputs"],
  "TLA+ specifications (DataCapture!Ctl, Bsy, Lat, Cnt: crossing delays nondeterministic) validated by TLC on recorded runs under many clock relations",
  TRUST + "histories are sampled; software is assumed to leave a few ticks of both clocks between commands and, on Spartan-6, to wait for busy to clear.")

P("I13", "Recovered clocks: rates, lock status, resets and reconfiguration",
  "The receiver's pixel, group and bit clocks come from the channel clock (complemented for inverted pads) through the generator outputs with the right rates, with feedback closed. The generator starts in reset. The locked register and signal follow the generator's lock within three system clocks. Every clock domain driven by a generator is held in reset while that generator has no lock, and released after. Each read or write command of the reconfiguration registers, also of the second generator with split clocking, is one access with the programmed address and data, and ready is cleared by a command and set by its completion.",
  ["schedules", "histories", "configurations"], "command histories, lock histories, both families, input frequencies, split clocking, pad polarity",
  "No test instantiates the clocking; rates and reset sources are only visible on hardware.",
  [INP + "clocking.py"],
  [("clock generators", INP + "clocking.py: S6Clocking, S7Clocking"), ("lock and resets", INP + "clocking.py: locked, AsyncResetSynchronizer"), ("reconfiguration port", INP + "clocking.py: _pll_*, _mmcm_*")],
  ["clock generator ports, clock domains, locked, registers"],
  "TLA+ specifications (VideoOut!Drp, DataCapture!Lck, Clocks) evaluated by TLC on recorded register and lock histories and on the elaborated clock network",
  TRUST + "clock buffers are taken to pass their clock; generators at their documented multiplication and division.")

P("I11", "HDMI receiver delivers the transmitted picture from characters to memory",
  "For a stable source of any even picture size, sync polarity, channel skew within the alignment depth and word phase, the receiver's pixel outputs (data enable, active-high syncs, r, g, b) are the transmitted ones with one constant delay, in DVI and HDMI framing (guard bands, preambles and data islands carrying constant sync levels excluded from the picture). Each frame captured into a loaded DMA slot is, word for word, the transmitted frame at the slot's address, and the resolution registers show the transmitted size. It does so again after another source, or none, was connected before. When memory falls behind, a filled slot still holds one whole frame unless the overflow flag was set meanwhile, and whole frames follow by themselves once memory keeps up.",
  ["inputs", "configurations", "schedules"], "picture sizes and contents, polarities, phases, skews, clock ratios, DVI/HDMI framing, RGB/YCbCr capture, sources connected before",
  "No stable test instantiates the receiver; the blocks can each be right and the composition wrong.",
  [INP + "__init__.py", INP + "charsync.py", INP + "chansync.py", INP + "decoding.py", INP + "analysis.py", INP + "dma.py"],
  [("wiring and latency matching of the receive chain", INP + "__init__.py: HDMIIn"), ("delay of the channels in HDMI mode", INP + "__init__.py: TimingDelayChannel")],
  ["deserialised words in; pixel outputs, memory port, resolution registers out"],
  "TLA+ composition (Capture!Pix, RcvFrame, ResRow) validated by TLC on recorded runs of the assembled HDMIIn",
  TRUST + "sources are sampled; the deserialisers and clocking are replaced by word sources.")

OUT = "litevideo/output/"
TER = "litevideo/terminal/"

P("O01", "Video timing generator draws exactly the programmed raster",
  "While frame parameters are offered, the timing generator's output is always valid and steps once per accepted cycle through columns 0..hscan of lines 0..vscan, preceded by one blank step. Data enable is high exactly for columns below hres of lines below vres, hsync exactly for hsync_start <= column < hsync_end, vsync exactly for vsync_start <= line < vsync_end. Nothing advances while the consumer stalls. The parameters are taken exactly on the last step of the frame, so the next frame starts with the next set and no frame mixes two. Without parameters there is no output and no data enable, and the next start is from column 0 of line 0.",
  ["schedules", "inputs", "histories"], "every raster (1 <= sync start <= end <= scan, 1 <= resolution <= scan + 1), every valid/ready history, any sequence of parameter sets",
  "The core bench prints a few frames and does not pass on the pinned tree; back pressure, parameter changes and 12-bit extremes are not tested.",
  [OUT + "core.py", OUT + "common.py"],
  [("horizontal and vertical counters", OUT + "core.py: TimingGenerator"), ("parameter layout", OUT + "common.py")],
  ["timing generator sink and source"],
  "TLA+ raster specification (VideoOut!Tim): product with the machine extracted from the code over every history at small rasters, and recorded traces at large ones, checked by TLC",
  TRUST + "exhaustive over histories for the small rasters explored, sampled for large ones.")

P("O02", "Video core outputs whole frames of consecutive memory words on the raster",
  "Once enabled, the core outputs frames on the programmed raster. The pixels of a frame are the consecutive memory words from one base address, in order, one per active position (raw mode: per position), base and length being in bytes with what is less than a memory word ignored, whatever the memory latency, the consumer's stalls or the clock ratio; late data stalls the raster and never skips or repeats a word. Parameters and base written while running apply to whole frames, in order, within a bounded number of frames. After disabling, a new start begins again with the first word of a frame. Offered output and read commands stay stable until accepted, and read data is never refused. With an external raster (genlock), the output follows it, and every frame after a vsync shows its own words if memory keeps up from that vsync on.",
  ["schedules", "histories", "configurations", "inputs"], "memory and consumer schedules, pixel/system clock ratios, register write histories (8-bit and 32-bit register buses), modes, buffer depths",
  "The core bench needs a particular memory model, prints values and does not pass; restarts, late memory, base changes and genlock are not tested.",
  [OUT + "core.py", OUT + "common.py"],
  [("parameter queue between clock domains", OUT + "core.py: Initiator"), ("frame reader", OUT + "core.py: DMAReader"), ("merging and flush", OUT + "core.py: VideoOutCore")],
  ["core source, memory port, registers"],
  "TLA+ specification (VideoOut!Vid, Gen) with sets of hypotheses about the queued parameters, validated by TLC on recorded traces of the core behind its register bank and an adversarial memory",
  TRUST + "histories are sampled; frame length at least the reader's buffer depth; resolutions change only while disabled; raw mode with memory never late.")

P("O03", "Underflow counter counts the cycles without output while enabled",
  "While underflow counting is enabled, the counter increments on every pixel clock on which the core offers no output, and on no other; it is zero while counting is disabled. The value read changes only after software asks for an update and is then the count at that moment. Both controls act within a few cycles of either clock.",
  ["schedules", "histories"], "any enable/update history, memory lateness, consumer stalls, clock ratio",
  "No stable test instantiates it.",
  [OUT + "core.py"],
  [("counter and synchronisers", OUT + "core.py: VideoOutCore (underflow detection)")],
  ["underflow registers, core output valid"],
  "TLA+ specification (VideoOut!Und) with bounded non-deterministic clock crossings, validated by TLC on recorded traces",
  TRUST + "histories are sampled.")

P("O04", "Connector carries the memory picture, aligned with its syncs",
  "From memory to the connector, every active position of the raster shows its own pixel. HDMI (Spartan-6 and 7-series): each serialiser transmits, least significant bit first and inverted where the pad is, the TMDS character of blue, green and red on channels 0, 1, 2, with hsync and vsync as channel 0's control bits in blanking and zero on the others, the running disparity restarting each blanking, and the clock pattern on the clock channel. VGA: most significant bits of each component in the active area, black outside, active-low syncs. This holds in rgb mode and in ycbcr422 mode (pixels upsampled and converted as the stand-alone converters specify). Raw mode transmits the three 10-bit symbols of each memory word, one word per pixel clock without gap or repeat.",
  ["inputs", "configurations"], "pictures, rasters, base addresses; device families, HDMI/VGA/raw, rgb/ycbcr422, pad polarities and widths, external clocking",
  "No test instantiates VideoOut, a driver or the serialisers; alignment of data and syncs across the conversion pipeline is only visible end to end.",
  [OUT + "__init__.py", OUT + "driver.py", OUT + "hdmi/encoder.py", OUT + "hdmi/s6.py", OUT + "hdmi/s7.py"],
  [("latency matching of data and syncs", OUT + "__init__.py: VideoOut, TimingDelay"), ("channel assignment, serialiser wiring", OUT + "hdmi/s7.py, hdmi/s6.py: PHY and EncoderSerializer"), ("VGA pads", OUT + "driver.py: VGAPHY")],
  ["serialiser data inputs, VGA pads"],
  "TLA+ specification (VideoOut!Wire, Raw, composed of the raster, ColorSpace and TMDS modules) validated by TLC on recorded runs of the assembled VideoOut",
  TRUST + "pictures and rasters are sampled; vendor serialisers are taken to send D1 first as their documentation says; memory keeps up.")

P("O05", "Test pattern generators draw their pattern pixel by pixel",
  "Given a line length, each pattern source offers a gapless pixel stream. Colour bars: eight bars of hres/8 pixels in the order white, yellow, cyan, green, magenta, red, blue, black, on every line. Vertical lines: alternately black and white pixels. Dots: alternate pixels, shifted by one on every line. Pixels are neither lost, repeated nor changed by stalls of the consumer.",
  ["inputs", "schedules"], "line lengths up to 12 bits (multiple of 8 for bars, even for dots), any stall schedule",
  "No test instantiates the patterns.",
  [OUT + "pattern.py"],
  [("pixel and bar counters", OUT + "pattern.py")],
  ["pattern sinks and sources"],
  "TLA+ specification (VideoOut!Pat) validated by TLC on recorded traces",
  TRUST + "line lengths and stall schedules are sampled.")

P("O06", "Output clock programming reaches the clock primitives intact",
  "A command written to the Spartan-6 clock generator is shifted out least significant bit first on ten consecutive clocks with programming enable high exactly then, or for one clock on go; busy is set from the command until the required gap after it. PLL/MMCM reconfiguration reads and writes appear on the DRP port as one enabled clock with the register's address, data and write flag; the ready flag is cleared by a request and set by the primitive's ready. Resets and lock status follow their registers and primitives. The pixel and serialiser clocks come from the reference clock through the right generator outputs, in the right proportions, with feedback closed.",
  ["inputs", "histories"], "any register write history that respects busy, any timing of the primitives' answers",
  "No test instantiates the clocking; its errors show only in hardware.",
  [OUT + "hdmi/s6.py", OUT + "hdmi/s7.py"],
  [("command shifter and gap counter", OUT + "hdmi/s6.py: S6HDMIOutClocking"), ("DRP bridge", OUT + "hdmi/s7.py: S7HDMIOutClocking")],
  ["registers, DCM_CLKGEN/PLL_ADV/MMCME2_ADV ports"],
  "TLA+ specifications (VideoOut!Dcm, Drp, DataCapture!Lck, Clocks) evaluated by TLC on recorded traces and the elaborated clock network",
  TRUST + "histories are sampled; the vendor primitives themselves are outside.")

P("V01", "Terminal generates the documented VGA raster",
  "Counted from the falling edges, every line is 800 clocks with hsync low for 96, and every picture is 521 lines with vsync low for 2, for ever and whatever the memory holds.",
  ["histories"], "unbounded running time, sampled over several pictures; any memory contents",
  "No test instantiates the terminal; a test of one line does not see a drift over a picture.",
  [TER + "core.py"],
  [("pixel and line counters", TER + "core.py: Terminal")],
  ["hsync, vsync"],
  "TLA+ specification (Terminal!Ras) validated by TLC on run-length encoded recordings",
  TRUST + "three pictures from reset (eight in the thorough tier).")

P("V02", "Terminal shows every character cell with its glyph and colours",
  "On the 640x480 active area (clocks 144..783 of lines 31..510) the pixel at column x of line y is the foreground colour (low nibble of the colour byte of cell (y/16)*80 + x/8) where bit 7-(x mod 8) of byte (y mod 16) of the cell's glyph is one, and the background colour (high nibble) elsewhere, in the 16-colour VGA palette. Everything outside is black. Glyphs come from the font in memory, initially code page 437.",
  ["inputs"], "any memory contents (text, colours, font)",
  "No test instantiates the terminal.",
  [TER + "core.py"],
  [("fetch pipeline and shifter", TER + "core.py: Terminal"), ("palette", TER + "core.py: palette")],
  ["red, green, blue, syncs"],
  "TLA+ rendering function (Terminal!TextLine) evaluated by TLC on recorded scan lines",
  TRUST + "memory contents are sampled; not written while scanned.")

P("V03", "Terminal memory is a memory on the bus",
  "Every bus request (cyc and stb) is acknowledged exactly once, within a bounded number of clocks, and nothing else is. A read returns the last value written to that address, or the initial contents, over the whole 8896-byte map; writes change only their address. Display scanning in its own clock domain never disturbs it.",
  ["histories", "schedules"], "any sequence of reads and writes, any spacing, any clock ratio",
  "No test instantiates the terminal.",
  [TER + "core.py"],
  [("acknowledge and write port", TER + "core.py: Terminal (wishbone)")],
  ["wishbone bus"],
  "TLA+ memory specification (Terminal!Wb) validated by TLC on recorded traces",
  TRUST + "histories are sampled; every address is visited.")

P("E01", "A picture in memory crosses the link into the receiver's memory unchanged",
  "A picture displayed from memory by the video output, carried bit by bit over the link's three data pairs with any bit offset and skew between pairs within the receiver's range, and captured by the receiver from its pads, arrives in the receiver's memory complete, in raster order and at the loaded addresses, each pixel being the transmitted one through the documented colour conversions of the two ends only. Lock, synchronisation and resolution registers then show it. This holds for either FPGA family at either end, with inverted pairs at either end, and for DVI and HDMI receivers.",
  ["configurations", "inputs", "schedules"], "rasters, memory contents, bit offsets and skews, relations of the system clock to the link's clocks, families, modes, pad polarities",
  "Every block can be right on its own and the system still lose, shift or exchange pixels; nothing instantiates output and receiver together.",
  [OUT + "__init__.py", OUT + "core.py", OUT + "hdmi/s6.py", OUT + "hdmi/s7.py", OUT + "hdmi/encoder.py", INP + "__init__.py", INP + "datacapture.py", INP + "charsync.py", INP + "chansync.py", INP + "decoding.py", INP + "analysis.py", INP + "dma.py"],
  [("output chain", OUT + "__init__.py: VideoOut"), ("receive chain", INP + "__init__.py: HDMIIn")],
  ["output memory port, pads of both ends, receiver memory port, status registers"],
  "TLA+ composition (Loop: VideoOut!Pixel into Capture!RcvFrame) evaluated by TLC on runs of the complete output and the complete receiver joined pad to pad",
  TRUST + "vendor primitives are replaced by models of their documented function; rasters and links are sampled.")
