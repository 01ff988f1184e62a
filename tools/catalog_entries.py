RTL = "explicit-state model checking of the real RTL (every reachable state of the elaborated design in closed loop with a nondeterministic environment)"
TRUST = "Trusted: yosys' RTLIL reading, /verif/mc/gen.py (RTLIL to C++), the reference model in mc/h/ref.h and frame.h; recorded paths are replayed cycle by cycle on nmigen's own simulator in every run. "

p("C01", "Every pixel difference is entropy-coded as the LJ92 standard prescribes",
  "For every pixel value and prediction at every supported bit depth (2 to 16), the difference, class and code stages emit exactly the Huffman code word of the difference's class followed by the standard's additional bits, with the right length. The emitted code is uniquely decodable back to the same pixel, differences wrap modulo 2^16, valid and end marks travel with their data and gaps in the input change nothing.",
  ["inputs", "schedules"], "every (pixel, prediction) pair (all 2^(2n) up to depth 13 quick / 16 thorough, all pixels x boundary predictions above), every valid pattern of 12 cycles, several lanes",
  "Unit tests feed a few hundred random differences at one depth to each stage separately; they never compare the stages together against the standard and never reach the wrap at depth 16.",
  [M+"difference.py", M+"normalize.py", M+"encode.py"], [("difference, class and code word tables", M+"normalize.py build_neg_tree, encode.py init_huff_table")],
  TRUST + "Exhaustive over pixel x prediction for depths up to 13 (quick) or 16 (thorough); every gap pattern of 12 cycles.", ["enc_out", "enc_ctr", "valid_out", "end_out"], RTL)
p("C02", "Predictor 1 over four interleaved components, independent of stalls",
  "Whatever pattern of stalls the input has, every pixel leaves the predictor exactly once, in order, with the prediction LJ92 predictor 1 gives for four interleaved components: the same component's previous pixel in the row, the pixel of the first group above at the start of a row, half scale at the start of the frame. The end-of-frame mark leaves with the last group.",
  ["schedules", "inputs"], "all stall schedules over frames of several widths with distinct pixels, and all frames over a small alphabet, for 1, 2 and 4 pixels per cycle",
  "Tests stream two frames without stalls, at one width per lane count.",
  [M+"predictor_p1_c4_pix1_2.py", M+"predictor_p1_c4_px4.py"], [("delay lines and row-start registers", M+"predictor_p1_c4_pix1_2.py")],
  TRUST + "Complete state space per frame geometry; widths up to 16 pixels with four rows, plus frames of 8192x3, 65532x2 and a few pixels by 20000 rows (all stall schedules).", ["pixels_out", "predics_out", "end_out"], RTL)
p("C03", "Row starts and the frame's end are marked at exactly the right pixel",
  "For every frame height and width (a multiple of the pixels per cycle) the geometry unit marks the first group of every row and the last group of the frame, and no other, whatever stalls the input has. Single-row frames and single-group rows are included.",
  ["inputs", "schedules"], "all heights and widths up to a bound with every stall schedule, plus the largest sizes the 16-bit registers allow",
  "The unit test runs one geometry without stalls.",
  [M+"signals.py"], [("row and column counters", M+"signals.py")], TRUST + "All stall schedules for sizes up to 12x14 groups (quick), 40x40 (thorough) and extreme sizes; without stalls every row length the registers allow with two rows, and every number of rows of one and two groups.", ["new_row", "end_of_frame"], RTL)
p("C04", "Merging code words of several lanes concatenates them without loss",
  "For every combination of code lengths and any valid pattern, the merge stage outputs exactly the concatenation of the lanes' code words (first lane in the most significant position), the sum of the lengths and the end mark of the same group.",
  ["inputs", "schedules"], "all combinations of code lengths for 2 to 4 lanes (boundary lengths for 5 to 8), for all-ones, distinct and boundary payloads",
  "The tests use random lengths; the shifts are wide and one wrong width only shows on maximal lengths.",
  [M+"merge.py"], [("merge tree", M+"merge.py")], TRUST + "Exhaustive over lane lengths; payloads by a fixed set of patterns per length.", ["enc_out", "enc_out_ctr"], RTL)
p("C11", "An over-long frame is ended by force, with a closed and complete stream",
  "If a frame exceeds the allowed number of cycles, at whatever moment and under any input and output stall schedule, the output still becomes a well-formed framed stream: opening marker, a prefix of the reference encoding of the pixels accepted, the end marker exactly once, and the core then returns to its initial state ready for the next frame. No word is lost, repeated or altered before the cut.",
  ["schedules", "inputs"], "every valid/stall schedule, for allowances that fire at every stage of the frame",
  "No test ever lets the allowance run out.",
  [M+"force_end.py", M+"markers.py", M+"auto_reset.py", M+"beta_integration.py"], [("force_end counter, markers END states", M+"markers.py")],
  TRUST + "Complete state spaces with reduced FIFO depths.", ["data_out", "end_out", "valid_out"], RTL)
p("C12", "Beta core: every frame is encoded losslessly under any schedule",
  "For every schedule of pixel arrivals and output stalls, and for a reset at any cycle, the Beta core (2 pixels per cycle, 12 bit) emits exactly the framed, byte-stuffed LJ92 encoding of each frame, frame after frame: no word lost, repeated or reordered, the end flag on exactly the last word, and it never deadlocks.",
  ["schedules", "inputs", "histories"], "all valid/stall schedules (complete state spaces with reduced FIFO depths, bounded switches with real depths), several frames in a row, one reset anywhere, and the shipped 4096x3072 geometry",
  "The end-to-end tests cover the bare pipeline with one random schedule; markers, stuffing, automatic reset and second frames are never run together.",
  [M+"beta_integration.py", M+"integration_3.py", M+"integration_2.py", M+"integration_1.py", M+"markers.py", M+"auto_reset.py", M+"fix_0xff.py", M+"fix_0xff2.py"], [("FIFO back-pressure and automatic reset", M+"integration_2.py, auto_reset.py")],
  TRUST + "Complete for the listed small images and FIFO depths 25/9; real depths under a bounded number of schedule switches.", ["data_out", "end_out", "valid_out", "nready"], RTL)
p("C13", "Micro core: same guarantee, with geometry and code table programmed by AXI-Lite",
  "The Micro core (1 pixel per cycle, 12 bit), after its frame size and optionally its Huffman table are programmed over AXI-Lite, emits exactly the framed LJ92 encoding with that geometry and table under every schedule of arrivals, stalls and resets, frame after frame. Programming survives the automatic reset between frames.",
  ["schedules", "inputs", "histories", "configurations"], "all valid/stall schedules for small frames (reduced FIFO depths), a custom code table, two frames, one reset anywhere, bounded switches with real depths",
  "No test covers this core, nor any register-programmed geometry or table.",
  [M+"micro_integration.py", M+"core_axi_lite.py", M+"integration_3.py", M+"encode.py"], [("register-programmed geometry", M+"core_axi_lite.py")],
  TRUST + "As C12.", ["data_out", "end_out", "valid_out", "nready"], RTL)
p("C05", "The pipeline loses, repeats and reorders nothing, in every supported configuration",
  "For every supported combination of pixels per cycle, bit depth, converter width, FIFO depth and output width, and for every schedule of pixel arrivals and output stalls, the encoder pipeline emits exactly the concatenated reference code words of the frame in out_bits-bit words (the last one padded with zeros), with the end flag on exactly the last word, and never deadlocks or overflows a FIFO.",
  ["schedules", "inputs", "configurations"], "all arrival/stall schedules of small frames and bounded switches over longer ones, in ten configurations from 1 to 4 pixels per cycle and 2 to 16 bits",
  "The end-to-end test runs one configuration with one random schedule; back-pressure bugs need one particular alignment of stall, FIFO level and frame end.",
  [M+"integration_3.py", M+"integration_2.py", M+"integration_1.py", M+"lj92_pipeline_fifo.py", M+"converter.py", M+"converter_fifo.py", M+"vbits_to_cbits.py"], [("FIFO back-pressure: nready, close_full", M+"integration_2.py")],
  TRUST + "Complete per listed image, configurations with the smallest FIFOs the design accepts; longer images under a bounded number of schedule switches.", ["data_out", "end_out", "valid_out", "nready"], RTL)
p("C06", "The elastic buffers keep every code word, in order, with its end mark",
  "The pipeline FIFO and the bit-width converter with its FIFO deliver exactly the input code words' bits in order under any schedule, accept the code words still in flight after asking the source to stop, split words wider than the converter without changing a bit, and put the end mark on exactly the last piece.",
  ["schedules", "inputs", "configurations"], "all arrival/drain schedules of boundary-length code words, for several lane counts, depths and converter widths",
  "The unit tests use one width pair and drain continuously.",
  [M+"lj92_pipeline_fifo.py", M+"converter.py", M+"converter_fifo.py"], [("close_full threshold", M+"lj92_pipeline_fifo.py"), ("split into converter-wide pieces", M+"converter.py")],
  TRUST + "Complete state space for the listed lengths, item counts and depths.", ["enc_out", "enc_out_ctr", "out_end", "close_full"], RTL)
p("C08", "Variable-length code words are packed into fixed-width words without gaps",
  "For every sequence of code-word lengths, every schedule of arrivals and output stalls, and every supported converter and output width, the packer's output words are exactly the concatenation of the input bits, most significant first, with the last partial word padded with zeros and flagged as the end.",
  ["schedules", "inputs", "configurations"], "all schedules and all length sequences over boundary lengths, for eleven width combinations",
  "The module has no unit test; a wrong width or threshold shows only for one length at one fill level.",
  [M+"vbits_to_cbits.py"], [("shift buffer and fill counter", M+"vbits_to_cbits.py")], TRUST + "Sequences of up to 12 (quick) or 14 (thorough) items.", ["data_out", "valid_out", "end_out", "latch_input"], RTL)
p("C09", "Byte stuffing: every FF byte is followed by a zero byte, and nothing else changes",
  "For every stream of 16-bit words and every stall schedule, the two stuffing stages emit the same bytes with one 00 inserted after each FF, packed into 16-bit words in order, a last odd byte padded with a zero byte, the end flag on exactly the last word; no word is dropped or repeated under back-pressure, and the next frame starts clean.",
  ["schedules", "inputs"], "word streams of unbounded length over the four FF/non-FF patterns under every schedule (finite state space, explored completely), and every 16-bit value in short frames",
  "The stages have no test; a fault needs a stall on the cycle in which a word grows or the end is held back.",
  [M+"fix_0xff.py", M+"fix_0xff2.py"], [("stuffing state machines", M+"fix_0xff.py, fix_0xff2.py")], TRUST + "Complete: unbounded stream length over the FF patterns.", ["data_out", "valid_out", "end_out", "o_busy"], RTL)
p("C10", "Every frame is framed by exactly one opening and one closing marker",
  "For every stall schedule, frame length and moment of a forced end, the marker stage emits the opening marker once, then every frame word in order, then the closing marker once with the end flag on its last word, and is then ready for the next frame. It never drops or repeats a word under back-pressure.",
  ["schedules", "histories"], "frames of unbounded length in sequence, every schedule, forced end at every cycle (finite state space, explored completely)",
  "The unit test streams one frame with continuous output.",
  [M+"markers.py"], [("marker state machine", M+"markers.py")], TRUST + "Complete state space for two frames of any length.", ["data_out", "valid_out", "end_out", "o_busy"], RTL)
p("C14", "Core registers: AXI-Lite reads and writes behave as the register map says",
  "For every sequence of AXI-Lite transactions, a write changes exactly the addressed register's strobed bytes (frame size, allowed cycles, either half of any Huffman entry), a read returns the last value written or the reset value, addresses outside the map answer with a decode error and change nothing, debug counters are read-only, and every transaction is answered exactly once with a response held until taken, whatever the handshake timing.",
  ["histories", "schedules", "configurations"], "all transaction sequences to depth 2-4 over boundary addresses, data and all byte strobes, and all handshake timings of interleaved reads and writes",
  "The tests do a few full-word accesses with a cooperative master and never read back a half-written entry.",
  [M+"core_axi_lite.py", M+"encode.py"], [("read and write state machines", M+"core_axi_lite.py")], TRUST + "One write and one read in flight at a time, as the slave supports.", ["rdata", "rresp", "bresp", "height", "width", "allowed_cycles"], RTL)
p("C15", "DMA registers: AXI-Lite reads and writes behave as the register map says",
  "For every sequence of AXI-Lite transactions, a write changes exactly the strobed bytes of the addressed control register (read address, write address, start), the nine status registers read their inputs and refuse writes with a slave error, addresses outside the map answer with a decode error, and every transaction is answered exactly once with a response held until taken, whatever the handshake timing.",
  ["histories", "schedules"], "all transaction sequences to depth 2-4 over all registers, data patterns and all byte strobes, and all handshake timings of interleaved reads and writes",
  "The module has no test.",
  [M+"dma_axi_lite.py"], [("read and write state machines", M+"dma_axi_lite.py")], TRUST + "One write and one read in flight at a time, as the slave supports.", ["rdata", "rresp", "bresp", "read_addr", "write_addr", "start"], RTL)
p("C16", "AXI-HP writer: every burst is legal AXI and carries exactly its words",
  "Under every timing of addresses, data, enable and slave readiness, the writer addresses a burst only while enabled and only with an address to give, begins its data only when the FIFO holds a full burst, keeps every offered address and beat stable until taken, takes each address and each FIFO word exactly once and in order, the word with the strobes given with it, marks exactly the last beat of every burst, consumes every response, reports a slave error when and only when one is answered, and when disabled completes what is in flight and then is inactive; its in-flight counters always equal the number of bursts really in flight. It never deadlocks.",
  ["schedules", "histories"], "every timing of all five handshakes, streams of bursts of any length (finite state space, explored completely), burst lengths 2 to 16",
  "The module has no test; the faults need a particular overlap of address, data and response handshakes.",
  [M+"axihp_writer.py"], [("burst and in-flight counters", M+"axihp_writer.py")], TRUST + "The slave takes at most 15 unanswered bursts (the Zynq HP port: 8).", ["awvalid", "wvalid", "wlast", "bready", "addr_enable", "data_enable", "inactive", "writer_active", "writer_unconf", "writer_error"], RTL)
p("C17", "AXI-HP reader: every burst is legal AXI and delivers exactly its words",
  "Under every timing of addresses, room in the FIFO, enable and slave readiness, the reader addresses a burst only while enabled and only with an address to give, begins to take its data only with room for all of it, keeps the offered address stable until taken, takes each address exactly once, hands each returned beat on exactly once and unchanged, reports a slave error when and only when a transferred beat carries one, and when disabled completes what is in flight and then is inactive; its in-flight counter always equals the number of bursts really in flight. It never deadlocks.",
  ["schedules", "histories"], "every timing of all handshakes, rlast arbitrary while rvalid is low, streams of bursts of any length (finite state space, explored completely), burst lengths 2 to 16",
  "The module has no test; the faults need a particular overlap of address and data handshakes.",
  [M+"axihp_reader.py"], [("in-flight counter", M+"axihp_reader.py")], TRUST, ["arvalid", "rready", "addr_enable", "data_enable", "data_out", "inactive", "reader_active", "reader_error"], RTL)
p("C18", "Width adapters repack the byte stream without loss, duplication or reordering",
  "For every stream of words of any length and every schedule of source and sink, each width adapter (16 to 40 bits, 16 to 64 bits, 64 to 32 bits, and the second 64-to-32 converter) emits exactly the input's bytes in the documented order, an offered word stays stable until taken, a word is never emitted before its bytes have entered, and the adapter never deadlocks, from the first cycle after reset on.",
  ["schedules", "inputs"], "word streams of any length under every schedule (finite state space, explored completely)",
  "The modules have no test; a fault needs a stall at one fill level.",
  [M+"b16_b40.py", M+"b16_b64.py", M+"b64_b32.py", M+"b64_b32_2.py"], [("fill counters and FIFOs", M+"b16_b40.py, b16_b64.py, b64_b32.py")],
  TRUST + "The end flag of b16_b64 (not connected to anything) is not claimed.", ["data_out", "valid_out", "o_busy"], RTL)
p("C19", "AXI FIFO and address generator: order, flags and addresses are exact",
  "Under every schedule of writes and reads the AXI FIFO delivers exactly the words written (with their end bit) in order; it reports a whole burst readable exactly when 16 words are stored and room for a burst never when a burst would not fit. The address generator, once started, offers the starting address and then the address one burst further for every address taken, holding each until taken.",
  ["schedules", "inputs"], "every schedule, streams of any length; 200 consecutive addresses from boundary starting points",
  "The modules have no test.",
  [M+"axihp_fifo.py", M+"address_generator.py"], [("readable16, writable16", M+"axihp_fifo.py"), ("address state machine", M+"address_generator.py")],
  TRUST + "Complete state space of the FIFO control.", ["readable16", "writable16", "data_out", "end_out", "address_o", "address_valid"], RTL)
p("C20", "Stream-wrapped cores deliver the framed stream frame after frame",
  "Behind their stream ports (AXI-Stream, FIFO-fed AXI-Stream, LVDS, Micro over AXI-Stream, bare pipeline over AXI-Stream) the cores take the pixels from the documented bit fields of each source word, ignore its other bits, accept a word only when their ready says so, and deliver exactly the framed encoding of each frame, frame after frame, in the wrapper's output width and with its last flag, under every schedule of source and sink; words left over in the width adapters at a frame's end appear with the next frame, none is lost, and they never deadlock.",
  ["schedules", "inputs", "histories"], "all source/sink schedules of two small frames in a row with reduced FIFO depths; longer ones and the real depths under a bounded number of schedule switches",
  "No test instantiates any wrapper; the automatic reset between frames interacts with the adapters' own state.",
  [M+"beta_integration_axistream.py", M+"beta_integration_fifo_axistream.py", M+"beta_integration_fifo_lvds.py", M+"micro_integration_axistream.py", M+"integration_3_axi_stream.py", M+"b64_b32_2.py", M+"b16_b40.py"], [("wiring, automatic reset", M+"beta_integration_fifo_lvds.py")],
  TRUST + "Complete for the listed images with reduced FIFO depths. The bare pipeline over AXI-Stream encodes one frame per reset.", ["m_tdata", "m_tvalid", "m_tlast", "s_tready"], RTL)
p("C21", "DMA core: one frame is read from memory and its stream written to memory, never beyond either buffer",
  "Once programmed and started over AXI-Lite, the full-AXI core reads the frame once from consecutive burst addresses beginning at the read address and writes the framed stream, in order and unaltered, to consecutive burst addresses beginning at the write address, under every timing of the memory's answers. It never addresses more read bursts than a 4096x3072 frame of 16-bit pixels holds (196608) nor more write bursts than the destination holds (131072), holds what it offers until taken, encodes every frame given enough room to the end without deadlock, and can be programmed again after the frame's automatic reset.",
  ["schedules", "inputs", "histories"], "all timings of the five AXI channels with a bounded number of departures from free running, two frames in a row, and every such timing around both address limits",
  "No test instantiates this top level; its limits lie 25 MB into a transfer.",
  [M+"beta_integration_fullaxi.py", M+"axihp_reader.py", M+"axihp_writer.py", M+"dma_axi_lite.py", M+"address_generator.py", M+"b16_b64.py", M+"b64_b32.py"], [("read and write limits", M+"beta_integration_fullaxi.py")],
  TRUST + "Known finding: the last words of the stream (less than the FIFO's 32 and the adapter's 3) are not written, because the automatic reset takes the DMA with it.", ["awaddr", "wdata", "wlast", "araddr"], RTL)
CX = "systematic exhaustive exploration of the real C library behind its API (every input of the bounded space is executed under address and undefined-behaviour sanitizers against an independent reference codec)"
LJ = "The library runs as compiled code, nothing is modelled. Trusted: the reference codec mc/h/lj_ref.h, clang's sanitizers. "
p("C22", "liblj92 decodes every conforming stream to exactly its samples",
  "For every stream of the supported class (single scan, 1 to 4 interleaved components, any of the seven predictors, 2 to 16 bits, sides up to 65535, any Huffman table of codes up to 16 bits given before or after the frame header, comment and application segments anywhere, either padding, bytes after the end), opening reports the frame's dimensions and decoding writes exactly the frame's samples, through the linearization table if one is given, to the tile which writeLength and skipLength lay out, and nothing in between; the caller's data stays unchanged, a handle decodes again with the same result, and closing frees everything. This includes streams in the header and table format of the core.",
  ["inputs"], "all images over full or corner alphabets up to a number of samples, all differences at all bit positions, all precisions, all listed segment orders, all tile layouts of small images",
  "No test executes the library.",
  ["liblj92/lj92.c", "liblj92/lj92.h"], [("entropy decoding", "liblj92/lj92.c nextdiff"), ("predictors and tile layout", "liblj92/lj92.c parseScan, parsePred6")],
  LJ + "Exhaustive within the stated image sizes; images of more than 2^31 samples are not covered.", ["target", "width", "height", "bitdepth", "components"], CX)
p("C23", "liblj92 encodes every image losslessly, with an optimal Huffman table",
  "For every one-component image of 2 to 16 bits, read from memory as the tile that readLength and skipLength lay out and through the delinearization table if one is given, encoding succeeds and returns a conforming lossless JPEG: headers with the image's dimensions, a Huffman table whose codes are free of prefixes and of the all-ones code and no longer in total than the best table of codes up to 16 bits, a scan from which the samples are recovered exactly, an end of image right after it. The library's own decoder recovers the image too. A value beyond the delinearization table is reported. The caller's image stays unchanged and nothing is read or written beyond any buffer.",
  ["inputs"], "all images over full or corner alphabets up to a number of samples, all differences at all bit positions, all sets of classes under several laws of frequencies, all tile layouts of small images",
  "No test executes the library.",
  ["liblj92/lj92.c", "liblj92/lj92.h", "liblj92/README.md"], [("frequencies and table", "liblj92/lj92.c frequencyScan, createEncodeTable"), ("scan and stuffing", "liblj92/lj92.c writeBody")],
  LJ + "Exhaustive within the stated image sizes.", ["encoded", "encodedLength"], CX)
p("C24", "liblj92 is safe on damaged input and out of memory, and reports both",
  "Whatever bytes are given to the decoder, opening, decoding and closing return, touch no memory that is not theirs (the data, a target of the reported size, the linearization table), leave the caller's data unchanged and free what they allocate. A header that is not complete is never opened; a scan that ends early or holds what is no code is reported as corrupt, and one that is complete is decoded in spite of any damage elsewhere; a value beyond the linearization table is reported. If memory runs out in opening or encoding, that is reported and nothing is leaked. A missing handle is reported.",
  ["inputs", "faults"], "every truncation, every replacement of one byte by every value, every removal and doubling, pairs of replacements, every short input over the significant bytes, and every allocation failure, over families of base streams",
  "No test executes the library; damage has to be tried at every position with every value.",
  ["liblj92/lj92.c", "liblj92/lj92.h"], [("parsing", "liblj92/lj92.c find, parseHuff, parseSof3, checkScan"), ("end of data", "liblj92/lj92.c nextbyte")],
  LJ + "Exhaustive over the stated faults of the stated streams; images above a size are opened but not decoded.", ["status codes"], CX)
SW = "software/src/"
p("C25", "Host software: registers, DMA and images reach the hardware as documented, and the verdict is right",
  "Every setter and getter of the host library, in any sequence and for every value, reads and writes exactly the register fields the core's register map gives: setting the height leaves the width alone and the other way round, get_ssss lists the code and length of every class 0 to n of an n-bit core, get_debug all eight counters under their labels; a bit depth outside 2 to 16 is refused. The DMA library programs the right channel and register of the Xilinx AXI DMA in every sequence of calls, names exactly the status bits that are set, and its waits return when, and only when, the channel is idle with its completion interrupt set. The program puts every pixel of a raw12 image into the field of the source word where the stream core reads it (64- and 32-bit words) and writes nothing behind the image, sets the core to the image's size and clears the destination before the transfer starts, gives the DMA the right addresses and lengths, waits for both channels, and reports success if and only if the core's bytes equal the reference stream's; both markers are reported as they are. Missing, short or unreadable files end it before any transfer.",
  ["inputs", "histories", "schedules", "faults"], "all reachable states of library and RTL register file over lists of values, every 16-bit height and width; all sequences of DMA calls and completions; all status words; every pair of 12-bit pixels; every position of a wrong byte",
  "No test compiles more than the program; it needs the board to run.",
  [SW+"core_axi_lite.cpp", SW+"xilinx_dma.cpp", SW+"xilinx_test.cpp", SW+"mmap_handler.cpp", SW+"tools.cpp", M+"core_axi_lite.py"], [("register access", SW+"core_axi_lite.cpp"), ("DMA registers, status, waits", SW+"xilinx_dma.cpp"), ("pixel layout, verdict", SW+"xilinx_test.cpp re_order_set_raw12_64bits, validate")],
  "The real C++ code runs; every load and store it makes to a device page is intercepted and becomes a bus transaction of the elaborated register file (conformance with nMigen's simulator as elsewhere) or of a model of the Xilinx DMA after PG021 (trusted). Streams of even length from 256 bytes.", ["height", "width", "allowed_cycles", "stdout", "exit status"],
  "explicit-state model checking of the real host code in closed loop with the real RTL register file and a DMA model; systematic exhaustive enumeration of transfer outcomes")
p("C26", "AXI bridge: every response carries the id of its own request, everything else passes through",
  "Between an AXI3 master with single-beat accesses and an AXI-Lite slave that works on at most one read and one write at a time, under every timing of both directions, every read and write response carries the id of the address it answers and is marked last; addresses, data, strobes, protection, responses, handshakes, clock and reset pass through unchanged in the same cycle.",
  ["schedules", "inputs"], "all handshake timings with three ids per direction; all 4096 ids; every payload bit",
  "No test instantiates the bridge; reads and writes have to overlap for the ids to mix.",
  [M+"axi_lite.py"], [("id registers", M+"axi_lite.py elaborate")], TRUST + "Complete state space.", ["rid", "bid", "rlast"], RTL)
p("C27", "Debug counters count exactly the cycles their labels say",
  "In a core built with AXI-Lite and debugging, whatever the schedule and over several frames, the eight counters read over AXI-Lite equal the numbers of cycles with valid_in low, high, valid_out low, high, nready high, low, busy_in high, low, counted in each frame from the cycle after the first pixel group is offered up to the cycle before the end of frame is presented; idle cycles between frames are not counted, and the automatic reset does not clear them.",
  ["schedules", "histories"], "all source/sink schedules with a bounded number of switches over frames of several sizes and two frames in a row, beta and micro core",
  "No test enables the debug registers.",
  [M+"beta_integration.py", M+"micro_integration.py", M+"debug_module.py", M+"core_axi_lite.py"], [("event signals", M+"micro_integration.py elaborate"), ("counters", M+"debug_module.py")],
  TRUST + "Complete within the bounds on switches and cycles of a frame.", ["debug registers"], RTL)
p("C28", "The DMA core's status registers show where the transfer stands",
  "In the full-AXI core, at every point of a transfer and under every timing of the memory, reading the DMA's AXI-Lite status registers while the bus is at rest shows: at 0x1010 and 0x1014 the addresses of the next read and write burst, at 0x1018 and 0x101c the numbers of read and write bursts accepted so far in this frame, and at 0x100c, in bits 5 and 6, whether the last read burst (number 196608) and the last write burst (number 131072) have been accepted, in bits 7 and 8 whether the reader and the writer have nothing in flight, in bits 11-14 the write bursts accepted whose data is not finished, in bits 15-18 the read bursts accepted and not finished, in bits 19-22 the write bursts not yet answered, and no error in bits 9 and 10. Reading does not disturb the transfer.",
  ["schedules", "histories"], "the registers are read in every state of every transfer with a bounded number of departures from free running, with three kinds of memory, over two frames, and around both address limits",
  "No test instantiates this top level or reads these registers.",
  [M+"beta_integration_fullaxi.py", M+"dma_axi_lite.py", M+"axihp_reader.py", M+"axihp_writer.py", M+"address_generator.py"], [("status word and counters", M+"beta_integration_fullaxi.py elaborate")],
  TRUST + "The snapshots of the data path in the registers from 0x1020 on and bits 0-4 are not claimed.", ["rdata"], RTL)
p("C07", "Every configuration elaborates to a working core",
  "For every bit depth 2 to 16 and 1, 2 or 4 pixels per cycle, with and without AXI-Lite and debugging, and with FIFO depths, converter widths and output widths that the configuration allows, the pipeline elaborates, encodes frames exactly as the reference does under varying stalls, and with AXI-Lite uses the geometry and the code table programmed, in every lane and class. The beta and micro cores do so with every choice of their options, and every module of migen_src generates on its own.",
  ["inputs", "schedules"], "all 90 combinations of depth, lanes and register access, each with all schedules of one switch over two frames of extreme and mixed values",
  "The tests elaborate one configuration per module.",
  [M+"integration_1.py", M+"integration_2.py", M+"integration_3.py", M+"core_axi_lite.py", M+"encode.py", M+"converter.py", M+"vbits_to_cbits.py"], [("configuration dictionaries", M+"integration_3.py"), ("external memory ports", M+"encode.py")],
  TRUST + "Complete in depth, lanes and options; the other parameters take one to three values each.", ["data_out", "end_out"], RTL)
