From c5e6fa9135186ff3dd23a5453157385c2861c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 01/35] fix: pass Memory/SyncFIFO arguments by keyword so the
 encoder elaborates

Every published nmigen takes these arguments by keyword only; the
positional calls made encode, the FIFOs and every integration fail with
TypeError as soon as they were constructed.
---
 migen_src/axihp_fifo.py         | 2 +-
 migen_src/b64_b32.py            | 4 ++--
 migen_src/converter_fifo.py     | 2 +-
 migen_src/encode.py             | 2 +-
 migen_src/lj92_pipeline_fifo.py | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/migen_src/axihp_fifo.py b/migen_src/axihp_fifo.py
index 0428edc..f8e8e60 100644
--- a/migen_src/axihp_fifo.py
+++ b/migen_src/axihp_fifo.py
@@ -32,7 +32,7 @@ class AxiHPFifo(Elaboratable):
 			[self.writable16, self.readable16] + \
 			[self.read]
 
-		self.fifo = SyncFIFO(65, 32)
+		self.fifo = SyncFIFO(width=65, depth=32)
 
 	def elaborate(self, platform):
 
diff --git a/migen_src/b64_b32.py b/migen_src/b64_b32.py
index a91dd0d..bd5a1f4 100644
--- a/migen_src/b64_b32.py
+++ b/migen_src/b64_b32.py
@@ -53,8 +53,8 @@ class B64B32(Elaboratable):
         m = Module()
 
         # fifo module
-        fifo64 = SyncFIFO(64, 2)
-        fifo32 = SyncFIFO(32, 4)
+        fifo64 = SyncFIFO(width=64, depth=2)
+        fifo32 = SyncFIFO(width=32, depth=4)
         m.submodules.fifo32 = fifo32
         m.submodules.fifo64 = fifo64
 
diff --git a/migen_src/converter_fifo.py b/migen_src/converter_fifo.py
index 9109081..bcad38e 100644
--- a/migen_src/converter_fifo.py
+++ b/migen_src/converter_fifo.py
@@ -72,7 +72,7 @@ class ConverterFifo(Elaboratable):
 			[self.enc_out, self.enc_out_ctr, self.out_end, self.valid_out] + \
 			[self.latch_output, self.writable, self.close_full]
 
-		self.fifo = SyncFIFOBuffered(self.total_bits, self.depth)
+		self.fifo = SyncFIFOBuffered(width=self.total_bits, depth=self.depth)
 
 	def elaborate(self, platform):
 
diff --git a/migen_src/encode.py b/migen_src/encode.py
index 0d7b6df..d5abb8f 100644
--- a/migen_src/encode.py
+++ b/migen_src/encode.py
@@ -192,7 +192,7 @@ class Encode(Elaboratable):
 		self.end_out = Signal(1)
 
 		# read ports to be accessed by encoders
-		self.mem = Memory(self.bd+21, self.bd+1, init_huff_table(self.bd))
+		self.mem = Memory(width=self.bd+21, depth=self.bd+1, init=init_huff_table(self.bd))
 		self.read_ports = [self.mem.read_port() for _ in range(self.ps)]
 		
 		if self.axi_lite:
diff --git a/migen_src/lj92_pipeline_fifo.py b/migen_src/lj92_pipeline_fifo.py
index cfac0c7..9642a39 100644
--- a/migen_src/lj92_pipeline_fifo.py
+++ b/migen_src/lj92_pipeline_fifo.py
@@ -72,7 +72,7 @@ class LJ92PipelineFifo(Elaboratable):
 			[self.latch_output, self.close_full]
 
 		# 4x dual port bram with 36kb each.
-		self.fifo = SyncFIFOBuffered(self.total_width, self.depth)
+		self.fifo = SyncFIFOBuffered(width=self.total_width, depth=self.depth)
 
 	def elaborate(self, platform):
 
-- 
2.43.0


From df3fe0129e42da0595120d9e9f23e8375a3ca2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 02/35] fix: b64_b32 does not drive the FIFOs' removed
 'replace' signal

The FIFO has no such attribute in any published nmigen, so the adapter
and beta_integration_fullaxi could not be elaborated; zero was the default.
---
 migen_src/b64_b32.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/migen_src/b64_b32.py b/migen_src/b64_b32.py
index bd5a1f4..a19e955 100644
--- a/migen_src/b64_b32.py
+++ b/migen_src/b64_b32.py
@@ -58,12 +58,6 @@ class B64B32(Elaboratable):
         m.submodules.fifo32 = fifo32
         m.submodules.fifo64 = fifo64
 
-        # set replace to zero
-        m.d.sync += [
-            fifo32.replace.eq(0),
-            fifo64.replace.eq(0),
-        ]
-
         # register
         reg = Signal(64)
 
-- 
2.43.0


From bde264ff88798cd428c1ce65df449b37c5ea0b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 03/35] fix: 16-bit differences wrap modulo 2^16 as LJ92
 requires

At bit depth 16 a difference beyond +-32768 fell in class 16, which carries
no extra bits, so the pixel could not be recovered.
---
 migen_src/difference.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/migen_src/difference.py b/migen_src/difference.py
index b219c55..c4a9f17 100644
--- a/migen_src/difference.py
+++ b/migen_src/difference.py
@@ -84,10 +84,16 @@ class Difference(Elaboratable):
 
 		m = Module()
 
+		diffs = [pixel_in-predic_in for pixel_in, predic_in in zip(self.pixels_in, self.predics_in)]
+		if self.bd == 16:
+			# LJ92 differences are modulo 2^16, only in 16 bits depth
+			# they need to be wrapped to fit in the 16 ssss classes.
+			diffs = [Cat(diff[0:16], diff[15]) for diff in diffs]
+
 		#if valid data
 		with m.If(self.valid_in):
-			m.d.sync += [val_out.eq(pixel_in-predic_in) for val_out, pixel_in, predic_in in zip(self.vals_out, self.pixels_in, self.predics_in)]
-			m.d.sync += [val_out_mns.eq(pixel_in-predic_in-1) for val_out_mns, pixel_in, predic_in in zip(self.vals_out_mns, self.pixels_in, self.predics_in)]
+			m.d.sync += [val_out.eq(diff) for val_out, diff in zip(self.vals_out, diffs)]
+			m.d.sync += [val_out_mns.eq(diff-1) for val_out_mns, diff in zip(self.vals_out_mns, diffs)]
 
 		#if valid data
 		m.d.sync += self.valid_out.eq(self.valid_in)
-- 
2.43.0


From eb4301c26492f9edfcdc570ad4a2c81a327f6f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 04/35] fix: raise end_of_frame for single-row and
 single-group-per-row frames

The smallest frames the constraints allow (a row of one input, or a frame
of two inputs) underflowed the counters and never ended.
---
 migen_src/signals.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/migen_src/signals.py b/migen_src/signals.py
index e3af351..54b9ec2 100644
--- a/migen_src/signals.py
+++ b/migen_src/signals.py
@@ -67,6 +67,19 @@ class Signals(Elaboratable):
 						self.new_row.eq(0),
 					]
 					m.next = "LOOP"
+					# the row is a single input
+					with m.If(self.width == self.ps):
+						m.d.sync += [
+							width_temp.eq(self.width),
+							height_temp.eq(self.height-2),
+							self.new_row.eq(1),
+						]
+					# the frame is only two inputs
+					with m.If(((self.height == 1) & (self.width == 2*self.ps)) | ((self.height == 2) & (self.width == self.ps))):
+						m.d.sync += [
+							self.end_of_frame.eq(1),
+						]
+						m.next = "END"
 
 			with m.State("LOOP"):
 				with m.If(self.new_input):
@@ -81,7 +94,7 @@ class Signals(Elaboratable):
 							width_temp.eq(width_temp-self.ps),
 							self.new_row.eq(0),
 						]
-					with m.If((height_temp == 0) & (width_temp == 2*self.ps)):
+					with m.If(((height_temp == 0) & (width_temp == 2*self.ps)) | ((height_temp == 1) & (self.width == self.ps))):
 						m.d.sync += [
 							self.end_of_frame.eq(1),
 						]
-- 
2.43.0


From 2eca0cdba208b106a16725fc76a297774bd9c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 05/35] fix: markers transfer the closing marker's last word
 only once and never skip a frame's end

---
 migen_src/markers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 132efb5..d5ebcc6 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -73,7 +73,7 @@ class Markers(Elaboratable):
         # late_data_i = Signal(16)
 
         end_cond = Signal(1)
-        m.d.sync += end_cond.eq((self.i_busy==0)&(self.valid_in==1)&(self.end_in==1))
+        m.d.sync += end_cond.eq((self.o_busy==0)&(self.valid_in==1)&(self.end_in==1))
 
         # late2_busy_i = Signal(1)
         # late2_valid_i = Signal(1)
@@ -167,14 +167,12 @@ class Markers(Elaboratable):
             with m.State("DONE_NORMAL"):
                 m.d.comb += [
                     self.data_out.eq(0xFFFF),
-                    self.valid_out.eq(1),
                     self.end_out.eq(1),
                 ]
 
             with m.State("DONE_FORCE"):
                 m.d.comb += [
                     self.data_out.eq(0xFFFE),
-                    self.valid_out.eq(1),
                     self.end_out.eq(1),
                 ]                
 
-- 
2.43.0


From 0a0557d976eda30ea74ee7812dd306497399a5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 06/35] fix: a forced end before the first output word still
 closes the frame

---
 migen_src/markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index d5ebcc6..460d232 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -96,7 +96,7 @@ class Markers(Elaboratable):
 
             with m.State("IDLE"):
                 m.d.sync += counter.eq(8)
-                with m.If(self.valid_in):
+                with m.If(self.valid_in | self.force_end_in):
                     m.next = "STARING_MARKER"
 
             with m.State("STARING_MARKER"):
-- 
2.43.0


From f4585bbcaedcbb957ae560ba31984dca60f91235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 07/35] fix: MicroIntegration forwards the frame's end and the
 markers' back-pressure

---
 migen_src/micro_integration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index 315cffb..f5b07dd 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -101,6 +101,7 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff.data_in.eq(integration_3.data_out),
 			fix_0xff.valid_in.eq(integration_3.valid_out),
+			fix_0xff.end_in.eq(integration_3.end_out),
 			fix_0xff.i_busy.eq(fix_0xff2.o_busy),
 		]
 
@@ -108,7 +109,8 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff2.data_in.eq(fix_0xff.data_out),
 			fix_0xff2.valid_in.eq(fix_0xff.valid_out),
-			fix_0xff2.i_busy.eq(self.busy_in),
+			fix_0xff2.end_in.eq(fix_0xff.end_out),
+			fix_0xff2.i_busy.eq(markers.o_busy),
 			fix_0xff2.data_in_ctr.eq(fix_0xff.data_out_ctr),
 		]
 
-- 
2.43.0


From 5ae11919163279441c35515f4483860b4c8f7864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 08/35] fix: writing one half of a Huffman entry keeps the
 other half

---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 6ca9560..1b2cd73 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -206,7 +206,7 @@ class CoreAxiLite(Elaboratable):
 		rp_data64_in = Signal(64)
 		rp_data64 = Signal(64)
 		m.d.comb += rp_data64.eq(self.rp_data)
-		m.d.comb += rp_data64_in.eq(0)
+		m.d.comb += rp_data64_in.eq(rp_data64)
 
 		# function that handle read/write operations on height and width register
 		def read_hw():
-- 
2.43.0


From 8481c41678c10bf68da51eda465e7169abfee010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 09/35] fix: the second half of a Huffman entry is written from
 the bus data

---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 1b2cd73..593ece2 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -262,7 +262,7 @@ class CoreAxiLite(Elaboratable):
 					start = 32 + i*8
 					end = start+8
 					with m.If(wstrb_v[i]):
-						m.d.comb += rp_data64_in[start:end].eq(wdata_v[start:end])
+						m.d.comb += rp_data64_in[start:end].eq(wdata_v[start-32:end-32])
 					with m.Else():
 						m.d.comb += rp_data64_in[start:end].eq(rp_data64[start:end])
 			m.d.full += [
-- 
2.43.0


From 845135184eff1eac80e7374647bb7a3851fae992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 10/35] fix: AXI-Lite responses of the core do not wait for
 ready nor drop before it

---
 migen_src/core_axi_lite.py | 39 +++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 593ece2..c777667 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -323,22 +323,25 @@ class CoreAxiLite(Elaboratable):
 
 
 			with m.State("READ_DATA"):
-				# ssss bram
-				with m.If((ssss_enable == 1) & (ssss_index < 2*self.mem_depth)):
-					read_ssss()
-				# height & width
-				with m.Elif(hw_enable == 1):
-					read_hw()
-				# debug
-				if self.debug:
-					with m.Elif(debug_enable == 1):
-						read_debug()
-				# decode error
-				with m.Else():
-					m.d.full += rresp_v.eq(3)
-				# to finish
-				with m.If(self.s_axi_ri.rready):
+				# response is ready, rvalid must not wait for rready
+				with m.If(rvalid_v==0):
+					# ssss bram
+					with m.If((ssss_enable == 1) & (ssss_index < 2*self.mem_depth)):
+						read_ssss()
+					# height & width
+					with m.Elif(hw_enable == 1):
+						read_hw()
+					# debug
+					if self.debug:
+						with m.Elif(debug_enable == 1):
+							read_debug()
+					# decode error
+					with m.Else():
+						m.d.full += rresp_v.eq(3)
 					m.d.full += rvalid_v.eq(1)
+				# to finish
+				with m.Elif(self.s_axi_ri.rready):
+					m.d.full += rvalid_v.eq(0)
 					m.next = "IDLE"
 
 
@@ -390,8 +393,10 @@ class CoreAxiLite(Elaboratable):
 				clean_write_hw()
 				clean_write_ssss()
 				m.d.full += wready_v.eq(0)
-				with m.If(self.s_axi_wi.bready):
-					m.d.full += bvalid_v.eq(1)
+				# bvalid must not wait for bready
+				m.d.full += bvalid_v.eq(1)
+				with m.If((bvalid_v==1) & (self.s_axi_wi.bready==1)):
+					m.d.full += bvalid_v.eq(0)
 					m.next = "IDLE"
 
 		m.d.comb += [
-- 
2.43.0


From 4fe89463b5fe3fba66112f9d0c5b8df06ae25a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 11/35] fix: AXI-Lite responses of the DMA registers do not
 wait for ready nor drop before it

---
 migen_src/dma_axi_lite.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/migen_src/dma_axi_lite.py b/migen_src/dma_axi_lite.py
index e409c42..a5fe2d8 100644
--- a/migen_src/dma_axi_lite.py
+++ b/migen_src/dma_axi_lite.py
@@ -230,15 +230,18 @@ class DMAAxiLite(Elaboratable):
 
 			with m.State("READ_DATA"):
 				m.d.sync += arready_v.eq(0)	# done
-				# ssss bram
-				with m.If(basic_enable):
-					read_basic()
-				# decode error
-				with m.Else():
-					m.d.sync += rresp_v.eq(3)
-				# to finish
-				with m.If(self.s_axi_ri_.rready):
+				# response is ready, rvalid must not wait for rready
+				with m.If(rvalid_v==0):
+					# ssss bram
+					with m.If(basic_enable):
+						read_basic()
+					# decode error
+					with m.Else():
+						m.d.sync += rresp_v.eq(3)
 					m.d.sync += rvalid_v.eq(1)
+				# to finish
+				with m.Elif(self.s_axi_ri_.rready):
+					m.d.sync += rvalid_v.eq(0)
 					m.next = "IDLE"
 
 
@@ -271,8 +274,10 @@ class DMAAxiLite(Elaboratable):
 			with m.State("WRITE_RESPONSE"):
 				clean_write_basic()
 				m.d.sync += wready_v.eq(0)
-				with m.If(self.s_axi_wi_.bready):
-					m.d.sync += bvalid_v.eq(1)
+				# bvalid must not wait for bready
+				m.d.sync += bvalid_v.eq(1)
+				with m.If((bvalid_v==1) & (self.s_axi_wi_.bready==1)):
+					m.d.sync += bvalid_v.eq(0)
 					m.next = "IDLE"
 
 		m.d.comb += [
-- 
2.43.0


From 21c9b5c91f53094175834b3b09c3a39cc527d7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 12/35] fix: b16_b40 kept one bit of the byte carried between
 its buffers

---
 migen_src/b16_b40.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 85f219f..0d837a9 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -70,7 +70,7 @@ class B16B40(Elaboratable):
         m.d.comb += is_valid.eq(1)
 
         # buffer for the 0.5*input size
-        temp_8 = Signal(1)
+        temp_8 = Signal(8)
 
         # handle data_out
         with m.If(buff_chs==0):
-- 
2.43.0


From bc722452d7cce6bc9525714abef27ed0c8c0caee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 13/35] fix: b16_b40, b16_b64, b64_b32 lost a word offered in
 the first cycle after reset

---
 migen_src/b16_b40.py | 2 +-
 migen_src/b16_b64.py | 2 +-
 migen_src/b64_b32.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 0d837a9..3a99ab4 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -41,7 +41,7 @@ class B16B40(Elaboratable):
         self.valid_in = Signal(1)
         self.valid_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
diff --git a/migen_src/b16_b64.py b/migen_src/b16_b64.py
index ecd8e3a..9626b69 100644
--- a/migen_src/b16_b64.py
+++ b/migen_src/b16_b64.py
@@ -43,7 +43,7 @@ class B16B64(Elaboratable):
         self.end_in = Signal(1)
         self.end_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
diff --git a/migen_src/b64_b32.py b/migen_src/b64_b32.py
index a19e955..632da2a 100644
--- a/migen_src/b64_b32.py
+++ b/migen_src/b64_b32.py
@@ -41,7 +41,7 @@ class B64B32(Elaboratable):
         self.valid_in = Signal(1)
         self.valid_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
-- 
2.43.0


From b0565b452b37bae54874a1863fbc843ee8f2f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 14/35] fix: AXI-HP writer marks the last beat of a burst, not
 the one after it

---
 migen_src/axihp_writer.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index 9434fa4..78a0773 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -119,17 +119,12 @@ class AxiHPWriter(Elaboratable):
 
 		# wlast circuit
 		counter = Signal(4)
+		m.d.comb += wlast.eq((wvalid==1) & (counter==(self.data_c-1)))
 		with m.If(data_en):
-			with m.If(counter==(self.data_c-1)):
-				m.d.sync += [
-					counter.eq(0),
-					wlast.eq(1),
-				]
+			with m.If(wlast):
+				m.d.sync += counter.eq(0)
 			with m.Else():
-				m.d.sync += [
-					wlast.eq(0),
-					counter.eq(counter + 1),
-				]
+				m.d.sync += counter.eq(counter + 1)
 
 		m.d.comb += data_en.eq((wvalid==1) & (self.m_axi_wi.wready==1))
 
@@ -141,7 +136,7 @@ class AxiHPWriter(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(wlast):
+			with m.If(wlast & data_en):
 				m.d.sync += wvalid.eq(0)
 
 		m.d.comb += [
@@ -180,11 +175,11 @@ class AxiHPWriter(Elaboratable):
 		---------------------'''
 
 		# active_proc
-		with m.If((addr_en==1) & (wlast==0)):
+		with m.If((addr_en==1) & ((wlast & data_en)==0)):
 			# one more
 			m.d.sync += active.eq(active + 1)
 
-		with m.Elif((addr_en==0) & (wlast==1)):
+		with m.Elif((addr_en==0) & ((wlast & data_en)==1)):
 			# one less
 			m.d.sync += active.eq(active - 1)
 
-- 
2.43.0


From 2e62a2c3041fc3fa0712263a217fbde6de9cbe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:34 +0000
Subject: [PATCH 15/35] fix: AXI-HP writer takes the answers still to come
 after it was disabled

---
 migen_src/axihp_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index 78a0773..6798c81 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -155,8 +155,8 @@ class AxiHPWriter(Elaboratable):
 
 		# idle phase
 		with m.If(bready==0):
-			# writer enabled
-			with m.If(self.enable):
+			# writer enabled or responses still to come
+			with m.If((self.enable==1) | (unconf!=0)):
 				m.d.sync += bready.eq(1)
 
 		# active phase
-- 
2.43.0


From 222c6c2dcea189a27757c25138de63d872a5efc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 16/35] fix: AXI-HP reader looks at rlast only with a beat that
 is transferred

---
 migen_src/axihp_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/migen_src/axihp_reader.py b/migen_src/axihp_reader.py
index 3db010c..b7fcefd 100644
--- a/migen_src/axihp_reader.py
+++ b/migen_src/axihp_reader.py
@@ -114,7 +114,7 @@ class AxiHPReader(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(self.m_axi_ri.rlast):
+			with m.If(data_en & self.m_axi_ri.rlast):
 				m.d.sync += rready.eq(0)
 
 		m.d.comb += [
@@ -130,11 +130,11 @@ class AxiHPReader(Elaboratable):
 		---------------------'''
 
 		# one more
-		with m.If((addr_en==1) & (self.m_axi_ri.rlast==0)):
+		with m.If((addr_en==1) & ((data_en & self.m_axi_ri.rlast)==0)):
 			m.d.sync += active.eq(active + 1)
 
 		# one less
-		with m.Elif((addr_en==0) & (self.m_axi_ri.rlast==1)):
+		with m.Elif((addr_en==0) & ((data_en & self.m_axi_ri.rlast)==1)):
 			m.d.sync += active.eq(active - 1)
 
 		m.d.comb += self.inactive.eq(active==0)
-- 
2.43.0


From 705dff32d3950ff5cce7cfb6fed21be88706bbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:30 +0000
Subject: [PATCH 17/35] fix: the last output word leaves the pipeline once, not
 again in every following cycle

---
 migen_src/vbits_to_cbits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/migen_src/vbits_to_cbits.py b/migen_src/vbits_to_cbits.py
index 57813b6..784a176 100644
--- a/migen_src/vbits_to_cbits.py
+++ b/migen_src/vbits_to_cbits.py
@@ -122,7 +122,9 @@ class OutputHandler(Elaboratable):
 					pass
 
 			with m.State("END"):
-				pass
+				# the last output is latched once
+				with m.If(self.busy_in == 0):
+					m.d.sync += self.valid_out.eq(0)
 
 		return m
 
-- 
2.43.0


From 8e18e41b7a86173d0d7613ea426673544c6fefe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 18/35] fix: b16_b40 keeps its fill state over the core's
 automatic reset

---
 migen_src/b16_b40.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 3a99ab4..96dff83 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -91,7 +91,7 @@ class B16B40(Elaboratable):
                 m.d.full += buffer2_valid.eq(0)
 
         # fsm
-        with m.FSM() as fsm:
+        with m.FSM(domain="full") as fsm:
 
             # buffer 1 handling
             with m.State("BUFF1_IDLE"):
-- 
2.43.0


From 11df8dd97414f534bc1e18dce1c8ba42174ec116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 19/35] fix: the AXI-Lite transaction in flight survives the
 core's automatic reset

---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index c777667..bbd37f4 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -288,7 +288,7 @@ class CoreAxiLite(Elaboratable):
 		def clean_write_debug():
 			pass
 
-		with m.FSM() as main:
+		with m.FSM(domain="full") as main:
 
 			with m.State("IDLE"):
 				#needed from other states
-- 
2.43.0


From a0d6b89af895f00ea0811e306e4f593490af9db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:47 +0000
Subject: [PATCH 20/35] fix: the DMA core stops addressing bursts at the end of
 its buffers

---
 migen_src/beta_integration_fullaxi.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/migen_src/beta_integration_fullaxi.py b/migen_src/beta_integration_fullaxi.py
index 8075a6a..b78a317 100644
--- a/migen_src/beta_integration_fullaxi.py
+++ b/migen_src/beta_integration_fullaxi.py
@@ -69,22 +69,17 @@ class BetaIntegrationFullAxi(Elaboratable):
 		read_end = Signal(1)
 		write_end = Signal(1)
 
+		# the last burst of the frame has been addressed
 		m.d.comb += [
-			read_end.eq(0),
-			write_end.eq(0),
+			read_end.eq(counter_read==196608),
+			write_end.eq(counter_write==131072),
 		]
 
-		with m.If((address_gen_read.address_valid==1)&(axihp_reader.addr_enable==1)):
-			with m.If(counter_read==196608):
-				m.d.comb += read_end.eq(1)
-			with m.Else():
-				m.d.sync += counter_read.eq(counter_read + 1)
-
-		with m.If((address_gen_write.address_valid==1)&(axihp_writer.addr_enable==1)):
-			with m.If(counter_write==131072):
-				m.d.comb += write_end.eq(1)
-			with m.Else():
-				m.d.sync += counter_write.eq(counter_write + 1)
+		with m.If((address_gen_read.address_valid==1)&(axihp_reader.addr_enable==1)&(read_end==0)):
+			m.d.sync += counter_read.eq(counter_read + 1)
+
+		with m.If((address_gen_write.address_valid==1)&(axihp_writer.addr_enable==1)&(write_end==0)):
+			m.d.sync += counter_write.eq(counter_write + 1)
 
 		# dma_axi_lite
 		m.d.comb += [
-- 
2.43.0


From 5969d360312ca1b0f4fd0e4475c6a8cc33cfd4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:19 +0000
Subject: [PATCH 21/35] fix: every predictor predicts a component from its own
 neighbours

---
 liblj92/lj92.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 665c504..0fef931 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -511,7 +511,7 @@ static int parseScan(ljp* self) {
     int compcount = self->data[self->ix+2];
     int pred = self->data[self->ix+3+2*compcount];
     if (pred<0 || pred>7) return ret;
-    if (pred==6) return parsePred6(self); // Fast path
+    if (pred==6 && self->components==1) return parsePred6(self); // Fast path
     self->ix += BEH(self->data[self->ix]);
     self->cnt = 0;
     self->b = 0;
@@ -551,16 +551,16 @@ static int parseScan(ljp* self) {
                           Px = lastrow[prev_colx + c];
                           break;
                         case 4:
-                          Px = left + lastrow[colx + c] - lastrow[prev_colx + c];
+                          Px = thisrow[prev_colx + c] + lastrow[colx + c] - lastrow[prev_colx + c];
                           break;
                         case 5:
-                          Px = left + ((lastrow[colx + c] - lastrow[prev_colx + c]) >> 1);
+                          Px = thisrow[prev_colx + c] + ((lastrow[colx + c] - lastrow[prev_colx + c]) >> 1);
                           break;
                         case 6:
-                          Px = lastrow[colx + c] + ((left - lastrow[prev_colx + c]) >> 1);
+                          Px = lastrow[colx + c] + ((thisrow[prev_colx + c] - lastrow[prev_colx + c]) >> 1);
                           break;
                         case 7:
-                          Px = (left + lastrow[colx + c]) >> 1;
+                          Px = (thisrow[prev_colx + c] + lastrow[colx + c]) >> 1;
                           break;
                     }
                 }
@@ -665,7 +665,7 @@ int lj92_open(lj92* lj,
         else {
             self->rowcache = rowcache;
             self->outrow[0] = rowcache;
-            self->outrow[1] = &rowcache[self->x];
+            self->outrow[1] = &rowcache[self->x * self->components];
         }
     }
 
-- 
2.43.0


From df0b43ffaffd40fc96234ec26e569a989ed45bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:19 +0000
Subject: [PATCH 22/35] fix: the decoder reads nothing beyond its data, and no
 complete scan is taken for a short one

---
 liblj92/lj92.c | 93 +++++++++++++++++++++++++-------------------------
 1 file changed, 47 insertions(+), 46 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 0fef931..1d701db 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -49,7 +49,7 @@ typedef struct _ljp {
     int skiplen; // Skip this many values after each row
     u16* linearize; // Linearization table
     int linlen;
-    int sssshist[16];
+    int sssshist[17];
 
     // Huffman table - only one supported, and probably needed
 #ifdef SLOW_HUFF
@@ -66,6 +66,8 @@ typedef struct _ljp {
     // Parse state
     int cnt;
     u32 b;
+    int padbits; // Bits in b which are beyond the end of the scan
+    int corrupt; // The scan ended early, or holds what is no code
     u16* image;
     u16* rowcache;
     u16* outrow[2];
@@ -334,61 +336,55 @@ static int extend(ljp* self,int v,int t) {
 }
 #endif
 
+#ifndef SLOW_HUFF
+// Adds the scan's next byte to the bit buffer. At the end of the scan zeros are
+// added instead and counted: they may be looked at, but not used.
+inline static void nextbyte(ljp* self) {
+    u8* data = self->data;
+    int ix = self->ix;
+    int byte = 0;
+    int left = self->datalen - ix;
+    if ((left>0 && data[ix] != 0xFF) || (left>1 && data[ix+1] == 0)) {
+        byte = data[ix];
+        self->ix += byte==0xFF ? 2 : 1;
+    } else {
+        self->padbits += 8;
+    }
+    self->b = (self->b<<8)|byte;
+    self->cnt += 8;
+}
+#endif
+
+// Next difference; sets self->corrupt if the scan does not hold one
 inline static int nextdiff(ljp* self) {
 #ifdef SLOW_HUFF
     int t = decode(self);
     int diff = receive(self,t);
     diff = extend(self,diff,t);
 #else
-    u32 b = self->b;
-    int cnt = self->cnt;
     int huffbits = self->huffbits;
-    int ix = self->ix;
-    int next;
-    while (cnt < huffbits) {
-        next = *(u16*)&self->data[ix];
-        int one = next&0xFF;
-        int two = next>>8;
-        b = (b<<16)|(one<<8)|two;
-        cnt += 16;
-        ix += 2;
-        if (one==0xFF) {
-            //printf("%x %x %x %x %d\n",one,two,b,b>>8,cnt);
-            b >>= 8;
-            cnt -= 8;
-        } else if (two==0xFF) ix++;
-    }
-    int index = b >> (cnt - huffbits);
+    while (self->cnt < huffbits) nextbyte(self);
+    int index = self->b >> (self->cnt - huffbits);
     u16 ssssused = self->hufflut[index];
     int usedbits = ssssused&0xFF;
     int t = ssssused>>8;
-    self->sssshist[t]++;
-    cnt -= usedbits;
-    int keepbitsmask = (1 << cnt)-1;
-    b &= keepbitsmask;
-    while (cnt < t) {
-        next = *(u16*)&self->data[ix];
-        int one = next&0xFF;
-        int two = next>>8;
-        b = (b<<16)|(one<<8)|two;
-        cnt += 16;
-        ix += 2;
-        if (one==0xFF) {
-            b >>= 8;
-            cnt -= 8;
-        } else if (two==0xFF) ix++;
+    if (t>16) {
+        self->corrupt = 1;
+        return 0;
     }
-    cnt -= t;
-    int diff = b >> cnt;
-    int vt = 1<<(t-1);
+    self->sssshist[t]++;
+    self->cnt -= usedbits;
+    self->b &= (1u << self->cnt)-1;
+    while (self->cnt < t) nextbyte(self);
+    self->cnt -= t;
+    int diff = self->b >> self->cnt;
+    int vt = t ? 1<<(t-1) : 0;
     if (diff < vt) {
-        vt = (-1 << t) + 1;
+        vt = 1 - (1 << t);
         diff += vt;
     }
-    keepbitsmask = (1 << cnt)-1;
-    self->b = b & keepbitsmask;
-    self->cnt = cnt;
-    self->ix = ix;
+    self->b &= (1u << self->cnt)-1;
+    if (self->padbits > self->cnt) self->corrupt = 1;
     //printf("%d %d\n",t,diff);
 #ifdef DEBUG
 #endif
@@ -403,6 +399,8 @@ static int parsePred6(ljp* self) {
     self->ix += BEH(self->data[self->ix]);
     self->cnt = 0;
     self->b = 0;
+    self->padbits = 0;
+    self->corrupt = 0;
     int write = self->writelen;
     // Now need to decode huffman coded values
     int c = 0;
@@ -431,7 +429,7 @@ static int parsePred6(ljp* self) {
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
-    if (self->ix >= self->datalen) return ret;
+    if (self->corrupt) return ret;
     --write;
     int rowcount = self->x-1;
     while (rowcount--) {
@@ -446,7 +444,7 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         out[c++] = linear;
         //printf("%d %d %d %d %x\n",col-1,diff,left,thisrow[col-1],&thisrow[col-1]);
-        if (self->ix >= self->datalen) return ret;
+        if (self->corrupt) return ret;
         if (--write==0) {
             out += self->skiplen;
             write = self->writelen;
@@ -471,7 +469,6 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         //printf("%d %d %d %d\n",col,diff,left,lastrow[col]);
         out[c++] = linear;
-        if (self->ix >= self->datalen) break;
         rowcount = self->x-1;
         if (--write==0) {
             out += self->skiplen;
@@ -498,7 +495,7 @@ static int parsePred6(ljp* self) {
         temprow = lastrow;
         lastrow = thisrow;
         thisrow = temprow;
-        if (self->ix >= self->datalen) break;
+        if (self->corrupt) return ret;
     }
     if (c >= pixels) ret = LJ92_ERROR_NONE;
     return ret;
@@ -515,6 +512,8 @@ static int parseScan(ljp* self) {
     self->ix += BEH(self->data[self->ix]);
     self->cnt = 0;
     self->b = 0;
+    self->padbits = 0;
+    self->corrupt = 0;
     u16* out = self->image;
     u16* thisrow = self->outrow[0];
     u16* lastrow = self->outrow[1];
@@ -581,6 +580,8 @@ static int parseScan(ljp* self) {
             } // c
         } // col
 
+        if (self->corrupt) return ret;
+
         u16* temprow = lastrow;
         lastrow = thisrow;
         thisrow = temprow;
-- 
2.43.0


From c42cf0dda7e9a9996f23fec3a55eae1ea783d84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:45 +0000
Subject: [PATCH 23/35] fix: Huffman tables are read within their segment,
 unused codes are no codes, and the caller's data is left alone

---
 liblj92/lj92.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 1d701db..4320169 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -89,11 +89,16 @@ static int find(ljp* self) {
 
 static int parseHuff(ljp* self) {
     int ret = LJ92_ERROR_CORRUPT;
+    if (self->ix+19 > self->datalen) return ret;
     u8* huffhead = &self->data[self->ix]; // xstruct.unpack('>HB16B',self.data[self.ix:self.ix+19])
-    u8* bits = &huffhead[2];
+    u8 bits[17];
+    memcpy(bits,&huffhead[2],sizeof(bits));
     bits[0] = 0; // Because table starts from 1
     int hufflen = BEH(huffhead[0]);
     if ((self->ix + hufflen) >= self->datalen) return ret;
+    int codes = 0;
+    for (int bix=1;bix<=16;bix++) codes += bits[bix];
+    if (codes==0 || 19+codes > hufflen) return ret;
 #ifdef SLOW_HUFF
     u8* huffval = calloc(hufflen - 19,sizeof(u8));
     if (huffval == NULL) return LJ92_ERROR_NO_MEMORY;
@@ -226,8 +231,9 @@ static int parseHuff(ljp* self) {
     }
     self->huffbits = maxbits;
     /* Now fill the lut */
-    u16* hufflut = malloc((1<<maxbits) * sizeof(u16));
+    u16* hufflut = calloc(1<<maxbits,sizeof(u16)); // 0 where there is no code
     if (hufflut == NULL) return LJ92_ERROR_NO_MEMORY;
+    free(self->hufflut);
     self->hufflut = hufflut;
     int i = 0;
     int hv = 0;
@@ -262,6 +268,7 @@ static int parseHuff(ljp* self) {
         i++;
         rv++;
     }
+    self->ix += hufflen;
     ret = LJ92_ERROR_NONE;
 #endif
     return ret;
@@ -368,7 +375,7 @@ inline static int nextdiff(ljp* self) {
     u16 ssssused = self->hufflut[index];
     int usedbits = ssssused&0xFF;
     int t = ssssused>>8;
-    if (t>16) {
+    if (usedbits==0 || t>16) {
         self->corrupt = 1;
         return 0;
     }
-- 
2.43.0


From 417eca0a26a906dfbc3ed504526089943ea6ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 24/35] fix: a damaged header is reported, not read past its
 end nor taken for an image

---
 liblj92/lj92.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 4320169..e704887 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -76,7 +76,7 @@ typedef struct _ljp {
 static int find(ljp* self) {
     int ix = self->ix;
     u8* data = self->data;
-    while (data[ix] != 0xFF && ix<(self->datalen-1)) {
+    while (ix<(self->datalen-1) && data[ix] != 0xFF) {
         ix += 1;
     }
     ix += 2;
@@ -275,16 +275,20 @@ static int parseHuff(ljp* self) {
 }
 
 static int parseSof3(ljp* self) {
-    if (self->ix+6 >= self->datalen) return LJ92_ERROR_CORRUPT;
+    if (self->ix+7 >= self->datalen) return LJ92_ERROR_CORRUPT;
     self->y = BEH(self->data[self->ix+3]);
     self->x = BEH(self->data[self->ix+5]);
     self->bits = self->data[self->ix+2];
     self->components = self->data[self->ix + 7];
+    if (self->x==0 || self->y==0 || self->components==0) return LJ92_ERROR_CORRUPT;
+    if (self->bits<2 || self->bits>16) return LJ92_ERROR_CORRUPT;
     self->ix += BEH(self->data[self->ix]);
+    if (self->ix >= self->datalen) return LJ92_ERROR_CORRUPT;
     return LJ92_ERROR_NONE;
 }
 
 static int parseBlock(ljp* self) {
+    if (self->ix+1 >= self->datalen) return LJ92_ERROR_CORRUPT;
     self->ix += BEH(self->data[self->ix]);
     if (self->ix >= self->datalen) return LJ92_ERROR_CORRUPT;
     return LJ92_ERROR_NONE;
@@ -600,6 +604,21 @@ static int parseScan(ljp* self) {
     return ret;
 }
 
+// The scan's header is complete, and what it needs has been defined before it
+static int checkScan(ljp* self) {
+    u8* head = &self->data[self->ix];
+    int left = self->datalen - self->ix;
+    if (left < 3 || left < BEH(head[0])) return LJ92_ERROR_CORRUPT;
+    if (BEH(head[0]) != 6+2*head[2]) return LJ92_ERROR_CORRUPT;
+    if (self->x==0 || head[2]!=self->components) return LJ92_ERROR_CORRUPT;
+#ifdef SLOW_HUFF
+    if (self->huffval==NULL) return LJ92_ERROR_CORRUPT;
+#else
+    if (self->hufflut==NULL) return LJ92_ERROR_CORRUPT;
+#endif
+    return LJ92_ERROR_NONE;
+}
+
 static int parseImage(ljp* self) {
     int ret = LJ92_ERROR_NONE;
     while (1) {
@@ -610,11 +629,12 @@ static int parseImage(ljp* self) {
             ret = parseSof3(self);
         else if (nextMarker == 0xfe)// Comment
             ret = parseBlock(self);
-        else if (nextMarker == 0xd9) // End of image
+        else if (nextMarker == 0xd9) { // End of image
+            ret = LJ92_ERROR_CORRUPT; // without a scan
             break;
-        else if (nextMarker == 0xda) {
+        } else if (nextMarker == 0xda) {
             self->scanstart = self->ix;
-            ret = LJ92_ERROR_NONE;
+            ret = checkScan(self);
             break;
         } else if (nextMarker == -1) {
             ret = LJ92_ERROR_CORRUPT;
-- 
2.43.0


From 7b2fe159c9ee4dff59504fc72cb3352cccfd9d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 25/35] fix: the decoder does not read beyond the linearization
 table

---
 liblj92/lj92.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index e704887..591fd62 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -434,9 +434,10 @@ static int parsePred6(ljp* self) {
     Px = 1 << (self->bits-1);
     left = Px + diff;
     left = (u16) (left%65536);
-    if (self->linearize)
+    if (self->linearize) {
+        if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
         linear = self->linearize[left];
-    else
+    } else
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
@@ -448,9 +449,10 @@ static int parsePred6(ljp* self) {
         Px = left;
         left = Px + diff;
         left = (u16) (left%65536);
-        if (self->linearize)
+        if (self->linearize) {
+            if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
             linear = self->linearize[left];
-        else
+        } else
             linear = left;
         thisrow[col++] = left;
         out[c++] = linear;
@@ -473,7 +475,7 @@ static int parsePred6(ljp* self) {
         left = Px + diff;
         left = (u16) (left%65536);
         if (self->linearize) {
-            if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+            if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
             linear = self->linearize[left];
         } else
             linear = left;
@@ -492,7 +494,7 @@ static int parsePred6(ljp* self) {
             left = (u16) (left%65536);
             //printf("%d %d %d %d %d %x\n",col,diff,left,lastrow[col],lastrow[col-1],&lastrow[col]);
             if (self->linearize) {
-                if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+                if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
                 linear = self->linearize[left];
             } else
                 linear = left;
@@ -581,7 +583,7 @@ static int parseScan(ljp* self) {
                 //printf("%d %d %d\n",c,diff,left);
                 int linear;
                 if (self->linearize) {
-                    if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+                    if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
                     linear = self->linearize[left];
                 } else
                     linear = left;
-- 
2.43.0


From 059a779675858ec23a27a5d3eb51b9ab628ff795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 26/35] fix: every predictor writes the tile that its caller
 lays out

lj92.h: write writeLength values, then skip skipLength values. Only predictor
6 did so, and not for a writeLength of 1; the others skipped after every row
of the image, whatever writeLength was.
---
 liblj92/lj92.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 591fd62..e95a5f2 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -442,7 +442,10 @@ static int parsePred6(ljp* self) {
     thisrow[col++] = left;
     out[c++] = linear;
     if (self->corrupt) return ret;
-    --write;
+    if (--write==0) {
+        out += self->skiplen;
+        write = self->writelen;
+    }
     int rowcount = self->x-1;
     while (rowcount--) {
         diff = nextdiff(self);
@@ -527,6 +530,7 @@ static int parseScan(ljp* self) {
     self->b = 0;
     self->padbits = 0;
     self->corrupt = 0;
+    int write = self->writelen;
     u16* out = self->image;
     u16* thisrow = self->outrow[0];
     u16* lastrow = self->outrow[1];
@@ -589,7 +593,11 @@ static int parseScan(ljp* self) {
                     linear = left;
 
                 thisrow[colx + c] = left;
-                out[colx + c] = linear; // HACK
+                *out++ = linear;
+                if (--write==0) {
+                    out += self->skiplen;
+                    write = self->writelen;
+                }
             } // c
         } // col
 
@@ -598,8 +606,6 @@ static int parseScan(ljp* self) {
         u16* temprow = lastrow;
         lastrow = thisrow;
         thisrow = temprow;
-
-        out += self->x * self->components + self->skiplen;
     } // row
 
     ret = LJ92_ERROR_NONE;
-- 
2.43.0


From e3ce545f6085a7d5c88102f8628adf0a8023e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 27/35] fix: the decoder takes no bits after a code for class
 16

T.81 H.1.2.2: the only difference of SSSS = 16 is 32768, and no extra bits
follow it. The decoder took 16 of the bits which followed, and lost its place
in the scan.
---
 liblj92/lj92.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index e95a5f2..a507779 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -386,11 +386,14 @@ inline static int nextdiff(ljp* self) {
     self->sssshist[t]++;
     self->cnt -= usedbits;
     self->b &= (1u << self->cnt)-1;
-    while (self->cnt < t) nextbyte(self);
-    self->cnt -= t;
+    int extra = t<16 ? t : 0; // The only difference of class 16 is 32768
+    while (self->cnt < extra) nextbyte(self);
+    self->cnt -= extra;
     int diff = self->b >> self->cnt;
-    int vt = t ? 1<<(t-1) : 0;
-    if (diff < vt) {
+    int vt = extra ? 1<<(t-1) : 0;
+    if (t==16) {
+        diff = 32768;
+    } else if (diff < vt) {
         vt = 1 - (1 << t);
         diff += vt;
     }
-- 
2.43.0


From 89fc0903452c648f27242082486ccba9f0289545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 28/35] fix: the encoder writes differences modulo 65536

A difference is -32767..32768 (T.81 H.1.2.1), and 32768, which is class 16, has
no extra bits. The encoder put differences beyond 32767 into class 16 with 16
extra bits, or into class 17, past the end of the tables, for predictions
outside of 0..65535.
---
 liblj92/lj92.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index a507779..83ae925 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -806,9 +806,8 @@ int frequencyScan(lje* self) {
         else
             Px = rows[0][col] + ((rows[1][col-1] - rows[0][col-1])>>1);
         diff = rows[1][col] - Px;
-        diff = diff%65536;
-        int ssss = 32 - __builtin_clz(abs(diff));
-        if (diff==0) ssss=0;
+        diff = (int16_t) diff; // Differences are modulo 65536
+        int ssss = diff==0 ? 0 : 32 - __builtin_clz(abs(diff));
         self->hist[ssss]++;
         //printf("%d %d %d %d %d %d\n",col,row,p,Px,diff,ssss);
         pixel++;
@@ -1096,15 +1095,15 @@ int writeBody(lje* self) {
         else
             Px = rows[0][col] + ((rows[1][col-1] - rows[0][col-1])>>1);
         diff = rows[1][col] - Px;
-        diff = diff%65536;
-        int ssss = 32 - __builtin_clz(abs(diff));
-        if (diff==0) ssss=0;
+        diff = (int16_t) diff; // Differences are modulo 65536
+        int ssss = diff==0 ? 0 : 32 - __builtin_clz(abs(diff));
         //printf("%d %d %d %d %d\n",col,row,Px,diff,ssss);
 
         // Write the huffman code for the ssss value
         int huffcode = self->huffsym[ssss];
         int huffenc = self->huffenc[huffcode];
         int huffbits = self->huffbits[huffcode];
+        if (ssss==16) ssss = 0; // No extra bits
         bitcount += huffbits + ssss;
 
         int vt = ssss>0?(1<<(ssss-1)):0;
-- 
2.43.0


From 2448a40b13abb1704e9766264bbde97f0169c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 29/35] fix: the encoder counts the values which it codes

With a delinearization table, the frequencies were those of the values before
the table, so classes of the values after it could have no code: what was
written for them could not be decoded. Values beyond the table are reported.
---
 liblj92/lj92.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 83ae925..2e52632 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -784,14 +784,14 @@ int frequencyScan(lje* self) {
     int maxval = (1 << self->bitdepth);
     while (pixcount--) {
         uint16_t p = *pixel;
-        /* if (self->delinearize) {
+        if (self->delinearize) {
             if (p>=self->delinearizeLength) {
                 free(rowcache);
                 return LJ92_ERROR_TOO_WIDE;
             }
             p = self->delinearize[p];
         }
-        if (p>=maxval) {
+        /* if (p>=maxval) {
             free(rowcache);
             return LJ92_ERROR_TOO_WIDE;
         } */
-- 
2.43.0


From 5e8eda3dfd2570dffd6553ece0b96235b689b937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 30/35] fix: the encoder's buffer holds every image

3 bytes per pixel are too few when most of the bytes need a stuffed zero, as
in a row of 16 bit values which all differ by 32767 but for one: the encoder
gave up, or wrote its last bytes beyond the buffer.
---
 liblj92/lj92.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 2e52632..74c4497 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -1207,18 +1207,23 @@ int lj92_encode(uint16_t* image, int width, int height, int bitdepth,
     self->skipLength = skipLength;
     self->delinearize = delinearize;
     self->delinearizeLength = delinearizeLength;
-    self->encodedLength = width*height*3+200;
-    self->encoded = malloc(self->encodedLength);
-    if (self->encoded==NULL) { free(self); return LJ92_ERROR_NO_MEMORY; }
     // Scan through data to gather frequencies of ssss prefixes
     ret = frequencyScan(self);
     if (ret != LJ92_ERROR_NONE) {
-        free(self->encoded);
         free(self);
         return ret;
     }
     // Create encoded table based on frequencies
     createEncodeTable(self);
+    // The size of the scan, in which any byte may be followed by a stuffed zero
+    long long bits = 0;
+    for (int ssss=0;ssss<17;ssss++) {
+        int extra = ssss<16 ? ssss : 0;
+        bits += (long long)self->hist[ssss] * (self->huffbits[self->huffsym[ssss]] + extra);
+    }
+    self->encodedLength = bits/8*2+200;
+    self->encoded = malloc(self->encodedLength);
+    if (self->encoded==NULL) { free(self); return LJ92_ERROR_NO_MEMORY; }
     // Write JPEG head and scan header
     writeHeader(self);
     // Scan through and do the compression
-- 
2.43.0


From 2967a23ae3ab94ec743571657169e5a1a28bfb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 31/35] fix: the encoder's Huffman table is optimal

The code which is kept free was given the weight of all of the image's pixels,
so the classes' codes were one bit deeper than needed, and which class got the
one short code which that leaves depended on the order of the classes rather
than on their frequencies.
---
 liblj92/lj92.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 74c4497..c860e42 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -850,7 +850,7 @@ void createEncodeTable(lje* self) {
     }
     codesize[17] = 0;
     others[17] = -1;
-    freq[17] = 1.0f;
+    freq[17] = 0.001f/totalpixels;
 
     float v1f,v2f;
     int v1,v2;
-- 
2.43.0


From a800e24195fb13091ea03bb2419e74cb58fa5850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 32/35] fix: the encoder reports that it has no memory

It used its row cache without looking whether there is one, and returned no
stream, but success, when the buffer could not be shrunk.
---
 liblj92/lj92.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index c860e42..53d594d 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -773,6 +773,7 @@ int frequencyScan(lje* self) {
     int pixcount = self->width*self->height;
     int scan = self->readLength;
     uint16_t* rowcache = (uint16_t*)calloc(1,self->width*4);
+    if (rowcache==NULL) return LJ92_ERROR_NO_MEMORY;
     uint16_t* rows[2];
     rows[0] = rowcache;
     rows[1] = &rowcache[self->width];
@@ -1068,6 +1069,7 @@ int writeBody(lje* self) {
     int pixcount = self->width*self->height;
     int scan = self->readLength;
     uint16_t* rowcache = (uint16_t*)calloc(1,self->width*4);
+    if (rowcache==NULL) return LJ92_ERROR_NO_MEMORY;
     uint16_t* rows[2];
     rows[0] = rowcache;
     rows[1] = &rowcache[self->width];
@@ -1238,7 +1240,8 @@ int lj92_encode(uint16_t* image, int width, int height, int bitdepth,
 #ifdef DEBUG
     printf("written:%d\n",self->encodedWritten);
 #endif
-    self->encoded = realloc(self->encoded,self->encodedWritten);
+    uint8_t* encodedFit = realloc(self->encoded,self->encodedWritten);
+    if (encodedFit!=NULL) self->encoded = encodedFit;
     self->encodedLength = self->encodedWritten;
     *encoded = self->encoded;
     *encodedLength = self->encodedLength;
-- 
2.43.0


From 4cbe81b3f7203b95eeecc7a28cbcc83466080208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:54 +0000
Subject: [PATCH 33/35] fix: get_ssss reports every class

A core of n bits has n+1 difference classes, 0 to n; the last one, in the
last two words of the table, was never read.
---
 software/src/core_axi_lite.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/software/src/core_axi_lite.cpp b/software/src/core_axi_lite.cpp
index 656daae..bab9647 100644
--- a/software/src/core_axi_lite.cpp
+++ b/software/src/core_axi_lite.cpp
@@ -35,7 +35,7 @@ vector<string> CoreAXILite::get_ssss()
     // get ssss codes from axi lite
     vector<uint64_t> ssss_codes;
     uint64_t code = 0;
-    for(int i=0; i<2*bit_depth; i++){
+    for(int i=0; i<2*(bit_depth+1); i++){
         if(i%2==0){
             code = __get(SSSS_OFFSET+i);
         } else {
@@ -45,7 +45,7 @@ vector<string> CoreAXILite::get_ssss()
     }
     // get ssss info form them
     vector<string> ssss;
-    for(int i=0; i<bit_depth; i++) {
+    for(int i=0; i<=bit_depth; i++) {
         uint32_t code_length = (ssss_codes[i] >> (16+bit_depth));
         uint32_t mask = pow(2, code_length) - 1;
         uint32_t ssss_code = 0;
-- 
2.43.0


From 1d5429e0b778bd3f2493f9b82945abe3f4a64845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 34/35] fix: the AXI bridge answers with the id of the request

One register held the last id seen on either address channel, accepted or
not, and reached the responses two cycles later: a read answered while a
write was under way carried the write's id, and the other way round.
---
 migen_src/axi_lite.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/migen_src/axi_lite.py b/migen_src/axi_lite.py
index f9219a6..beba041 100644
--- a/migen_src/axi_lite.py
+++ b/migen_src/axi_lite.py
@@ -94,18 +94,11 @@ class AxiLite(Elaboratable):
 
 		m = Module()
 
-		rwid = Signal(12)
-
-		#main process
-		with m.If(self.s_axi_ri.arvalid):
-			m.d.sync += rwid.eq(self.s_axi_ri.arid)
-		with m.If(self.s_axi_wi.awvalid):
-			m.d.sync += rwid.eq(self.s_axi_wi.awid)
-
-		m.d.sync += [
-			self.s_axi_ro.rid.eq(rwid),
-			self.s_axi_wo.bid.eq(rwid),
-		]
+		#main process, the responses carry the id of the accepted address
+		with m.If(self.s_axi_ri.arvalid & self.s_axi_ro.arready):
+			m.d.sync += self.s_axi_ro.rid.eq(self.s_axi_ri.arid)
+		with m.If(self.s_axi_wi.awvalid & self.s_axi_wo.awready):
+			m.d.sync += self.s_axi_wo.bid.eq(self.s_axi_wi.awid)
 
 		# clk and reset
 		m.d.comb += [
-- 
2.43.0


From 037bc8ee179de1d1e15133928c0976be67759c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:38 +0000
Subject: [PATCH 35/35] fix: the micro core's debug counters stop with the
 frame

The flag of a transfer under way lived in the domain that survives the
core's reset at the end of the frame, so from the first frame on the
counters counted every idle cycle. Same domain as in the beta core.
---
 migen_src/micro_integration.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index f5b07dd..b5d5d58 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -78,17 +78,17 @@ class MicroIntegration(Elaboratable):
 		if self.config['axi_lite_debug'] and self.config['support_axi_lite']:
 			# set debugging counters
 			trans_started = Signal(1)
-			m.d.full += trans_started.eq(trans_started | self.valid_in)
+			m.d.sync += trans_started.eq(trans_started | self.valid_in)
 			debug_en = Signal(8)
-			m.d.full += self.integration_3.integration_2.integration_1.core_axi_lite.debug_en.eq(debug_en)
-			m.d.full += debug_en[0].eq((trans_started==1) & (self.end_out==0) & (self.valid_in==0))
-			m.d.full += debug_en[1].eq((trans_started==1) & (self.end_out==0) & (self.valid_in==1))
-			m.d.full += debug_en[2].eq((trans_started==1) & (self.end_out==0) & (self.valid_out==0))
-			m.d.full += debug_en[3].eq((trans_started==1) & (self.end_out==0) & (self.valid_out==1))
-			m.d.full += debug_en[4].eq((trans_started==1) & (self.end_out==0) & (self.nready==1))
-			m.d.full += debug_en[5].eq((trans_started==1) & (self.end_out==0) & (self.nready==0))
-			m.d.full += debug_en[6].eq((trans_started==1) & (self.end_out==0) & (self.busy_in==1))
-			m.d.full += debug_en[7].eq((trans_started==1) & (self.end_out==0) & (self.busy_in==0))
+			m.d.sync += self.integration_3.integration_2.integration_1.core_axi_lite.debug_en.eq(debug_en)
+			m.d.sync += debug_en[0].eq((trans_started==1) & (self.end_out==0) & (self.valid_in==0))
+			m.d.sync += debug_en[1].eq((trans_started==1) & (self.end_out==0) & (self.valid_in==1))
+			m.d.sync += debug_en[2].eq((trans_started==1) & (self.end_out==0) & (self.valid_out==0))
+			m.d.sync += debug_en[3].eq((trans_started==1) & (self.end_out==0) & (self.valid_out==1))
+			m.d.sync += debug_en[4].eq((trans_started==1) & (self.end_out==0) & (self.nready==1))
+			m.d.sync += debug_en[5].eq((trans_started==1) & (self.end_out==0) & (self.nready==0))
+			m.d.sync += debug_en[6].eq((trans_started==1) & (self.end_out==0) & (self.busy_in==1))
+			m.d.sync += debug_en[7].eq((trans_started==1) & (self.end_out==0) & (self.busy_in==0))
 
 		#in
 		m.d.comb += [
-- 
2.43.0

