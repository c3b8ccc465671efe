From f85bdf9051742cdac4b9538fc7f5847a33a567c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 01/43] fix: construct Memory and FIFOs with keyword arguments
 (nmigen takes no positional ones)

---
 migen_src/axihp_fifo.py         |  2 +-
 migen_src/b64_b32.py            | 10 ++--------
 migen_src/converter_fifo.py     |  2 +-
 migen_src/encode.py             |  2 +-
 migen_src/lj92_pipeline_fifo.py |  2 +-
 5 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/migen_src/axihp_fifo.py b/migen_src/axihp_fifo.py
index 0428edc..f8e8e60 100644
--- a/migen_src/axihp_fifo.py
+++ b/migen_src/axihp_fifo.py
@@ -32,7 +32,7 @@ class AxiHPFifo(Elaboratable):
 			[self.writable16, self.readable16] + \
 			[self.read]
 
-		self.fifo = SyncFIFO(65, 32)
+		self.fifo = SyncFIFO(width=65, depth=32)
 
 	def elaborate(self, platform):
 
diff --git a/migen_src/b64_b32.py b/migen_src/b64_b32.py
index a91dd0d..a19e955 100644
--- a/migen_src/b64_b32.py
+++ b/migen_src/b64_b32.py
@@ -53,17 +53,11 @@ class B64B32(Elaboratable):
         m = Module()
 
         # fifo module
-        fifo64 = SyncFIFO(64, 2)
-        fifo32 = SyncFIFO(32, 4)
+        fifo64 = SyncFIFO(width=64, depth=2)
+        fifo32 = SyncFIFO(width=32, depth=4)
         m.submodules.fifo32 = fifo32
         m.submodules.fifo64 = fifo64
 
-        # set replace to zero
-        m.d.sync += [
-            fifo32.replace.eq(0),
-            fifo64.replace.eq(0),
-        ]
-
         # register
         reg = Signal(64)
 
diff --git a/migen_src/converter_fifo.py b/migen_src/converter_fifo.py
index 9109081..bcad38e 100644
--- a/migen_src/converter_fifo.py
+++ b/migen_src/converter_fifo.py
@@ -72,7 +72,7 @@ class ConverterFifo(Elaboratable):
 			[self.enc_out, self.enc_out_ctr, self.out_end, self.valid_out] + \
 			[self.latch_output, self.writable, self.close_full]
 
-		self.fifo = SyncFIFOBuffered(self.total_bits, self.depth)
+		self.fifo = SyncFIFOBuffered(width=self.total_bits, depth=self.depth)
 
 	def elaborate(self, platform):
 
diff --git a/migen_src/encode.py b/migen_src/encode.py
index 0d7b6df..d5abb8f 100644
--- a/migen_src/encode.py
+++ b/migen_src/encode.py
@@ -192,7 +192,7 @@ class Encode(Elaboratable):
 		self.end_out = Signal(1)
 
 		# read ports to be accessed by encoders
-		self.mem = Memory(self.bd+21, self.bd+1, init_huff_table(self.bd))
+		self.mem = Memory(width=self.bd+21, depth=self.bd+1, init=init_huff_table(self.bd))
 		self.read_ports = [self.mem.read_port() for _ in range(self.ps)]
 		
 		if self.axi_lite:
diff --git a/migen_src/lj92_pipeline_fifo.py b/migen_src/lj92_pipeline_fifo.py
index cfac0c7..9642a39 100644
--- a/migen_src/lj92_pipeline_fifo.py
+++ b/migen_src/lj92_pipeline_fifo.py
@@ -72,7 +72,7 @@ class LJ92PipelineFifo(Elaboratable):
 			[self.latch_output, self.close_full]
 
 		# 4x dual port bram with 36kb each.
-		self.fifo = SyncFIFOBuffered(self.total_width, self.depth)
+		self.fifo = SyncFIFOBuffered(width=self.total_width, depth=self.depth)
 
 	def elaborate(self, platform):
 
-- 
2.43.0


From ade5bd5077fc7b54853f161e0aead654cb39b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 02/43] fix: take differences modulo 2^16 at 16 bits depth,
 ssss 16 lost the sign

---
 migen_src/difference.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/migen_src/difference.py b/migen_src/difference.py
index b219c55..98613f4 100644
--- a/migen_src/difference.py
+++ b/migen_src/difference.py
@@ -86,8 +86,15 @@ class Difference(Elaboratable):
 
 		#if valid data
 		with m.If(self.valid_in):
-			m.d.sync += [val_out.eq(pixel_in-predic_in) for val_out, pixel_in, predic_in in zip(self.vals_out, self.pixels_in, self.predics_in)]
-			m.d.sync += [val_out_mns.eq(pixel_in-predic_in-1) for val_out_mns, pixel_in, predic_in in zip(self.vals_out_mns, self.pixels_in, self.predics_in)]
+			for val_out, val_out_mns, pixel_in, predic_in in zip(self.vals_out, self.vals_out_mns, self.pixels_in, self.predics_in):
+				diff = pixel_in-predic_in
+				#the standard takes the difference modulo 2^16, it only wraps in 16 bits depth
+				if self.bd == 16:
+					diff = Cat(diff[0:16], diff[15])
+				m.d.sync += [
+					val_out.eq(diff),
+					val_out_mns.eq(diff-1),
+				]
 
 		#if valid data
 		m.d.sync += self.valid_out.eq(self.valid_in)
-- 
2.43.0


From 278f192f2fa53bc8dac3da8fc52947c9d4f34908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 03/43] fix: connect the end signal and the markers' busy in
 the Micro integration

---
 migen_src/micro_integration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index 315cffb..f5b07dd 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -101,6 +101,7 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff.data_in.eq(integration_3.data_out),
 			fix_0xff.valid_in.eq(integration_3.valid_out),
+			fix_0xff.end_in.eq(integration_3.end_out),
 			fix_0xff.i_busy.eq(fix_0xff2.o_busy),
 		]
 
@@ -108,7 +109,8 @@ class MicroIntegration(Elaboratable):
 		m.d.comb += [
 			fix_0xff2.data_in.eq(fix_0xff.data_out),
 			fix_0xff2.valid_in.eq(fix_0xff.valid_out),
-			fix_0xff2.i_busy.eq(self.busy_in),
+			fix_0xff2.end_in.eq(fix_0xff.end_out),
+			fix_0xff2.i_busy.eq(markers.o_busy),
 			fix_0xff2.data_in_ctr.eq(fix_0xff.data_out_ctr),
 		]
 
-- 
2.43.0


From 47d91c43f9fd1c92164e484ec14d208afb7a2160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 04/43] fix: b16_b40 must hold a whole byte while the other
 buffer is busy

---
 migen_src/b16_b40.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 85f219f..0d837a9 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -70,7 +70,7 @@ class B16B40(Elaboratable):
         m.d.comb += is_valid.eq(1)
 
         # buffer for the 0.5*input size
-        temp_8 = Signal(1)
+        temp_8 = Signal(8)
 
         # handle data_out
         with m.If(buff_chs==0):
-- 
2.43.0


From d02e2445d9a45e8313f3e9396bab7e2c0123bbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 05/43] fix: width converters are busy until their first state
 is left, the first word after reset was lost

---
 migen_src/b16_b40.py | 2 +-
 migen_src/b16_b64.py | 2 +-
 migen_src/b64_b32.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 0d837a9..3a99ab4 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -41,7 +41,7 @@ class B16B40(Elaboratable):
         self.valid_in = Signal(1)
         self.valid_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
diff --git a/migen_src/b16_b64.py b/migen_src/b16_b64.py
index ecd8e3a..9626b69 100644
--- a/migen_src/b16_b64.py
+++ b/migen_src/b16_b64.py
@@ -43,7 +43,7 @@ class B16B64(Elaboratable):
         self.end_in = Signal(1)
         self.end_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
diff --git a/migen_src/b64_b32.py b/migen_src/b64_b32.py
index a19e955..632da2a 100644
--- a/migen_src/b64_b32.py
+++ b/migen_src/b64_b32.py
@@ -41,7 +41,7 @@ class B64B32(Elaboratable):
         self.valid_in = Signal(1)
         self.valid_out = Signal(1)
 
-        self.o_busy = Signal(1) #I'm busy
+        self.o_busy = Signal(1, reset=1) #I'm busy
         self.i_busy = Signal(1) #next busy
 
         self.ios = \
-- 
2.43.0


From f18c34986165fd7ed4ed9dc6b4e4604bf024f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 06/43] fix: writing one half of a Huffman entry must keep the
 other half

---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 6ca9560..1b2cd73 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -206,7 +206,7 @@ class CoreAxiLite(Elaboratable):
 		rp_data64_in = Signal(64)
 		rp_data64 = Signal(64)
 		m.d.comb += rp_data64.eq(self.rp_data)
-		m.d.comb += rp_data64_in.eq(0)
+		m.d.comb += rp_data64_in.eq(rp_data64)
 
 		# function that handle read/write operations on height and width register
 		def read_hw():
-- 
2.43.0


From de11cc0ab73861afb69aae68b2af20c724ac0b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 07/43] fix: a frame reset must not abort an AXI lite
 transaction in progress

---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 1b2cd73..dfc1f8d 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -288,7 +288,7 @@ class CoreAxiLite(Elaboratable):
 		def clean_write_debug():
 			pass
 
-		with m.FSM() as main:
+		with m.FSM(domain="full") as main:
 
 			with m.State("IDLE"):
 				#needed from other states
-- 
2.43.0


From 38fbced4ab8e29787a31d81dd624413720d6e356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 08/43] fix: AXI lite responses are held until the master takes
 them, they waited for its ready and lasted one cycle

---
 migen_src/core_axi_lite.py | 14 +++++++++++---
 migen_src/dma_axi_lite.py  | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index dfc1f8d..ae50bbb 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -336,9 +336,15 @@ class CoreAxiLite(Elaboratable):
 				# decode error
 				with m.Else():
 					m.d.full += rresp_v.eq(3)
+				# response is valid till the master takes it
+				m.d.full += rvalid_v.eq(1)
+				m.next = "READ_RESPONSE"
+
+
+			with m.State("READ_RESPONSE"):
 				# to finish
 				with m.If(self.s_axi_ri.rready):
-					m.d.full += rvalid_v.eq(1)
+					m.d.full += rvalid_v.eq(0)
 					m.next = "IDLE"
 
 
@@ -390,8 +396,10 @@ class CoreAxiLite(Elaboratable):
 				clean_write_hw()
 				clean_write_ssss()
 				m.d.full += wready_v.eq(0)
-				with m.If(self.s_axi_wi.bready):
-					m.d.full += bvalid_v.eq(1)
+				# response is valid till the master takes it
+				m.d.full += bvalid_v.eq(1)
+				with m.If((bvalid_v==1) & (self.s_axi_wi.bready==1)):
+					m.d.full += bvalid_v.eq(0)
 					m.next = "IDLE"
 
 		m.d.comb += [
diff --git a/migen_src/dma_axi_lite.py b/migen_src/dma_axi_lite.py
index e409c42..1876200 100644
--- a/migen_src/dma_axi_lite.py
+++ b/migen_src/dma_axi_lite.py
@@ -236,9 +236,15 @@ class DMAAxiLite(Elaboratable):
 				# decode error
 				with m.Else():
 					m.d.sync += rresp_v.eq(3)
+				# response is valid till the master takes it
+				m.d.sync += rvalid_v.eq(1)
+				m.next = "READ_RESPONSE"
+
+
+			with m.State("READ_RESPONSE"):
 				# to finish
 				with m.If(self.s_axi_ri_.rready):
-					m.d.sync += rvalid_v.eq(1)
+					m.d.sync += rvalid_v.eq(0)
 					m.next = "IDLE"
 
 
@@ -271,8 +277,10 @@ class DMAAxiLite(Elaboratable):
 			with m.State("WRITE_RESPONSE"):
 				clean_write_basic()
 				m.d.sync += wready_v.eq(0)
-				with m.If(self.s_axi_wi_.bready):
-					m.d.sync += bvalid_v.eq(1)
+				# response is valid till the master takes it
+				m.d.sync += bvalid_v.eq(1)
+				with m.If((bvalid_v==1) & (self.s_axi_wi_.bready==1)):
+					m.d.sync += bvalid_v.eq(0)
 					m.next = "IDLE"
 
 		m.d.comb += [
-- 
2.43.0


From 89474ed746844deb53cc0420dee9bdb224d5b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 09/43] fix: end of frame and row starts for frames with one
 input per row or two inputs in all

---
 migen_src/signals.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/migen_src/signals.py b/migen_src/signals.py
index e3af351..ea4e037 100644
--- a/migen_src/signals.py
+++ b/migen_src/signals.py
@@ -60,13 +60,29 @@ class Signals(Elaboratable):
 		with m.FSM() as fsm:
 
 			with m.State("IDLE"):
+				# the frame may be one input only
+				m.d.sync += self.end_of_frame.eq((self.height == 1) & (self.width == self.ps))
 				with m.If(self.new_input):
-					m.d.sync += [
-						width_temp.eq(self.width-self.ps),
-						height_temp.eq(self.height-1),
-						self.new_row.eq(0),
-					]
+					# the row may be one input only
+					with m.If(self.width == self.ps):
+						m.d.sync += [
+							width_temp.eq(self.width),
+							height_temp.eq(self.height-2),
+							self.new_row.eq(1),
+						]
+					with m.Else():
+						m.d.sync += [
+							width_temp.eq(self.width-self.ps),
+							height_temp.eq(self.height-1),
+							self.new_row.eq(0),
+						]
 					m.next = "LOOP"
+					# the next input may be the last one
+					with m.If(((self.height == 1) & (self.width == 2*self.ps)) | ((self.height == 2) & (self.width == self.ps))):
+						m.d.sync += self.end_of_frame.eq(1)
+						m.next = "END"
+					with m.Elif((self.height == 1) & (self.width == self.ps)):
+						m.next = "END"
 
 			with m.State("LOOP"):
 				with m.If(self.new_input):
@@ -81,7 +97,7 @@ class Signals(Elaboratable):
 							width_temp.eq(width_temp-self.ps),
 							self.new_row.eq(0),
 						]
-					with m.If((height_temp == 0) & (width_temp == 2*self.ps)):
+					with m.If(((height_temp == 0) & (width_temp == 2*self.ps)) | ((height_temp == 1) & (width_temp == self.ps) & (self.width == self.ps))):
 						m.d.sync += [
 							self.end_of_frame.eq(1),
 						]
-- 
2.43.0


From baf70186869660167428312ab32f7454ca19d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 10/43] fix: markers must not offer a ninth start word while
 the next stage is busy

---
 migen_src/markers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 132efb5..dd24837 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -108,14 +108,14 @@ class Markers(Elaboratable):
                 # handle counter
                 with m.If(self.i_busy==0):
                     m.d.sync += counter.eq(counter - 1)
-                    # handle transition to frame handling
-                    with m.If(counter==0):
-                        m.d.sync += counter.eq(8)
-                        m.d.comb += [
-                            self.data_out.eq(0),
-                            self.valid_out.eq(0),
-                        ]
-                        m.next = "FRAME_HANDLING"
+                # handle transition to frame handling
+                with m.If(counter==0):
+                    m.d.sync += counter.eq(8)
+                    m.d.comb += [
+                        self.data_out.eq(0),
+                        self.valid_out.eq(0),
+                    ]
+                    m.next = "FRAME_HANDLING"
 
             with m.State("ENDING_MARKER"):
                 # handle output data
-- 
2.43.0


From 2d53cbf99357659c4fd195c7a308fd2b7c32aa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 11/43] fix: markers must pass the last word before ending, one
 word frames were lost

---
 migen_src/markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index dd24837..564047b 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -73,7 +73,7 @@ class Markers(Elaboratable):
         # late_data_i = Signal(16)
 
         end_cond = Signal(1)
-        m.d.sync += end_cond.eq((self.i_busy==0)&(self.valid_in==1)&(self.end_in==1))
+        m.d.sync += end_cond.eq((self.o_busy==0)&(self.valid_in==1)&(self.end_in==1))
 
         # late2_busy_i = Signal(1)
         # late2_valid_i = Signal(1)
-- 
2.43.0


From 631fd2b9b9a139f61a185062ced187728fbe3528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 12/43] fix: forced end is emitted when no word came out yet,
 and waits for a stalled word to be taken

---
 migen_src/markers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 564047b..2310c67 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -75,6 +75,10 @@ class Markers(Elaboratable):
         end_cond = Signal(1)
         m.d.sync += end_cond.eq((self.o_busy==0)&(self.valid_in==1)&(self.end_in==1))
 
+        # a word is offered and not yet taken
+        stalled = Signal(1)
+        m.d.sync += stalled.eq((self.valid_out==1)&(self.i_busy==1))
+
         # late2_busy_i = Signal(1)
         # late2_valid_i = Signal(1)
         # late2_end_i = Signal(1)
@@ -96,7 +100,7 @@ class Markers(Elaboratable):
 
             with m.State("IDLE"):
                 m.d.sync += counter.eq(8)
-                with m.If(self.valid_in):
+                with m.If(self.valid_in | self.force_end_in):
                     m.next = "STARING_MARKER"
 
             with m.State("STARING_MARKER"):
@@ -150,7 +154,7 @@ class Markers(Elaboratable):
                 # with m.If((late2_busy_i==0)&(late2_valid_i==1)&(late2_end_i==1)):
                 with m.If(end_cond):
                     m.next = "ENDING_MARKER"
-                with m.Elif(self.force_end_in):
+                with m.Elif((self.force_end_in==1)&(stalled==0)):
                     m.next = "FORCE_ENDING_MARKER"
                 with m.Else():
                     # m.d.comb += [
-- 
2.43.0


From 3b0bc978fd601f3827ee3b72f602ac1d38d763a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 13/43] fix: no extra word between the last word of a frame and
 the automatic reset

---
 migen_src/beta_integration.py  | 3 ++-
 migen_src/micro_integration.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/migen_src/beta_integration.py b/migen_src/beta_integration.py
index 6d7019c..ccda49d 100644
--- a/migen_src/beta_integration.py
+++ b/migen_src/beta_integration.py
@@ -127,7 +127,8 @@ class BetaIntegration(Elaboratable):
 		#out
 		m.d.comb += [
 			self.data_out.eq(markers.data_out),
-			self.valid_out.eq(markers.valid_out),
+			# no more words while the reset after the last one is on the way
+			self.valid_out.eq((markers.valid_out==1)&(auto_reset.reset_out==0)),
 			self.end_out.eq(markers.end_out),
 			self.nready.eq(integration_3.nready),
 		]
diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index f5b07dd..a132fba 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -126,7 +126,8 @@ class MicroIntegration(Elaboratable):
 		#out
 		m.d.comb += [
 			self.data_out.eq(markers.data_out),
-			self.valid_out.eq(markers.valid_out),
+			# no more words while the reset after the last one is on the way
+			self.valid_out.eq((markers.valid_out==1)&(auto_reset.reset_out==0)),
 			self.end_out.eq(markers.end_out),
 			self.nready.eq(integration_3.nready),
 		]
-- 
2.43.0


From 5953186c85ee467fce20d069a4daf109d3675bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 14/43] fix: axihp_writer flags the last word of a burst with
 that word and counts it once

---
 migen_src/axihp_writer.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/migen_src/axihp_writer.py b/migen_src/axihp_writer.py
index 9434fa4..baba8ca 100644
--- a/migen_src/axihp_writer.py
+++ b/migen_src/axihp_writer.py
@@ -121,15 +121,15 @@ class AxiHPWriter(Elaboratable):
 		counter = Signal(4)
 		with m.If(data_en):
 			with m.If(counter==(self.data_c-1)):
-				m.d.sync += [
-					counter.eq(0),
-					wlast.eq(1),
-				]
+				m.d.sync += counter.eq(0)
 			with m.Else():
-				m.d.sync += [
-					wlast.eq(0),
-					counter.eq(counter + 1),
-				]
+				m.d.sync += counter.eq(counter + 1)
+
+		m.d.comb += wlast.eq((wvalid==1) & (counter==(self.data_c-1)))
+
+		# last word of the burst is taken
+		last_en = Signal(1)
+		m.d.comb += last_en.eq((data_en==1) & (wlast==1))
 
 		m.d.comb += data_en.eq((wvalid==1) & (self.m_axi_wi.wready==1))
 
@@ -141,7 +141,7 @@ class AxiHPWriter(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(wlast):
+			with m.If(last_en):
 				m.d.sync += wvalid.eq(0)
 
 		m.d.comb += [
@@ -180,11 +180,11 @@ class AxiHPWriter(Elaboratable):
 		---------------------'''
 
 		# active_proc
-		with m.If((addr_en==1) & (wlast==0)):
+		with m.If((addr_en==1) & (last_en==0)):
 			# one more
 			m.d.sync += active.eq(active + 1)
 
-		with m.Elif((addr_en==0) & (wlast==1)):
+		with m.Elif((addr_en==0) & (last_en==1)):
 			# one less
 			m.d.sync += active.eq(active - 1)
 
-- 
2.43.0


From 8f80a9de89884e9d963a05f18dd10e7d238f13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 15/43] fix: axihp_reader acts on the last flag only with the
 word it comes with

---
 migen_src/axihp_reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/migen_src/axihp_reader.py b/migen_src/axihp_reader.py
index 3db010c..16e3e76 100644
--- a/migen_src/axihp_reader.py
+++ b/migen_src/axihp_reader.py
@@ -106,6 +106,9 @@ class AxiHPReader(Elaboratable):
 
 		m.d.comb += data_en.eq((rready==1) & (self.m_axi_ri.rvalid==1))
 
+		# last word of the burst is taken
+		m.d.comb += rlast.eq((data_en==1) & (self.m_axi_ri.rlast==1))
+
 		# idle phase
 		with m.If(rready==0):
 			# fifo not full & inactive
@@ -114,7 +117,7 @@ class AxiHPReader(Elaboratable):
 
 		# active phase
 		with m.Else():
-			with m.If(self.m_axi_ri.rlast):
+			with m.If(rlast):
 				m.d.sync += rready.eq(0)
 
 		m.d.comb += [
@@ -130,11 +133,11 @@ class AxiHPReader(Elaboratable):
 		---------------------'''
 
 		# one more
-		with m.If((addr_en==1) & (self.m_axi_ri.rlast==0)):
+		with m.If((addr_en==1) & (rlast==0)):
 			m.d.sync += active.eq(active + 1)
 
 		# one less
-		with m.Elif((addr_en==0) & (self.m_axi_ri.rlast==1)):
+		with m.Elif((addr_en==0) & (rlast==1)):
 			m.d.sync += active.eq(active - 1)
 
 		m.d.comb += self.inactive.eq(active==0)
-- 
2.43.0


From fed2bd5d7f11db1680606ec904831ea669303650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 16/43] fix: b16_b40 state must be in the clock domain of its
 buffers, a frame reset lost and reordered data

---
 migen_src/b16_b40.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 3a99ab4..96dff83 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -91,7 +91,7 @@ class B16B40(Elaboratable):
                 m.d.full += buffer2_valid.eq(0)
 
         # fsm
-        with m.FSM() as fsm:
+        with m.FSM(domain="full") as fsm:
 
             # buffer 1 handling
             with m.State("BUFF1_IDLE"):
-- 
2.43.0


From 0b39f1557eaafad52b3dbe33ec2a5c1e62256634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 17/43] fix: generated verilog must have the ports that drive
 its clock domains

---
 migen_src/b16_b40.py                         | 2 +-
 migen_src/b64_b32_2.py                       | 2 +-
 migen_src/beta_integration.py                | 2 +-
 migen_src/beta_integration_axistream.py      | 3 ++-
 migen_src/beta_integration_fifo_axistream.py | 3 ++-
 migen_src/beta_integration_fifo_lvds.py      | 3 ++-
 migen_src/beta_integration_fullaxi.py        | 3 ++-
 migen_src/clk_domains.py                     | 8 +++++++-
 migen_src/core_axi_lite.py                   | 2 +-
 migen_src/debug_module.py                    | 2 +-
 migen_src/integration_1.py                   | 3 ++-
 migen_src/integration_2.py                   | 3 ++-
 migen_src/integration_3.py                   | 3 ++-
 migen_src/integration_3_axi_stream.py        | 3 ++-
 migen_src/micro_integration.py               | 2 +-
 migen_src/micro_integration_axistream.py     | 3 ++-
 migen_src/register_file.py                   | 2 +-
 17 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 96dff83..84f3da4 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -161,4 +161,4 @@ class B16B40(Elaboratable):
 
 if __name__ == "__main__":
     d = B16B40()
-    main(d, ports=d.ios)
\ No newline at end of file
+    main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/b64_b32_2.py b/migen_src/b64_b32_2.py
index b012ea0..497c727 100644
--- a/migen_src/b64_b32_2.py
+++ b/migen_src/b64_b32_2.py
@@ -131,4 +131,4 @@ class B64B32_2(Elaboratable):
 
 if __name__ == "__main__":
     d = B64B32_2()
-    main(d, ports=d.ios)
\ No newline at end of file
+    main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/beta_integration.py b/migen_src/beta_integration.py
index ccda49d..7edc77e 100644
--- a/migen_src/beta_integration.py
+++ b/migen_src/beta_integration.py
@@ -138,4 +138,4 @@ class BetaIntegration(Elaboratable):
 
 if __name__ == "__main__":
 	d = BetaIntegration()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/beta_integration_axistream.py b/migen_src/beta_integration_axistream.py
index 0fa1736..db2386f 100644
--- a/migen_src/beta_integration_axistream.py
+++ b/migen_src/beta_integration_axistream.py
@@ -3,6 +3,7 @@ from nmigen.cli import main
 from nmigen.back import *
 from math import log, ceil
 import beta_integration
+import clk_domains
 
 class BetaIntegrationAxiStream(Elaboratable):
 
@@ -58,4 +59,4 @@ class BetaIntegrationAxiStream(Elaboratable):
 
 if __name__ == "__main__":
 	d = BetaIntegrationAxiStream()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/beta_integration_fifo_axistream.py b/migen_src/beta_integration_fifo_axistream.py
index bac093a..ffb9a91 100644
--- a/migen_src/beta_integration_fifo_axistream.py
+++ b/migen_src/beta_integration_fifo_axistream.py
@@ -4,6 +4,7 @@ from nmigen.back import *
 from math import log, ceil
 import beta_integration
 import b64_b32_2
+import clk_domains
 
 class BetaIntegrationFIFOAxiStream(Elaboratable):
 
@@ -64,4 +65,4 @@ class BetaIntegrationFIFOAxiStream(Elaboratable):
 
 if __name__ == "__main__":
 	d = BetaIntegrationFIFOAxiStream()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/beta_integration_fifo_lvds.py b/migen_src/beta_integration_fifo_lvds.py
index 4330b0f..82f39e6 100644
--- a/migen_src/beta_integration_fifo_lvds.py
+++ b/migen_src/beta_integration_fifo_lvds.py
@@ -5,6 +5,7 @@ from math import log, ceil
 import beta_integration
 import b64_b32_2
 import b16_b40
+import clk_domains
 
 class BetaIntegrationFIFOLVDS(Elaboratable):
 
@@ -72,4 +73,4 @@ class BetaIntegrationFIFOLVDS(Elaboratable):
 
 if __name__ == "__main__":
 	d = BetaIntegrationFIFOLVDS()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/beta_integration_fullaxi.py b/migen_src/beta_integration_fullaxi.py
index 8075a6a..42ed8f5 100644
--- a/migen_src/beta_integration_fullaxi.py
+++ b/migen_src/beta_integration_fullaxi.py
@@ -7,6 +7,7 @@ import axihp_reader, axihp_writer
 import b64_b32, b16_b64
 import dma_axi_lite
 import axihp_fifo
+import clk_domains
 
 # AXI_Reader -> AXI_FIFO -> B64B32 -> LJ92 -> B16B64 -> AXI_FIFO -> AXI_Writer
 
@@ -177,4 +178,4 @@ class BetaIntegrationFullAxi(Elaboratable):
 
 if __name__ == "__main__":
 	d = BetaIntegrationFullAxi()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/clk_domains.py b/migen_src/clk_domains.py
index e79cb0c..d72821c 100644
--- a/migen_src/clk_domains.py
+++ b/migen_src/clk_domains.py
@@ -4,6 +4,12 @@ accessed = False
 FULL = ClockDomain("full")
 CORE = ClockDomain("sync")
 
+# the ports that drive the domains, "main" doesn't add them to the generated
+# verilog when the domains are explicitly declared.
+ios = [FULL.clk, FULL.rst]
+# designs without an auto reset must have a reset for the core as well.
+core_ios = ios + [CORE.rst]
+
 def load_clk(m):
 
     global accessed
@@ -18,4 +24,4 @@ def load_clk(m):
         m.d.comb += [
             CORE.clk.eq(FULL.clk),
         ]
-        accessed = True
\ No newline at end of file
+        accessed = True
diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index ae50bbb..3b0d47a 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -435,4 +435,4 @@ if __name__ == "__main__":
 		"axi_lite_debug": True,
 	}
 	d = CoreAxiLite(config, constraints.Constraints())
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/debug_module.py b/migen_src/debug_module.py
index d403cb1..9f44ca9 100644
--- a/migen_src/debug_module.py
+++ b/migen_src/debug_module.py
@@ -56,4 +56,4 @@ class DebugModule(Elaboratable):
 
 if __name__ == "__main__":
 	d = DebugModule()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/integration_1.py b/migen_src/integration_1.py
index abb3394..42d15f9 100644
--- a/migen_src/integration_1.py
+++ b/migen_src/integration_1.py
@@ -6,6 +6,7 @@ import difference, normalize, encode, merge, signals
 import constraints
 import predictor_p1_c4_px4, predictor_p1_c4_pix1_2
 import core_axi_lite, register_file, force_end
+import clk_domains
 
 class Integration1(Elaboratable):
 
@@ -178,4 +179,4 @@ if __name__ == "__main__":
 	}
 	cons = constraints.Constraints()
 	d = Integration1(config, cons)
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.core_ios)
\ No newline at end of file
diff --git a/migen_src/integration_2.py b/migen_src/integration_2.py
index 7911a05..79ab87e 100644
--- a/migen_src/integration_2.py
+++ b/migen_src/integration_2.py
@@ -6,6 +6,7 @@ import integration_1
 import converter_fifo, converter, lj92_pipeline_fifo
 import constraints
 import config
+import clk_domains
 
 class Integration2(Elaboratable):
 
@@ -132,4 +133,4 @@ if __name__ == "__main__":
 	}
 	cons = constraints.Constraints()
 	d = Integration2(config, cons)
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.core_ios)
\ No newline at end of file
diff --git a/migen_src/integration_3.py b/migen_src/integration_3.py
index c43e16b..1651b78 100644
--- a/migen_src/integration_3.py
+++ b/migen_src/integration_3.py
@@ -5,6 +5,7 @@ from math import log, ceil
 import vbits_to_cbits
 import integration_2
 import constraints
+import clk_domains
 
 class Integration3(Elaboratable):
 
@@ -94,4 +95,4 @@ if __name__ == "__main__":
 	}
 	cons = constraints.Constraints()
 	d = Integration3(config, cons)
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.core_ios)
\ No newline at end of file
diff --git a/migen_src/integration_3_axi_stream.py b/migen_src/integration_3_axi_stream.py
index 1e3a9bf..066c051 100644
--- a/migen_src/integration_3_axi_stream.py
+++ b/migen_src/integration_3_axi_stream.py
@@ -3,6 +3,7 @@ from nmigen.cli import main
 from nmigen.back import *
 from math import log, ceil
 import integration_3, constraints
+import clk_domains
 
 class Integration3AxiStream(Elaboratable):
 
@@ -72,4 +73,4 @@ class Integration3AxiStream(Elaboratable):
 
 if __name__ == "__main__":
 	d = Integration3AxiStream()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.core_ios)
\ No newline at end of file
diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index a132fba..ea66b7c 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -136,4 +136,4 @@ class MicroIntegration(Elaboratable):
 
 if __name__ == "__main__":
 	d = MicroIntegration()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/micro_integration_axistream.py b/migen_src/micro_integration_axistream.py
index 12b7968..93533fe 100644
--- a/migen_src/micro_integration_axistream.py
+++ b/migen_src/micro_integration_axistream.py
@@ -3,6 +3,7 @@ from nmigen.cli import main
 from nmigen.back import *
 from math import log, ceil
 import micro_integration
+import clk_domains
 
 class MicroIntegrationAxiStream(Elaboratable):
 
@@ -58,4 +59,4 @@ class MicroIntegrationAxiStream(Elaboratable):
 
 if __name__ == "__main__":
 	d = MicroIntegrationAxiStream()
-	main(d, ports=d.ios)
\ No newline at end of file
+	main(d, ports=d.ios + clk_domains.ios)
\ No newline at end of file
diff --git a/migen_src/register_file.py b/migen_src/register_file.py
index 97d96af..2c06be7 100644
--- a/migen_src/register_file.py
+++ b/migen_src/register_file.py
@@ -67,4 +67,4 @@ class RegisterFile(Elaboratable):
 
 if __name__ == "__main__":
 	m = RegisterFile()
-	main(m, ports=m.ios)
\ No newline at end of file
+	main(m, ports=m.ios + clk_domains.ios)
\ No newline at end of file
-- 
2.43.0


From 4db11b7f7ad8e341db9c737522673aa0db0c5373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 18/43] fix: one write data beat per AXI lite write, a second
 one was acknowledged and lost

---
 migen_src/core_axi_lite.py | 4 ++--
 migen_src/dma_axi_lite.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index 3b0d47a..b597628 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -369,7 +369,8 @@ class CoreAxiLite(Elaboratable):
 
 			with m.State("WRITE_DATA"):
 				m.d.full += wready_v.eq(1)	# ready for data
-				with m.If(self.s_axi_wi.wvalid):
+				with m.If((self.s_axi_wi.wvalid==1) & (wready_v==1)):
+					m.d.full += wready_v.eq(0)	# done
 					m.d.comb += [
 						wdata_v.eq(self.s_axi_wi.wdata),
 						wstrb_v.eq(self.s_axi_wi.wstrb),
@@ -395,7 +396,6 @@ class CoreAxiLite(Elaboratable):
 					clean_write_debug()
 				clean_write_hw()
 				clean_write_ssss()
-				m.d.full += wready_v.eq(0)
 				# response is valid till the master takes it
 				m.d.full += bvalid_v.eq(1)
 				with m.If((bvalid_v==1) & (self.s_axi_wi.bready==1)):
diff --git a/migen_src/dma_axi_lite.py b/migen_src/dma_axi_lite.py
index 1876200..f6082fa 100644
--- a/migen_src/dma_axi_lite.py
+++ b/migen_src/dma_axi_lite.py
@@ -260,7 +260,8 @@ class DMAAxiLite(Elaboratable):
 			with m.State("WRITE_DATA"):
 				m.d.sync += awready_v.eq(0)	# done
 				m.d.sync += wready_v.eq(1)	# ready for data
-				with m.If(self.s_axi_wi_.wvalid):
+				with m.If((self.s_axi_wi_.wvalid==1) & (wready_v==1)):
+					m.d.sync += wready_v.eq(0)	# done
 					m.d.comb += [
 						wdata_v.eq(self.s_axi_wi_.wdata),
 						wstrb_v.eq(self.s_axi_wi_.wstrb),
@@ -276,7 +277,6 @@ class DMAAxiLite(Elaboratable):
 
 			with m.State("WRITE_RESPONSE"):
 				clean_write_basic()
-				m.d.sync += wready_v.eq(0)
 				# response is valid till the master takes it
 				m.d.sync += bvalid_v.eq(1)
 				with m.If((bvalid_v==1) & (self.s_axi_wi_.bready==1)):
-- 
2.43.0


From 38fd4c4e2b2b06eccd99dce556a9dd561c78e28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 19/43] fix: write the data to the high half of a Huffman
 entry, it always became zero

---
 migen_src/core_axi_lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/core_axi_lite.py b/migen_src/core_axi_lite.py
index b597628..4a6185f 100644
--- a/migen_src/core_axi_lite.py
+++ b/migen_src/core_axi_lite.py
@@ -262,7 +262,7 @@ class CoreAxiLite(Elaboratable):
 					start = 32 + i*8
 					end = start+8
 					with m.If(wstrb_v[i]):
-						m.d.comb += rp_data64_in[start:end].eq(wdata_v[start:end])
+						m.d.comb += rp_data64_in[start:end].eq(wdata_v[i*8:i*8+8])
 					with m.Else():
 						m.d.comb += rp_data64_in[start:end].eq(rp_data64[start:end])
 			m.d.full += [
-- 
2.43.0


From 8d78c5ea093351f40fc16c1a405bdb31d7e08781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 20/43] fix: the end flag is up as long as the last marker word
 is offered, not only when it is taken

---
 migen_src/markers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 2310c67..0487e94 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -127,12 +127,13 @@ class Markers(Elaboratable):
                     self.data_out.eq(0xFFFF),
                     self.valid_out.eq(1),
                 ]
+                # handle end signals, the last word is flagged while it waits too
+                with m.If(counter==1):
+                    m.d.comb += self.end_out.eq(1)
                 # handle counter
                 with m.If(self.i_busy==0):
                     m.d.sync += counter.eq(counter - 1)
-                    # handle end signals
                     with m.If(counter==1):
-                        m.d.comb += self.end_out.eq(1)
                         m.next = "DONE_NORMAL"
 
             with m.State("FORCE_ENDING_MARKER"):
@@ -141,12 +142,13 @@ class Markers(Elaboratable):
                     self.data_out.eq(0xFFFE),
                     self.valid_out.eq(1),
                 ]
+                # handle end signals, the last word is flagged while it waits too
+                with m.If(counter==1):
+                    m.d.comb += self.end_out.eq(1)
                 # handle counter
                 with m.If(self.i_busy==0):
                     m.d.sync += counter.eq(counter - 1)
-                    # handle end signals
                     with m.If(counter==1):
-                        m.d.comb += self.end_out.eq(1)
                         m.next = "DONE_FORCE"
 
             with m.State("FRAME_HANDLING"):
-- 
2.43.0


From 4b30509e6ec33b12cb1419bb9421a9c54433acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 21/43] fix: the AXI lite bridge answers every transaction with
 its own ID

---
 migen_src/axi_lite.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/migen_src/axi_lite.py b/migen_src/axi_lite.py
index f9219a6..5e56081 100644
--- a/migen_src/axi_lite.py
+++ b/migen_src/axi_lite.py
@@ -94,18 +94,11 @@ class AxiLite(Elaboratable):
 
 		m = Module()
 
-		rwid = Signal(12)
-
-		#main process
-		with m.If(self.s_axi_ri.arvalid):
-			m.d.sync += rwid.eq(self.s_axi_ri.arid)
-		with m.If(self.s_axi_wi.awvalid):
-			m.d.sync += rwid.eq(self.s_axi_wi.awid)
-
-		m.d.sync += [
-			self.s_axi_ro.rid.eq(rwid),
-			self.s_axi_wo.bid.eq(rwid),
-		]
+		#the IDs of the transactions in progress, kept until their responses
+		with m.If(self.s_axi_ri.arvalid & self.m_axi_ri.arready):
+			m.d.sync += self.s_axi_ro.rid.eq(self.s_axi_ri.arid)
+		with m.If(self.s_axi_wi.awvalid & self.m_axi_wi.awready):
+			m.d.sync += self.s_axi_wo.bid.eq(self.s_axi_wi.awid)
 
 		# clk and reset
 		m.d.comb += [
-- 
2.43.0


From 757d62c30e48cdba45c4bf7326431e20c6aead3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 22/43] fix: the delayer must not start by itself with a delay
 of two cycles

---
 migen_src/delayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/delayer.py b/migen_src/delayer.py
index 46245cb..50f060f 100644
--- a/migen_src/delayer.py
+++ b/migen_src/delayer.py
@@ -26,7 +26,7 @@ class Delayer(Elaboratable):
 		with m.If(timer_start):
 			m.d.sync += self.timer.eq(self.timer - 1)
 		
-		m.d.sync += out_val.eq((self.timer == 0)| out_val)
+		m.d.sync += out_val.eq(((self.timer == 0) & timer_start) | out_val)
 		m.d.comb += self.out_sig.eq(out_val)
 
 		return m
-- 
2.43.0


From 537107e880bd3427edcdf233961b2d8d4229761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 23/43] fix: liblj92 differences are modulo 2^16, category 16
 has no additional bits

---
 liblj92/lj92.c | 58 ++++++++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 665c504..5e6bcbf 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -49,7 +49,7 @@ typedef struct _ljp {
     int skiplen; // Skip this many values after each row
     u16* linearize; // Linearization table
     int linlen;
-    int sssshist[16];
+    int sssshist[17];
 
     // Huffman table - only one supported, and probably needed
 #ifdef SLOW_HUFF
@@ -324,21 +324,20 @@ static int receive(ljp* self,int ssss) {
     return v;
 }
 
-static int extend(ljp* self,int v,int t) {
-    int vt = 1<<(t-1);
-    if (v < vt) {
-        vt = (-1 << t) + 1;
-        v = v + vt;
-    }
+#endif
+
+static int extend(int v,int t) {
+    if (t > 0 && v < (1<<(t-1)))
+        v += 1 - (1<<t);
     return v;
 }
-#endif
 
 inline static int nextdiff(ljp* self) {
 #ifdef SLOW_HUFF
     int t = decode(self);
-    int diff = receive(self,t);
-    diff = extend(self,diff,t);
+    int diff = 32768; // Category 16 has no additional bits
+    if (t < 16)
+        diff = extend(receive(self,t),t);
 #else
     u32 b = self->b;
     int cnt = self->cnt;
@@ -366,6 +365,12 @@ inline static int nextdiff(ljp* self) {
     cnt -= usedbits;
     int keepbitsmask = (1 << cnt)-1;
     b &= keepbitsmask;
+    if (t == 16) { // Category 16 has no additional bits
+        self->b = b;
+        self->cnt = cnt;
+        self->ix = ix;
+        return 32768;
+    }
     while (cnt < t) {
         next = *(u16*)&self->data[ix];
         int one = next&0xFF;
@@ -379,12 +384,7 @@ inline static int nextdiff(ljp* self) {
         } else if (two==0xFF) ix++;
     }
     cnt -= t;
-    int diff = b >> cnt;
-    int vt = 1<<(t-1);
-    if (diff < vt) {
-        vt = (-1 << t) + 1;
-        diff += vt;
-    }
+    int diff = extend(b >> cnt,t);
     keepbitsmask = (1 << cnt)-1;
     self->b = b & keepbitsmask;
     self->cnt = cnt;
@@ -727,6 +727,17 @@ typedef struct _lje {
     int huffsym[18];
 } lje;
 
+/* A difference modulo 2^16, -32767 to 32768 (T.81 H.1.2.1) */
+static int32_t modDiff(int32_t diff) {
+    diff &= 0xFFFF;
+    return diff > 32768 ? diff - 65536 : diff;
+}
+
+/* Category of a difference */
+static int ssssOf(int32_t diff) {
+    return diff == 0 ? 0 : 32 - __builtin_clz(abs(diff));
+}
+
 int frequencyScan(lje* self) {
     // Scan through the tile using the standard type 6 prediction
     // Need to cache the previous 2 row in target coordinates because of tiling
@@ -766,10 +777,8 @@ int frequencyScan(lje* self) {
             Px = rows[0][col];
         else
             Px = rows[0][col] + ((rows[1][col-1] - rows[0][col-1])>>1);
-        diff = rows[1][col] - Px;
-        diff = diff%65536;
-        int ssss = 32 - __builtin_clz(abs(diff));
-        if (diff==0) ssss=0;
+        diff = modDiff(rows[1][col] - Px);
+        int ssss = ssssOf(diff);
         self->hist[ssss]++;
         //printf("%d %d %d %d %d %d\n",col,row,p,Px,diff,ssss);
         pixel++;
@@ -1056,23 +1065,22 @@ int writeBody(lje* self) {
             Px = rows[0][col];
         else
             Px = rows[0][col] + ((rows[1][col-1] - rows[0][col-1])>>1);
-        diff = rows[1][col] - Px;
-        diff = diff%65536;
-        int ssss = 32 - __builtin_clz(abs(diff));
-        if (diff==0) ssss=0;
+        diff = modDiff(rows[1][col] - Px);
+        int ssss = ssssOf(diff);
         //printf("%d %d %d %d %d\n",col,row,Px,diff,ssss);
 
         // Write the huffman code for the ssss value
         int huffcode = self->huffsym[ssss];
         int huffenc = self->huffenc[huffcode];
         int huffbits = self->huffbits[huffcode];
+        if (ssss == 16) ssss = 0; // Category 16 has no additional bits
         bitcount += huffbits + ssss;
 
         int vt = ssss>0?(1<<(ssss-1)):0;
         //printf("%d %d %d %d\n",rows[1][col],Px,diff,Px+diff);
 #ifdef DEBUG
 #endif
-        if (diff < vt)
+        if (ssss > 0 && diff < vt)
             diff += (1 << (ssss))-1;
 
         // Write the ssss
-- 
2.43.0


From 4ced1701185e5dffa1e29bfd45c7b0ed01bf155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 24/43] fix: liblj92 read the scan only to its end, padding
 with zeros and refusing invalid codes

---
 liblj92/lj92.c | 144 +++++++++++++++++++------------------------------
 1 file changed, 56 insertions(+), 88 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 5e6bcbf..ff3098a 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -66,6 +66,8 @@ typedef struct _ljp {
     // Parse state
     int cnt;
     u32 b;
+    int padbits; // Bits in b that follow the end of the scan
+    int corrupt; // The scan ended early or holds an invalid code
     u16* image;
     u16* rowcache;
     u16* outrow[2];
@@ -224,7 +226,7 @@ static int parseHuff(ljp* self) {
     }
     self->huffbits = maxbits;
     /* Now fill the lut */
-    u16* hufflut = malloc((1<<maxbits) * sizeof(u16));
+    u16* hufflut = calloc(1<<maxbits,sizeof(u16));
     if (hufflut == NULL) return LJ92_ERROR_NO_MEMORY;
     self->hufflut = hufflut;
     int i = 0;
@@ -281,49 +283,53 @@ static int parseBlock(ljp* self) {
     return LJ92_ERROR_NONE;
 }
 
-#ifdef SLOW_HUFF
-static int nextbit(ljp* self) {
-    u32 b = self->b;
-    if (self->cnt == 0) {
-        u8* data = &self->data[self->ix];
-        u32 next = *data++;
-        b = next;
-        if (next == 0xff) {
-            data++;
-            self->ix++;
-        }
+/* Append the next byte of the scan to the bit buffer, zeros after its end */
+static void nextbyte(ljp* self) {
+    u8* data = self->data;
+    int ix = self->ix;
+    int next = 0;
+    if (ix < self->datalen && data[ix] != 0xFF) {
+        next = data[ix];
         self->ix++;
-        self->cnt = 8;
+    } else if (ix+1 < self->datalen && data[ix+1] == 0) { // Stuffed
+        next = 0xFF;
+        self->ix += 2;
+    } else { // Marker or end of data
+        self->padbits += 8;
     }
-    int bit = b >> 7;
-    self->cnt--;
-    self->b = (b << 1)&0xFF;
-    return bit;
+    self->b = (self->b<<8)|next;
+    self->cnt += 8;
+}
+
+/* Remove the top bits of the bit buffer */
+static int takebits(ljp* self,int bits) {
+    while (self->cnt < bits)
+        nextbyte(self);
+    self->cnt -= bits;
+    int v = self->b >> self->cnt;
+    self->b &= (1u<<self->cnt)-1;
+    if (self->cnt < self->padbits)
+        self->corrupt = 1;
+    return v;
 }
 
+#ifdef SLOW_HUFF
 static int decode(ljp* self) {
     int i = 1;
-    int code = nextbit(self);
-    while (code > self->maxcode[i]) {
+    int code = takebits(self,1);
+    while (i<=16 && code > self->maxcode[i]) {
         i++;
-        code = (code << 1) + nextbit(self);
+        code = (code << 1) + takebits(self,1);
+    }
+    if (i>16) {
+        self->corrupt = 1;
+        return 0;
     }
     int j = self->valptr[i];
     j = j + code - self->mincode[i];
     int value = self->huffval[j];
     return value;
 }
-
-static int receive(ljp* self,int ssss) {
-    int i = 0;
-    int v = 0;
-    while (i != ssss) {
-        i++;
-        v = (v<<1) + nextbit(self);
-    }
-    return v;
-}
-
 #endif
 
 static int extend(int v,int t) {
@@ -335,65 +341,22 @@ static int extend(int v,int t) {
 inline static int nextdiff(ljp* self) {
 #ifdef SLOW_HUFF
     int t = decode(self);
-    int diff = 32768; // Category 16 has no additional bits
-    if (t < 16)
-        diff = extend(receive(self,t),t);
 #else
-    u32 b = self->b;
-    int cnt = self->cnt;
     int huffbits = self->huffbits;
-    int ix = self->ix;
-    int next;
-    while (cnt < huffbits) {
-        next = *(u16*)&self->data[ix];
-        int one = next&0xFF;
-        int two = next>>8;
-        b = (b<<16)|(one<<8)|two;
-        cnt += 16;
-        ix += 2;
-        if (one==0xFF) {
-            //printf("%x %x %x %x %d\n",one,two,b,b>>8,cnt);
-            b >>= 8;
-            cnt -= 8;
-        } else if (two==0xFF) ix++;
-    }
-    int index = b >> (cnt - huffbits);
+    while (self->cnt < huffbits)
+        nextbyte(self);
+    int index = self->b >> (self->cnt - huffbits);
     u16 ssssused = self->hufflut[index];
     int usedbits = ssssused&0xFF;
     int t = ssssused>>8;
-    self->sssshist[t]++;
-    cnt -= usedbits;
-    int keepbitsmask = (1 << cnt)-1;
-    b &= keepbitsmask;
-    if (t == 16) { // Category 16 has no additional bits
-        self->b = b;
-        self->cnt = cnt;
-        self->ix = ix;
-        return 32768;
-    }
-    while (cnt < t) {
-        next = *(u16*)&self->data[ix];
-        int one = next&0xFF;
-        int two = next>>8;
-        b = (b<<16)|(one<<8)|two;
-        cnt += 16;
-        ix += 2;
-        if (one==0xFF) {
-            b >>= 8;
-            cnt -= 8;
-        } else if (two==0xFF) ix++;
-    }
-    cnt -= t;
-    int diff = extend(b >> cnt,t);
-    keepbitsmask = (1 << cnt)-1;
-    self->b = b & keepbitsmask;
-    self->cnt = cnt;
-    self->ix = ix;
-    //printf("%d %d\n",t,diff);
-#ifdef DEBUG
-#endif
+    if (usedbits == 0) self->corrupt = 1; // No such code
+    takebits(self,usedbits);
 #endif
-    return diff;
+    if (t > 16) self->corrupt = 1;
+    if (self->corrupt) return 0;
+    self->sssshist[t]++;
+    if (t == 16) return 32768; // Category 16 has no additional bits
+    return extend(takebits(self,t),t);
 }
 
 static int parsePred6(ljp* self) {
@@ -403,6 +366,8 @@ static int parsePred6(ljp* self) {
     self->ix += BEH(self->data[self->ix]);
     self->cnt = 0;
     self->b = 0;
+    self->padbits = 0;
+    self->corrupt = 0;
     int write = self->writelen;
     // Now need to decode huffman coded values
     int c = 0;
@@ -431,7 +396,7 @@ static int parsePred6(ljp* self) {
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
-    if (self->ix >= self->datalen) return ret;
+    if (self->corrupt) return ret;
     --write;
     int rowcount = self->x-1;
     while (rowcount--) {
@@ -446,7 +411,7 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         out[c++] = linear;
         //printf("%d %d %d %d %x\n",col-1,diff,left,thisrow[col-1],&thisrow[col-1]);
-        if (self->ix >= self->datalen) return ret;
+        if (self->corrupt) return ret;
         if (--write==0) {
             out += self->skiplen;
             write = self->writelen;
@@ -471,7 +436,7 @@ static int parsePred6(ljp* self) {
         thisrow[col++] = left;
         //printf("%d %d %d %d\n",col,diff,left,lastrow[col]);
         out[c++] = linear;
-        if (self->ix >= self->datalen) break;
+        if (self->corrupt) return ret;
         rowcount = self->x-1;
         if (--write==0) {
             out += self->skiplen;
@@ -498,7 +463,7 @@ static int parsePred6(ljp* self) {
         temprow = lastrow;
         lastrow = thisrow;
         thisrow = temprow;
-        if (self->ix >= self->datalen) break;
+        if (self->corrupt) return ret;
     }
     if (c >= pixels) ret = LJ92_ERROR_NONE;
     return ret;
@@ -515,6 +480,8 @@ static int parseScan(ljp* self) {
     self->ix += BEH(self->data[self->ix]);
     self->cnt = 0;
     self->b = 0;
+    self->padbits = 0;
+    self->corrupt = 0;
     u16* out = self->image;
     u16* thisrow = self->outrow[0];
     u16* lastrow = self->outrow[1];
@@ -585,6 +552,7 @@ static int parseScan(ljp* self) {
         lastrow = thisrow;
         thisrow = temprow;
 
+        if (self->corrupt) return ret;
         out += self->x * self->components + self->skiplen;
     } // row
 
-- 
2.43.0


From 0ea50794dcd208c7568f6c7b2e939b96f4888cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 25/43] fix: liblj92 check marker segments against the data,
 keep the input unchanged, accept fill bytes

---
 liblj92/lj92.c | 112 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 79 insertions(+), 33 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index ff3098a..2d54488 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -76,24 +76,69 @@ typedef struct _ljp {
 static int find(ljp* self) {
     int ix = self->ix;
     u8* data = self->data;
-    while (data[ix] != 0xFF && ix<(self->datalen-1)) {
+    while (ix<self->datalen && data[ix] != 0xFF) {
+        ix += 1;
+    }
+    while (ix<self->datalen && data[ix] == 0xFF) { // May be preceded by fill bytes
         ix += 1;
     }
-    ix += 2;
     if (ix>=self->datalen) return -1;
-    self->ix = ix;
-    return data[ix-1];
+    self->ix = ix+1;
+    return data[ix];
 }
 
 #define BEH(ptr) ((((int)(*&ptr))<<8)|(*(&ptr+1)))
 
+/* Length of the segment at ix if it is in the data and has at least minlen bytes, or -1 */
+static int segmentLength(ljp* self,int minlen) {
+    if (self->datalen - self->ix < 2) return -1;
+    int len = BEH(self->data[self->ix]);
+    if (len < minlen || len > self->datalen - self->ix) return -1;
+    return len;
+}
+
+static void free_table(ljp* self) {
+#ifdef SLOW_HUFF
+    free(self->maxcode);
+    self->maxcode = NULL;
+    free(self->mincode);
+    self->mincode = NULL;
+    free(self->valptr);
+    self->valptr = NULL;
+    free(self->huffval);
+    self->huffval = NULL;
+    free(self->huffsize);
+    self->huffsize = NULL;
+    free(self->huffcode);
+    self->huffcode = NULL;
+#else
+    free(self->hufflut);
+    self->hufflut = NULL;
+#endif
+}
+
+static int has_table(ljp* self) {
+#ifdef SLOW_HUFF
+    return self->huffval != NULL;
+#else
+    return self->hufflut != NULL;
+#endif
+}
+
 static int parseHuff(ljp* self) {
     int ret = LJ92_ERROR_CORRUPT;
     u8* huffhead = &self->data[self->ix]; // xstruct.unpack('>HB16B',self.data[self.ix:self.ix+19])
-    u8* bits = &huffhead[2];
-    bits[0] = 0; // Because table starts from 1
-    int hufflen = BEH(huffhead[0]);
-    if ((self->ix + hufflen) >= self->datalen) return ret;
+    u8* bits = &huffhead[2]; // Table starts from 1
+    int hufflen = segmentLength(self,19);
+    if (hufflen < 0) return ret;
+    int codes = 0;
+    int codespace = 0;
+    for (int bix=1;bix<=16;bix++) {
+        codes += bits[bix];
+        codespace += bits[bix]<<(16-bix);
+    }
+    if (codes == 0 || codes > hufflen-19 || codespace > 1<<16) return ret;
+    free_table(self); // A table replaces the one before
 #ifdef SLOW_HUFF
     u8* huffval = calloc(hufflen - 19,sizeof(u8));
     if (huffval == NULL) return LJ92_ERROR_NO_MEMORY;
@@ -251,6 +296,7 @@ static int parseHuff(ljp* self) {
             rv = 0;
             vl++;
             hv++;
+            if (hv == codes) break; // Longer than all codes
 #ifdef DEBUG
             printf("%04x:%x:%d:%x\n",i,huffvals[hv],bitsused,1<<(maxbits-bitsused));
 #endif
@@ -262,24 +308,40 @@ static int parseHuff(ljp* self) {
         i++;
         rv++;
     }
+    self->ix += hufflen;
     ret = LJ92_ERROR_NONE;
 #endif
     return ret;
 }
 
 static int parseSof3(ljp* self) {
-    if (self->ix+6 >= self->datalen) return LJ92_ERROR_CORRUPT;
+    int len = segmentLength(self,8);
+    if (len < 0) return LJ92_ERROR_CORRUPT;
     self->y = BEH(self->data[self->ix+3]);
     self->x = BEH(self->data[self->ix+5]);
     self->bits = self->data[self->ix+2];
     self->components = self->data[self->ix + 7];
-    self->ix += BEH(self->data[self->ix]);
+    if (self->x < 1 || self->y < 1 || self->bits < 2 || self->bits > 16
+        || self->components < 1 || len < 8 + 3*self->components) return LJ92_ERROR_CORRUPT;
+    self->ix += len;
+    return LJ92_ERROR_NONE;
+}
+
+static int parseSos(ljp* self) {
+    int len = segmentLength(self,6);
+    if (len < 0) return LJ92_ERROR_CORRUPT;
+    // All components in one scan, after the frame header and a table
+    int compcount = self->data[self->ix+2];
+    if (self->components == 0 || !has_table(self)
+        || compcount != self->components || len < 6 + 2*compcount) return LJ92_ERROR_CORRUPT;
+    self->scanstart = self->ix;
     return LJ92_ERROR_NONE;
 }
 
 static int parseBlock(ljp* self) {
-    self->ix += BEH(self->data[self->ix]);
-    if (self->ix >= self->datalen) return LJ92_ERROR_CORRUPT;
+    int len = segmentLength(self,2);
+    if (len < 0) return LJ92_ERROR_CORRUPT;
+    self->ix += len;
     return LJ92_ERROR_NONE;
 }
 
@@ -570,11 +632,11 @@ static int parseImage(ljp* self) {
             ret = parseSof3(self);
         else if (nextMarker == 0xfe)// Comment
             ret = parseBlock(self);
-        else if (nextMarker == 0xd9) // End of image
+        else if (nextMarker == 0xd9) { // End of image without a scan
+            ret = LJ92_ERROR_CORRUPT;
             break;
-        else if (nextMarker == 0xda) {
-            self->scanstart = self->ix;
-            ret = LJ92_ERROR_NONE;
+        } else if (nextMarker == 0xda) {
+            ret = parseSos(self);
             break;
         } else if (nextMarker == -1) {
             ret = LJ92_ERROR_CORRUPT;
@@ -594,23 +656,7 @@ static int findSoI(ljp* self) {
 }
 
 static void free_memory(ljp* self) {
-#ifdef SLOW_HUFF
-    free(self->maxcode);
-    self->maxcode = NULL;
-    free(self->mincode);
-    self->mincode = NULL;
-    free(self->valptr);
-    self->valptr = NULL;
-    free(self->huffval);
-    self->huffval = NULL;
-    free(self->huffsize);
-    self->huffsize = NULL;
-    free(self->huffcode);
-    self->huffcode = NULL;
-#else
-    free(self->hufflut);
-    self->hufflut = NULL;
-#endif
+    free_table(self);
     free(self->rowcache);
     self->rowcache = NULL;
 }
-- 
2.43.0


From 395504e1851c1440d135a13214d59f4b19d1c65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 26/43] fix: liblj92 predictors use the left and upper samples
 of the same component

---
 liblj92/lj92.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 2d54488..31677ec 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -538,7 +538,7 @@ static int parseScan(ljp* self) {
     int compcount = self->data[self->ix+2];
     int pred = self->data[self->ix+3+2*compcount];
     if (pred<0 || pred>7) return ret;
-    if (pred==6) return parsePred6(self); // Fast path
+    if (pred==6 && self->components==1) return parsePred6(self); // Fast path
     self->ix += BEH(self->data[self->ix]);
     self->cnt = 0;
     self->b = 0;
@@ -565,7 +565,8 @@ static int parseScan(ljp* self) {
                     Px = lastrow[c];  // Use value above for first pixel in row
                 } else {
                     int prev_colx = (col - 1) * self->components;
-   
+                    left = thisrow[prev_colx + c]; // Of the same component
+
                     switch (pred) {
                         case 0:
                           Px = 0;
@@ -679,7 +680,7 @@ int lj92_open(lj92* lj,
         else {
             self->rowcache = rowcache;
             self->outrow[0] = rowcache;
-            self->outrow[1] = &rowcache[self->x];
+            self->outrow[1] = &rowcache[self->x * self->components];
         }
     }
 
-- 
2.43.0


From 19b42f07b97eedfa7286895418445e2ccd896a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 27/43] fix: liblj92 never read beyond the linearization table

---
 liblj92/lj92.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index 31677ec..ca32573 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -452,9 +452,10 @@ static int parsePred6(ljp* self) {
     Px = 1 << (self->bits-1);
     left = Px + diff;
     left = (u16) (left%65536);
-    if (self->linearize)
+    if (self->linearize) {
+        if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
         linear = self->linearize[left];
-    else
+    } else
         linear = left;
     thisrow[col++] = left;
     out[c++] = linear;
@@ -466,9 +467,10 @@ static int parsePred6(ljp* self) {
         Px = left;
         left = Px + diff;
         left = (u16) (left%65536);
-        if (self->linearize)
+        if (self->linearize) {
+            if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
             linear = self->linearize[left];
-        else
+        } else
             linear = left;
         thisrow[col++] = left;
         out[c++] = linear;
@@ -491,7 +493,7 @@ static int parsePred6(ljp* self) {
         left = Px + diff;
         left = (u16) (left%65536);
         if (self->linearize) {
-            if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+            if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
             linear = self->linearize[left];
         } else
             linear = left;
@@ -511,7 +513,7 @@ static int parsePred6(ljp* self) {
             left = (u16) (left%65536);
             //printf("%d %d %d %d %d %x\n",col,diff,left,lastrow[col],lastrow[col-1],&lastrow[col]);
             if (self->linearize) {
-                if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+                if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
                 linear = self->linearize[left];
             } else
                 linear = left;
@@ -601,7 +603,7 @@ static int parseScan(ljp* self) {
                 //printf("%d %d %d\n",c,diff,left);
                 int linear;
                 if (self->linearize) {
-                    if (left>self->linlen) return LJ92_ERROR_CORRUPT;
+                    if (left>=self->linlen) return LJ92_ERROR_CORRUPT;
                     linear = self->linearize[left];
                 } else
                     linear = left;
-- 
2.43.0


From 52149cf4cca6afe84576681914ab71ef60832dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 28/43] fix: liblj92 honour write and skip length for every
 predictor and image size

---
 liblj92/lj92.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index ca32573..d65e36e 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -432,8 +432,6 @@ static int parsePred6(ljp* self) {
     self->corrupt = 0;
     int write = self->writelen;
     // Now need to decode huffman coded values
-    int c = 0;
-    int pixels = self->y * self->x;
     u16* out = self->image;
     u16* temprow;
     u16* thisrow = self->outrow[0];
@@ -458,9 +456,12 @@ static int parsePred6(ljp* self) {
     } else
         linear = left;
     thisrow[col++] = left;
-    out[c++] = linear;
+    *out++ = linear;
     if (self->corrupt) return ret;
-    --write;
+    if (--write==0) {
+        out += self->skiplen;
+        write = self->writelen;
+    }
     int rowcount = self->x-1;
     while (rowcount--) {
         diff = nextdiff(self);
@@ -473,7 +474,7 @@ static int parsePred6(ljp* self) {
         } else
             linear = left;
         thisrow[col++] = left;
-        out[c++] = linear;
+        *out++ = linear;
         //printf("%d %d %d %d %x\n",col-1,diff,left,thisrow[col-1],&thisrow[col-1]);
         if (self->corrupt) return ret;
         if (--write==0) {
@@ -486,7 +487,7 @@ static int parsePred6(ljp* self) {
     thisrow = temprow;
     row++;
     //printf("%x %x\n",thisrow,lastrow);
-    while (c<pixels) {
+    while (row<self->y) {
         col = 0;
         diff = nextdiff(self);
         Px = lastrow[col]; // Use value above for first pixel in row
@@ -499,7 +500,7 @@ static int parsePred6(ljp* self) {
             linear = left;
         thisrow[col++] = left;
         //printf("%d %d %d %d\n",col,diff,left,lastrow[col]);
-        out[c++] = linear;
+        *out++ = linear;
         if (self->corrupt) return ret;
         rowcount = self->x-1;
         if (--write==0) {
@@ -518,7 +519,7 @@ static int parsePred6(ljp* self) {
             } else
                 linear = left;
             thisrow[col++] = left;
-            out[c++] = linear;
+            *out++ = linear;
             if (--write==0) {
                 out += self->skiplen;
                 write = self->writelen;
@@ -527,9 +528,10 @@ static int parsePred6(ljp* self) {
         temprow = lastrow;
         lastrow = thisrow;
         thisrow = temprow;
+        row++;
         if (self->corrupt) return ret;
     }
-    if (c >= pixels) ret = LJ92_ERROR_NONE;
+    ret = LJ92_ERROR_NONE;
     return ret;
 }
 
@@ -546,6 +548,7 @@ static int parseScan(ljp* self) {
     self->b = 0;
     self->padbits = 0;
     self->corrupt = 0;
+    int write = self->writelen;
     u16* out = self->image;
     u16* thisrow = self->outrow[0];
     u16* lastrow = self->outrow[1];
@@ -609,7 +612,11 @@ static int parseScan(ljp* self) {
                     linear = left;
 
                 thisrow[colx + c] = left;
-                out[colx + c] = linear; // HACK
+                *out++ = linear;
+                if (--write==0) {
+                    out += self->skiplen;
+                    write = self->writelen;
+                }
             } // c
         } // col
 
@@ -618,7 +625,6 @@ static int parseScan(ljp* self) {
         thisrow = temprow;
 
         if (self->corrupt) return ret;
-        out += self->x * self->components + self->skiplen;
     } // row
 
     ret = LJ92_ERROR_NONE;
-- 
2.43.0


From 854e4036bb147e6335b1806a4632568b902bd0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 29/43] fix: liblj92 count the categories of the delinearized
 samples, refuse those beyond the table

---
 liblj92/lj92.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index d65e36e..b7f2ee6 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -776,20 +776,15 @@ int frequencyScan(lje* self) {
     int row = 0;
     int Px = 0;
     int32_t diff = 0;
-    int maxval = (1 << self->bitdepth);
     while (pixcount--) {
         uint16_t p = *pixel;
-        /* if (self->delinearize) {
+        if (self->delinearize) {
             if (p>=self->delinearizeLength) {
                 free(rowcache);
                 return LJ92_ERROR_TOO_WIDE;
             }
             p = self->delinearize[p];
         }
-        if (p>=maxval) {
-            free(rowcache);
-            return LJ92_ERROR_TOO_WIDE;
-        } */
         rows[1][col] = p;
 
         if ((row == 0)&&(col == 0))
-- 
2.43.0


From 8adaa87525c6e754173658f296c72a3a6cdd5338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 30/43] fix: liblj92 generate the optimal Huffman table

---
 liblj92/lj92.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index b7f2ee6..aa5ea1f 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -839,7 +839,7 @@ void createEncodeTable(lje* self) {
     }
     codesize[17] = 0;
     others[17] = -1;
-    freq[17] = 1.0f;
+    freq[17] = 0.5f/totalpixels; // The code of all ones, that must not be used, gets the longest one
 
     float v1f,v2f;
     int v1,v2;
-- 
2.43.0


From f76c077d45b23f39a6fb20b50f4fc09a12a77d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 31/43] fix: liblj92 size the encoder's buffer for the worst
 case, check arguments and allocations

---
 liblj92/lj92.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/liblj92/lj92.c b/liblj92/lj92.c
index aa5ea1f..4ecdced 100644
--- a/liblj92/lj92.c
+++ b/liblj92/lj92.c
@@ -742,7 +742,7 @@ typedef struct _lje {
     uint8_t* encoded;
     int encodedWritten;
     int encodedLength;
-    int hist[18]; // SSSS frequency histogram
+    uint32_t hist[18]; // SSSS frequency histogram
     int bits[18];
     int huffval[18];
     u16 huffenc[18];
@@ -765,9 +765,10 @@ int frequencyScan(lje* self) {
     // Scan through the tile using the standard type 6 prediction
     // Need to cache the previous 2 row in target coordinates because of tiling
     uint16_t* pixel = self->image;
-    int pixcount = self->width*self->height;
+    uint32_t pixcount = (uint32_t)self->width*self->height;
     int scan = self->readLength;
     uint16_t* rowcache = (uint16_t*)calloc(1,self->width*4);
+    if (rowcache == NULL) return LJ92_ERROR_NO_MEMORY;
     uint16_t* rows[2];
     rows[0] = rowcache;
     rows[1] = &rowcache[self->width];
@@ -828,7 +829,7 @@ void createEncodeTable(lje* self) {
     int others[18];
 
     // Calculate frequencies
-    float totalpixels = self->width * self->height;
+    float totalpixels = (float)self->width * self->height;
     for (int i=0;i<17;i++) {
         freq[i] = (float)(self->hist[i])/totalpixels;
 #ifdef DEBUG
@@ -1054,9 +1055,10 @@ int writeBody(lje* self) {
     // Scan through the tile using the standard type 6 prediction
     // Need to cache the previous 2 row in target coordinates because of tiling
     uint16_t* pixel = self->image;
-    int pixcount = self->width*self->height;
+    uint32_t pixcount = (uint32_t)self->width*self->height;
     int scan = self->readLength;
     uint16_t* rowcache = (uint16_t*)calloc(1,self->width*4);
+    if (rowcache == NULL) return LJ92_ERROR_NO_MEMORY;
     uint16_t* rows[2];
     rows[0] = rowcache;
     rows[1] = &rowcache[self->width];
@@ -1065,7 +1067,7 @@ int writeBody(lje* self) {
     int row = 0;
     int Px = 0;
     int32_t diff = 0;
-    int bitcount = 0;
+    uint32_t bitcount = 0;
     uint8_t* out = self->encoded;
     int w = self->encodedWritten;
     uint8_t next = 0;
@@ -1175,6 +1177,16 @@ int writeBody(lje* self) {
     self->encodedWritten = w;
     return LJ92_ERROR_NONE;
 }
+/* Bytes that hold the header and the scan, even if every byte of the scan gets stuffed */
+static uint64_t neededLength(lje* self) {
+    uint64_t bits = 0;
+    for (int ssss=0;ssss<17;ssss++) {
+        int huffbits = self->huffbits[self->huffsym[ssss]];
+        bits += (uint64_t)self->hist[ssss] * (huffbits + (ssss<16 ? ssss : 0));
+    }
+    return (bits+7)/8*2 + 200;
+}
+
 /* Encoder
  * Read tile from an image and encode in one shot
  * Return the encoded data
@@ -1185,6 +1197,8 @@ int lj92_encode(uint16_t* image, int width, int height, int bitdepth,
                 uint8_t** encoded, int* encodedLength) {
     int ret = LJ92_ERROR_NONE;
 
+    if (width < 1 || width > 65535 || height < 1 || height > 65535
+        || bitdepth < 2 || bitdepth > 16) return LJ92_ERROR_TOO_WIDE;
     lje* self = (lje*)calloc(sizeof(lje),1);
     if (self==NULL) return LJ92_ERROR_NO_MEMORY;
     self->image = image;
@@ -1195,18 +1209,19 @@ int lj92_encode(uint16_t* image, int width, int height, int bitdepth,
     self->skipLength = skipLength;
     self->delinearize = delinearize;
     self->delinearizeLength = delinearizeLength;
-    self->encodedLength = width*height*3+200;
-    self->encoded = malloc(self->encodedLength);
-    if (self->encoded==NULL) { free(self); return LJ92_ERROR_NO_MEMORY; }
     // Scan through data to gather frequencies of ssss prefixes
     ret = frequencyScan(self);
     if (ret != LJ92_ERROR_NONE) {
-        free(self->encoded);
         free(self);
         return ret;
     }
     // Create encoded table based on frequencies
     createEncodeTable(self);
+    uint64_t needed = neededLength(self);
+    if (needed > INT32_MAX) { free(self); return LJ92_ERROR_TOO_WIDE; }
+    self->encodedLength = needed;
+    self->encoded = malloc(self->encodedLength);
+    if (self->encoded==NULL) { free(self); return LJ92_ERROR_NO_MEMORY; }
     // Write JPEG head and scan header
     writeHeader(self);
     // Scan through and do the compression
@@ -1221,7 +1236,8 @@ int lj92_encode(uint16_t* image, int width, int height, int bitdepth,
 #ifdef DEBUG
     printf("written:%d\n",self->encodedWritten);
 #endif
-    self->encoded = realloc(self->encoded,self->encodedWritten);
+    uint8_t* shrunk = realloc(self->encoded,self->encodedWritten);
+    if (shrunk != NULL) self->encoded = shrunk; // Else keep the larger block
     self->encodedLength = self->encodedWritten;
     *encoded = self->encoded;
     *encodedLength = self->encodedLength;
-- 
2.43.0


From b440673968f490974c76aab26bb2d79ee59fc656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:05 +0000
Subject: [PATCH 32/43] fix: list every category of the Huffman table in
 get_ssss

A table for a bit depth of n has n + 1 categories (0 to n); the last one was neither read nor reported.
---
 software/src/core_axi_lite.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/software/src/core_axi_lite.cpp b/software/src/core_axi_lite.cpp
index 656daae..bab9647 100644
--- a/software/src/core_axi_lite.cpp
+++ b/software/src/core_axi_lite.cpp
@@ -35,7 +35,7 @@ vector<string> CoreAXILite::get_ssss()
     // get ssss codes from axi lite
     vector<uint64_t> ssss_codes;
     uint64_t code = 0;
-    for(int i=0; i<2*bit_depth; i++){
+    for(int i=0; i<2*(bit_depth+1); i++){
         if(i%2==0){
             code = __get(SSSS_OFFSET+i);
         } else {
@@ -45,7 +45,7 @@ vector<string> CoreAXILite::get_ssss()
     }
     // get ssss info form them
     vector<string> ssss;
-    for(int i=0; i<bit_depth; i++) {
+    for(int i=0; i<=bit_depth; i++) {
         uint32_t code_length = (ssss_codes[i] >> (16+bit_depth));
         uint32_t mask = pow(2, code_length) - 1;
         uint32_t ssss_code = 0;
-- 
2.43.0


From a3d6368d910df7f686ab9b699b2d4c434d915881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 33/43] fix: recognise the forced end marker in the output of
 the core

The words of the forced end marker are 0xFFFE; in memory (and in the 32 bit words
compared here) they are not byte swapped, so the marker was never found.
---
 software/src/xilinx_test.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/software/src/xilinx_test.cpp b/software/src/xilinx_test.cpp
index b284358..ddba00e 100644
--- a/software/src/xilinx_test.cpp
+++ b/software/src/xilinx_test.cpp
@@ -259,7 +259,7 @@ void check_last_marker(volatile void* v_dest_addr, uint32_t size)
     uint32_t offset = size + 16;
     for(int i=0; i<128; i++) {
         if(*((uint32_t*)(((uint8_t*)v_dest_addr) + offset)) == 0xFFFFFFFF ||
-           *((uint32_t*)(((uint8_t*)v_dest_addr) + offset)) == __builtin_bswap32(0xFFFEFFFE)) {
+           *((uint32_t*)(((uint8_t*)v_dest_addr) + offset)) == 0xFFFEFFFE) {
             break;
         }
         offset++;
@@ -268,7 +268,7 @@ void check_last_marker(volatile void* v_dest_addr, uint32_t size)
     bool found = true;
     for(int i=0; i<4; i++) {
         if(start_addr[i] != 0xFFFFFFFF &&
-           start_addr[i] != __builtin_bswap32(0xFFFEFFFE)) {
+           start_addr[i] != 0xFFFEFFFE) {
             log("No marker found.");
             found = false;
             break;
@@ -277,7 +277,7 @@ void check_last_marker(volatile void* v_dest_addr, uint32_t size)
     if(found){
         if(start_addr[0] == 0xFFFFFFFF)
             log("normal marker found - offset is " + to_string((offset-size-16)) + ".");
-        if(start_addr[0] == __builtin_bswap32(0xFFFEFFFE))
+        if(start_addr[0] == 0xFFFEFFFE)
             log("force marker found - offset is " + to_string((offset-size-16)) + ".");
     }
 }
-- 
2.43.0


From 46c8900645edacf4ca70d54fa2987b51180d6537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 34/43] fix: compare the last byte of a reference file of odd
 length

The bytes of a reference are swapped in pairs, so the last byte of a file of odd
length lies one byte further and was not compared.
---
 software/src/xilinx_test.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/software/src/xilinx_test.cpp b/software/src/xilinx_test.cpp
index ddba00e..a78f5e9 100644
--- a/software/src/xilinx_test.cpp
+++ b/software/src/xilinx_test.cpp
@@ -305,7 +305,9 @@ void validate(volatile void* v_dest_addr, struct mem_data lj92_struct)
     if(!failed) {
         volatile uint8_t* core_8 = ((uint8_t*)v_dest_addr) + 16;
         volatile uint8_t* lj92_8 = (uint8_t*)lj92_struct.pointer;
-        for(int i=lj92_struct.length-10; i<lj92_struct.length; i++) {
+        // the last bytes, up to the end of the 16 bit word the last one is in
+        int len2 = divisible_2(lj92_struct.length);
+        for(int i=(lj92_struct.length/4)*4; i<len2; i++) {
             if(core_8[i] != lj92_8[i]) {
                 log("Validation failed at byte: " + to_string(i));
 
-- 
2.43.0


From 291387747d9aac97ff92bb7c22d774c7abd196f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 35/43] fix: list the register bus among the ports of the
 integrations that have it

---
 migen_src/beta_integration.py  | 3 +++
 migen_src/integration_1.py     | 3 +++
 migen_src/integration_2.py     | 3 +++
 migen_src/integration_3.py     | 3 +++
 migen_src/micro_integration.py | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/migen_src/beta_integration.py b/migen_src/beta_integration.py
index 7edc77e..2279845 100644
--- a/migen_src/beta_integration.py
+++ b/migen_src/beta_integration.py
@@ -52,6 +52,9 @@ class BetaIntegration(Elaboratable):
 			[self.valid_in, self.valid_out, self.end_out] + \
 			[self.pixel_in1, self.pixel_in2, self.nready] + \
 			[self.data_out, self.busy_in]
+
+		if config['support_axi_lite']:
+			self.ios += self.integration_3.integration_2.integration_1.core_axi_lite.axi_ios
 			
 	def elaborate(self, platform):
 
diff --git a/migen_src/integration_1.py b/migen_src/integration_1.py
index 42d15f9..26dd86b 100644
--- a/migen_src/integration_1.py
+++ b/migen_src/integration_1.py
@@ -57,6 +57,9 @@ class Integration1(Elaboratable):
 			[self.enc_out, self.enc_out_ctr] + \
 			[self.valid_in, self.valid_out] + \
 			[self.end_out, self.fend_out]
+
+		if self.axi_lite:
+			self.ios += self.core_axi_lite.axi_ios
 			
 	def elaborate(self, platform):
 
diff --git a/migen_src/integration_2.py b/migen_src/integration_2.py
index 79ab87e..af8df8b 100644
--- a/migen_src/integration_2.py
+++ b/migen_src/integration_2.py
@@ -43,6 +43,9 @@ class Integration2(Elaboratable):
 			[self.latch_output, self.nready] + \
 			[self.valid_in, self.valid_out] + \
 			[self.integration_1.fend_out]
+
+		if config['support_axi_lite']:
+			self.ios += self.integration_1.core_axi_lite.axi_ios
 			
 	def elaborate(self, platform):
 
diff --git a/migen_src/integration_3.py b/migen_src/integration_3.py
index 1651b78..735ac46 100644
--- a/migen_src/integration_3.py
+++ b/migen_src/integration_3.py
@@ -41,6 +41,9 @@ class Integration3(Elaboratable):
 			[pixel_in for pixel_in in self.pixels_in] + \
 			[self.integration_2.integration_1.fend_out]
 
+		if config['support_axi_lite']:
+			self.ios += self.integration_2.integration_1.core_axi_lite.axi_ios
+
 	def elaborate(self, platform):
 
 		m = Module()
diff --git a/migen_src/micro_integration.py b/migen_src/micro_integration.py
index ea66b7c..3af59fe 100644
--- a/migen_src/micro_integration.py
+++ b/migen_src/micro_integration.py
@@ -51,6 +51,9 @@ class MicroIntegration(Elaboratable):
 			[self.valid_in, self.valid_out, self.end_out] + \
 			[self.data_out, self.busy_in] + \
 			[self.pixel_in, self.nready]
+
+		if config['support_axi_lite']:
+			self.ios += self.integration_3.integration_2.integration_1.core_axi_lite.axi_ios
 			
 	def elaborate(self, platform):
 
-- 
2.43.0


From c78d19fb2475c6328808b4417f328f2b2245d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 36/43] fix: list force_end_in among the ports of the marker
 stage

---
 migen_src/markers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/migen_src/markers.py b/migen_src/markers.py
index 0487e94..83370fa 100644
--- a/migen_src/markers.py
+++ b/migen_src/markers.py
@@ -51,7 +51,8 @@ class Markers(Elaboratable):
         self.ios = \
             [self.valid_in, self.valid_out, self.o_busy, self.i_busy] + \
             [self.data_out, self.data_in] + \
-            [self.end_in, self.end_out]
+            [self.end_in, self.end_out] + \
+            [self.force_end_in]
 
     def elaborate(self, platform):
 
-- 
2.43.0


From 3c7a46bf96c93bbdf60b3d7cba0dbcf757818bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 37/43] fix: list new_row among the ports of the four pixel
 predictor

---
 migen_src/predictor_p1_c4_px4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/migen_src/predictor_p1_c4_px4.py b/migen_src/predictor_p1_c4_px4.py
index 210aea7..a7689e1 100644
--- a/migen_src/predictor_p1_c4_px4.py
+++ b/migen_src/predictor_p1_c4_px4.py
@@ -84,7 +84,8 @@ class PredictorP1C4Px4(Elaboratable):
 			[pixel_out for pixel_out in self.pixels_out] + \
 			[pixel_in for pixel_in in self.pixels_in] + \
 			[self.valid_in, self.valid_out] + \
-			[self.end_in, self.end_out]
+			[self.end_in, self.end_out] + \
+			[self.new_row]
 
 	def elaborate(self, platform):
 
-- 
2.43.0


From 3967bc02651836e5ba6885b3d3142ca5cbfadd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 38/43] fix: list the end of frame among the ports of
 integration_2

---
 migen_src/integration_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/migen_src/integration_2.py b/migen_src/integration_2.py
index af8df8b..820f771 100644
--- a/migen_src/integration_2.py
+++ b/migen_src/integration_2.py
@@ -40,7 +40,7 @@ class Integration2(Elaboratable):
 		self.ios = \
 			[pixel_in for pixel_in in self.pixels_in] + \
 			[self.enc_out, self.enc_out_ctr] + \
-			[self.latch_output, self.nready] + \
+			[self.latch_output, self.nready, self.out_end] + \
 			[self.valid_in, self.valid_out] + \
 			[self.integration_1.fend_out]
 
-- 
2.43.0


From c9a9926a6ea8afd6c9236fa752e35feaaf9159c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 39/43] Revert "fix: compare the last byte of a reference file
 of odd length"

This reverts commit 46c8900645edacf4ca70d54fa2987b51180d6537.
---
 software/src/xilinx_test.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/software/src/xilinx_test.cpp b/software/src/xilinx_test.cpp
index a78f5e9..ddba00e 100644
--- a/software/src/xilinx_test.cpp
+++ b/software/src/xilinx_test.cpp
@@ -305,9 +305,7 @@ void validate(volatile void* v_dest_addr, struct mem_data lj92_struct)
     if(!failed) {
         volatile uint8_t* core_8 = ((uint8_t*)v_dest_addr) + 16;
         volatile uint8_t* lj92_8 = (uint8_t*)lj92_struct.pointer;
-        // the last bytes, up to the end of the 16 bit word the last one is in
-        int len2 = divisible_2(lj92_struct.length);
-        for(int i=(lj92_struct.length/4)*4; i<len2; i++) {
+        for(int i=lj92_struct.length-10; i<lj92_struct.length; i++) {
             if(core_8[i] != lj92_8[i]) {
                 log("Validation failed at byte: " + to_string(i));
 
-- 
2.43.0


From 3abc2644acbd4f591c517038cf695a3b45fbdb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 40/43] Revert "fix: recognise the forced end marker in the
 output of the core"

This reverts commit a3d6368d910df7f686ab9b699b2d4c434d915881.
---
 software/src/xilinx_test.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/software/src/xilinx_test.cpp b/software/src/xilinx_test.cpp
index ddba00e..b284358 100644
--- a/software/src/xilinx_test.cpp
+++ b/software/src/xilinx_test.cpp
@@ -259,7 +259,7 @@ void check_last_marker(volatile void* v_dest_addr, uint32_t size)
     uint32_t offset = size + 16;
     for(int i=0; i<128; i++) {
         if(*((uint32_t*)(((uint8_t*)v_dest_addr) + offset)) == 0xFFFFFFFF ||
-           *((uint32_t*)(((uint8_t*)v_dest_addr) + offset)) == 0xFFFEFFFE) {
+           *((uint32_t*)(((uint8_t*)v_dest_addr) + offset)) == __builtin_bswap32(0xFFFEFFFE)) {
             break;
         }
         offset++;
@@ -268,7 +268,7 @@ void check_last_marker(volatile void* v_dest_addr, uint32_t size)
     bool found = true;
     for(int i=0; i<4; i++) {
         if(start_addr[i] != 0xFFFFFFFF &&
-           start_addr[i] != 0xFFFEFFFE) {
+           start_addr[i] != __builtin_bswap32(0xFFFEFFFE)) {
             log("No marker found.");
             found = false;
             break;
@@ -277,7 +277,7 @@ void check_last_marker(volatile void* v_dest_addr, uint32_t size)
     if(found){
         if(start_addr[0] == 0xFFFFFFFF)
             log("normal marker found - offset is " + to_string((offset-size-16)) + ".");
-        if(start_addr[0] == 0xFFFEFFFE)
+        if(start_addr[0] == __builtin_bswap32(0xFFFEFFFE))
             log("force marker found - offset is " + to_string((offset-size-16)) + ".");
     }
 }
-- 
2.43.0


From be1997e6c919ba187b150918c63282e6e5f0dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 41/43] fix: the full AXI product keeps to the frame's memory

read_end and write_end were only up in the cycle in which an address is taken, which
does not keep the reader and the writer from offering the next one: the frame was
read, and a large stream written, beyond the end of its region.
---
 migen_src/beta_integration_fullaxi.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/migen_src/beta_integration_fullaxi.py b/migen_src/beta_integration_fullaxi.py
index 42ed8f5..28c50fd 100644
--- a/migen_src/beta_integration_fullaxi.py
+++ b/migen_src/beta_integration_fullaxi.py
@@ -70,22 +70,17 @@ class BetaIntegrationFullAxi(Elaboratable):
 		read_end = Signal(1)
 		write_end = Signal(1)
 
+		# no more addresses are needed after the last burst
 		m.d.comb += [
-			read_end.eq(0),
-			write_end.eq(0),
+			read_end.eq(counter_read==196608),
+			write_end.eq(counter_write==131072),
 		]
 
 		with m.If((address_gen_read.address_valid==1)&(axihp_reader.addr_enable==1)):
-			with m.If(counter_read==196608):
-				m.d.comb += read_end.eq(1)
-			with m.Else():
-				m.d.sync += counter_read.eq(counter_read + 1)
+			m.d.sync += counter_read.eq(counter_read + 1)
 
 		with m.If((address_gen_write.address_valid==1)&(axihp_writer.addr_enable==1)):
-			with m.If(counter_write==131072):
-				m.d.comb += write_end.eq(1)
-			with m.Else():
-				m.d.sync += counter_write.eq(counter_write + 1)
+			m.d.sync += counter_write.eq(counter_write + 1)
 
 		# dma_axi_lite
 		m.d.comb += [
-- 
2.43.0


From 80cf79f2d7f2cd2bda0eb4b450c1199585f594ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:40 +0000
Subject: [PATCH 42/43] fix: the 16-to-40 converter takes a word in every cycle

It waited a cycle in every fifth word for the first buffer although that was being taken just then, against its documented guarantee.
---
 migen_src/b16_b40.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/migen_src/b16_b40.py b/migen_src/b16_b40.py
index 84f3da4..b562fb4 100644
--- a/migen_src/b16_b40.py
+++ b/migen_src/b16_b40.py
@@ -149,9 +149,9 @@ class B16B40(Elaboratable):
                         buffer2[0:16].eq(self.data_in),
                         buffer2_valid.eq(1),
                     ]
-                    # is buffer1 data is invalid?
-                    # if invalid then start filling
-                    with m.If(buffer1_valid==0):
+                    # is buffer1 data is invalid or taken now?
+                    # if so then start filling
+                    with m.If((buffer1_valid==0)|((buff_chs==0)&(self.valid_out==1)&(self.i_busy==0))):
                         m.next = "BUFF1_FILL_1"
                     # if data still valid to wait until invalid
                     with m.Else():
-- 
2.43.0


From 6b335a9060a53db4a7fc96357b74178031cdb061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:49 +0000
Subject: [PATCH 43/43] fix: the reported width constraint admits the frames
 the core handles

The predictor reported its lower limit of the width with update_width, which
sets both limits: a core was said to handle no width but its number of pixels
per cycle, and that one it does not handle with four components.
---
 migen_src/constraints.py            | 7 +++++++
 migen_src/predictor_p1_c4_pix1_2.py | 2 +-
 migen_src/predictor_p1_c4_px4.py    | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/migen_src/constraints.py b/migen_src/constraints.py
index 8a48a6b..9ef30da 100644
--- a/migen_src/constraints.py
+++ b/migen_src/constraints.py
@@ -35,6 +35,13 @@ class Constraints():
 			self.width_max[0] = component
 
 
+	# a lower limit only
+	def update_width_min(self, new_width, component):
+		if new_width > self.width_min[1]:
+			self.width_min[1] = new_width
+			self.width_min[0] = component
+
+
 	def update_bit_depth(self, new_bit_depth, component):
 		if new_bit_depth > self.bit_depth_min[1]:
 			self.bit_depth_min[1] = new_bit_depth
diff --git a/migen_src/predictor_p1_c4_pix1_2.py b/migen_src/predictor_p1_c4_pix1_2.py
index ea3f1d6..eb86a8d 100644
--- a/migen_src/predictor_p1_c4_pix1_2.py
+++ b/migen_src/predictor_p1_c4_pix1_2.py
@@ -52,7 +52,7 @@ class PredictorP1C4Pix12(Elaboratable):
 		assert config['bit_depth'] >= 2 and config['bit_depth'] <= 16
 
 		# update constraints
-		constraints.update_width(config['pixels_per_cycle'], "Predictor")
+		constraints.update_width_min(COMPONENTS_NUM, "Predictor")
 		constraints.update_width_multiple(config['pixels_per_cycle'], "Predictor")
 
 		# save configurations
diff --git a/migen_src/predictor_p1_c4_px4.py b/migen_src/predictor_p1_c4_px4.py
index a7689e1..12aee87 100644
--- a/migen_src/predictor_p1_c4_px4.py
+++ b/migen_src/predictor_p1_c4_px4.py
@@ -56,7 +56,7 @@ class PredictorP1C4Px4(Elaboratable):
 		self.ps = config['pixels_per_cycle']
 
 		# update constraints
-		constraints.update_width(config['pixels_per_cycle'], "Predictor")
+		constraints.update_width_min(COMPONENTS_NUM, "Predictor")
 		constraints.update_width_multiple(config['pixels_per_cycle'], "Predictor")
 
 		# pixels in
-- 
2.43.0

