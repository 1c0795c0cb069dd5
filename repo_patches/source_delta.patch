From 3f0f7e74ba4e801d9099498ba3c471ded055ad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 01/50] fix: copy TH bit when copying a TLP

---
 cocotbext/pcie/core/tlp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index f5cd6ff..b5d73a2 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -219,6 +219,7 @@ class Tlp:
             self.type = tlp.type
             self.tc = tlp.tc
             self.ln = tlp.ln
+            self.th = tlp.th
             self.td = tlp.td
             self.ep = tlp.ep
             self.attr = tlp.attr
-- 
2.43.0


From 2cb85a669ef570ea2b0d875ed6180c21295d260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 02/50] fix: compare TH bit in TLP equality

---
 cocotbext/pcie/core/tlp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index b5d73a2..c668006 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -621,6 +621,7 @@ class Tlp:
                 self.type == other.type and
                 self.tc == other.tc and
                 self.ln == other.ln and
+                self.th == other.th and
                 self.td == other.td and
                 self.ep == other.ep and
                 self.attr == other.attr and
-- 
2.43.0


From 7514c15dfa6d13a6122a1f635778055c590c582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 03/50] fix: operator precedence in TLP lower address
 computation

---
 cocotbext/pcie/core/tlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index c668006..b23285a 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -414,7 +414,7 @@ class Tlp:
 
     def get_lower_address(self):
         """Compute lower address field from address and first byte enable"""
-        return self.address & 0x7c + self.get_first_be_offset()
+        return (self.address & 0x7c) + self.get_first_be_offset()
 
     def has_data(self):
         """Return true if TLP has payload data"""
-- 
2.43.0


From 8f99a6c23e8903b3dab039ef930c85915d42c2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 04/50] fix: return bytes from TLP __bytes__

---
 cocotbext/pcie/core/tlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index b23285a..6d66a45 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -669,4 +669,4 @@ class Tlp:
         )
 
     def __bytes__(self):
-        return self.pack()
+        return bytes(self.pack())
-- 
2.43.0


From d3ac7a2029a9484bf2118a9632799bef6629c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 05/50] fix: TLP validation of payload length range and of
 IO/config requests

---
 cocotbext/pcie/core/tlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index 6d66a45..2167ada 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -282,7 +282,7 @@ class Tlp:
             if self.length*4 != len(self.data):
                 print(f"TLP validation failed, length field does not match data: {self!r}")
                 ret = False
-            if 0 > self.length > 1024:
+            if not 0 < self.length <= 1024:
                 print(f"TLP validation failed, length out of range: {self!r}")
                 ret = False
         if self.fmt_type in {TlpType.MEM_READ, TlpType.MEM_READ_64, TlpType.MEM_READ_LOCKED,
@@ -290,7 +290,7 @@ class Tlp:
             if self.length*4 > 0x1000 - (self.address & 0xfff):
                 print(f"TLP validation failed, request crosses 4K boundary: {self!r}")
                 ret = False
-        if self.fmt_type == {TlpType.CFG_READ_0, TlpType.CFG_WRITE_0, TlpType.CFG_READ_1,
+        if self.fmt_type in {TlpType.CFG_READ_0, TlpType.CFG_WRITE_0, TlpType.CFG_READ_1,
                 TlpType.CFG_WRITE_1, TlpType.IO_READ, TlpType.IO_WRITE}:
             if self.length != 1:
                 print(f"TLP validation failed, invalid length for IO or configuration request: {self!r}")
-- 
2.43.0


From 9eb7870d8c712de3fc6c6a26eedd865ea32a0e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 06/50] fix: discard unexpected completions and return their
 credits

---
 cocotbext/pcie/core/function.py | 8 ++++++++
 cocotbext/pcie/core/rc.py       | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index aa0e251..e647b32 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -448,6 +448,11 @@ class Function:
     async def handle_tlp(self, tlp):
         if tlp.fmt_type in {TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA}:
             # completion
+            if tlp.tag >= len(self.tag_active) or not self.tag_active[tlp.tag]:
+                # no outstanding request with this tag (e.g. request timed out)
+                self.log.warning("Unexpected completion: no outstanding request with tag %d, discarding: %r", tlp.tag, tlp)
+                tlp.release_fc()
+                return
             self.rx_cpl_queues[tlp.tag].put_nowait(tlp)
             self.rx_cpl_sync[tlp.tag].set()
         elif tlp.fmt_type in self.rx_tlp_handler:
@@ -501,6 +506,9 @@ class Function:
 
     def release_tag(self, tag):
         assert self.tag_active[tag]
+        # discard any completions that were not collected
+        while not self.rx_cpl_queues[tag].empty():
+            self.rx_cpl_queues[tag].get_nowait().release_fc()
         self.tag_active[tag] = False
         self.tag_release.set()
 
diff --git a/cocotbext/pcie/core/rc.py b/cocotbext/pcie/core/rc.py
index 8c905ca..0f81d0f 100644
--- a/cocotbext/pcie/core/rc.py
+++ b/cocotbext/pcie/core/rc.py
@@ -207,6 +207,11 @@ class RootComplex(Switch):
 
     async def handle_tlp(self, tlp):
         if tlp.fmt_type in {TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA}:
+            if tlp.tag >= len(self.tag_active) or not self.tag_active[tlp.tag]:
+                # no outstanding request with this tag (e.g. request timed out)
+                self.log.warning("Unexpected completion: no outstanding request with tag %d, discarding: %r", tlp.tag, tlp)
+                tlp.release_fc()
+                return
             self.rx_cpl_queues[tlp.tag].put_nowait(tlp)
             self.rx_cpl_sync[tlp.tag].set()
         elif tlp.fmt_type in self.rx_tlp_handler:
@@ -258,6 +263,9 @@ class RootComplex(Switch):
 
     def release_tag(self, tag):
         assert self.tag_active[tag]
+        # discard any completions that were not collected
+        while not self.rx_cpl_queues[tag].empty():
+            self.rx_cpl_queues[tag].get_nowait().release_fc()
         self.tag_active[tag] = False
         self.tag_release.set()
 
-- 
2.43.0


From 1356f65fafb70596cd1ae9bff47683ca2d4f1919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 07/50] fix: let posted requests and completions pass blocked
 non-posted requests in the switch

---
 cocotbext/pcie/core/switch.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/switch.py b/cocotbext/pcie/core/switch.py
index 12bdb16..16562a4 100644
--- a/cocotbext/pcie/core/switch.py
+++ b/cocotbext/pcie/core/switch.py
@@ -29,6 +29,7 @@ from cocotb.queue import Queue
 from cocotb.triggers import Event
 
 from .bridge import SwitchUpstreamPort, SwitchDownstreamPort
+from .dllp import FcType
 from .tlp import Tlp, TlpType
 from .utils import PcieId
 
@@ -224,7 +225,19 @@ class Switch:
             self.log.debug("UR Completion: %r", cpl)
             await port.tx_handler(cpl)
 
+    async def _run_forwarding(self, port, queue):
+        while True:
+            tlp = await queue.get()
+            await port.tx_handler(tlp)
+
     async def _run_arbitration(self, port):
+        # Non-posted requests and completions are forwarded separately so that
+        # posted requests and completions can pass blocked non-posted requests.
+        # Nothing passes a posted request.
+        queues = {FcType.NP: Queue(), FcType.CPL: Queue()}
+        for queue in queues.values():
+            cocotb.start_soon(self._run_forwarding(port, queue))
+
         while True:
             await port.rx_event.wait()
             port.rx_event.clear()
@@ -236,7 +249,10 @@ class Switch:
                     if rx_queue.empty():
                         continue
                     tlp = await rx_queue.get()
-                    await port.tx_handler(tlp)
+                    if tlp.get_fc_type() in queues:
+                        queues[tlp.get_fc_type()].put_nowait(tlp)
+                    else:
+                        await port.tx_handler(tlp)
                     ok = True
 
                 if not ok:
-- 
2.43.0


From c8f977b5abc82b139033fb0c9ce117e4454a9d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 08/50] fix: accept posted requests and completions while a
 completion is blocked in a device

---
 cocotbext/pcie/core/device.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/cocotbext/pcie/core/device.py b/cocotbext/pcie/core/device.py
index 2eb7b18..7a23db9 100644
--- a/cocotbext/pcie/core/device.py
+++ b/cocotbext/pcie/core/device.py
@@ -24,6 +24,10 @@ THE SOFTWARE.
 
 import logging
 
+import cocotb
+from cocotb.queue import Queue
+
+from .dllp import FcType
 from .endpoint import Endpoint
 from .port import SimPort
 from .tlp import Tlp, TlpType
@@ -46,6 +50,11 @@ class Device:
 
         self.set_port(SimPort(fc_init=[[64, 1024, 64, 64, 0, 0]]*8))
 
+        # Non-posted requests are handled separately, as accepting posted requests
+        # and completions must not depend on being able to send completions
+        self.np_queue = Queue()
+        cocotb.start_soon(self._run_np())
+
         if eps:
             try:
                 for ep in eps:
@@ -109,9 +118,19 @@ class Device:
     def connect(self, port):
         self.upstream_port.connect(port)
 
+    async def _run_np(self):
+        while True:
+            await self.handle_tlp(await self.np_queue.get())
+
     async def upstream_recv(self, tlp):
         self.log.debug("Got downstream TLP: %r", tlp)
         assert tlp.check()
+        if tlp.get_fc_type() == FcType.NP:
+            self.np_queue.put_nowait(tlp)
+        else:
+            await self.handle_tlp(tlp)
+
+    async def handle_tlp(self, tlp):
         if tlp.fmt_type in {TlpType.CFG_READ_0, TlpType.CFG_WRITE_0}:
             # config type 0
 
-- 
2.43.0


From 6d89b6e9db951468c647b75198757814f0d6d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 09/50] fix: lower address and byte count of zero-length reads

---
 cocotbext/pcie/core/tlp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/tlp.py b/cocotbext/pcie/core/tlp.py
index 2167ada..612312a 100644
--- a/cocotbext/pcie/core/tlp.py
+++ b/cocotbext/pcie/core/tlp.py
@@ -384,7 +384,10 @@ class Tlp:
 
     def get_first_be_offset(self):
         """Offset to first transferred byte from first byte enable"""
-        if self.first_be & 0x7 == 0:
+        if self.first_be & 0xf == 0:
+            # zero-length request
+            return 0
+        elif self.first_be & 0x7 == 0:
             return 3
         elif self.first_be & 0x3 == 0:
             return 2
@@ -399,7 +402,8 @@ class Tlp:
             be = self.first_be
         else:
             be = self.last_be
-        if be & 0xf == 0x1:
+        if be & 0xf == 0x0 or be & 0xf == 0x1:
+            # zero-length requests are treated as one byte at offset 0
             return 3
         elif be & 0xe == 0x2:
             return 2
-- 
2.43.0


From 48cb796177c755a0f1ca0e74cec4b09c7e73e230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 10/50] fix: address decode of 64-bit BARs of 4 GB and above
 and of 32-bit BARs

---
 cocotbext/pcie/core/function.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index e647b32..116ebe7 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -362,13 +362,13 @@ class Function:
             orig_bar = bar
             bar += 1
 
-            if bar_mask == 0:
-                # unimplemented BAR
-                continue
-
             if bar_val & 1:
                 # IO BAR
 
+                if bar_mask == 0:
+                    # unimplemented BAR
+                    continue
+
                 if io and (addr ^ bar_val) & bar_mask == 0:
                     return (orig_bar, addr & ~bar_mask)
 
@@ -386,6 +386,14 @@ class Function:
 
                     bar += 1
 
+                if bar_mask == 0:
+                    # unimplemented BAR
+                    continue
+
+                if not bar_val & 4:
+                    # 32 bit BAR, only claims addresses below 4 GB
+                    bar_mask |= 0xffffffff << 32
+
                 if not io and (addr ^ bar_val) & bar_mask == 0:
                     return (orig_bar, addr & ~bar_mask)
 
-- 
2.43.0


From 83696073b19bbf25dc0cd213e342b440cf43765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 11/50] fix: byte count of configuration write completions

---
 cocotbext/pcie/core/function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 116ebe7..f555925 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -604,6 +604,7 @@ class Function:
 
             # prepare completion TLP
             cpl = Tlp.create_completion_for_tlp(tlp, self.pcie_id)
+            cpl.byte_count = 4
 
             self.log.debug("Completion: %r", cpl)
             await self.upstream_send(cpl)
-- 
2.43.0


From e631ee0b70b3f0ae2592a5fb4032e3e43b9a6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 12/50] fix: enable bus mastering on bridges that are already
 enabled

---
 cocotbext/pcie/core/pci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index dd9ccc0..02f4158 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -543,7 +543,7 @@ class PciDevice:
 
         if self.is_enabled():
             if not self.is_busmaster:
-                self.set_master()
+                await self.set_master()
             return
 
         await self.enable_device()
-- 
2.43.0


From 7df879195f289310e4bef67e48186eb256aaf066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 13/50] fix: restore upper half of 64-bit BARs after sizing

---
 cocotbext/pcie/core/pci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 02f4158..efeedfc 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -1101,7 +1101,7 @@ class PciDevice:
                     raise Exception("Invalid BAR configuration")
 
                 # read adjacent BAR
-                orig_bar2 = await self.config_read_dword(0x010+bar*4)
+                orig_bar2 = await self.config_read_dword(0x010+(bar+1)*4)
                 await self.config_write_dword(0x010+(bar+1)*4, 0xffffffff)
                 val2 = await self.config_read_dword(0x010+(bar+1)*4)
                 await self.config_write_dword(0x010+(bar+1)*4, orig_bar2)
-- 
2.43.0


From 72caaaa92e36c66e018d9db288e4c42c0617a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 14/50] fix: align bridge window bases when assigning resources

---
 cocotbext/pcie/core/pci.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index efeedfc..10cbf11 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -234,6 +234,11 @@ class PciBus:
             await dev.assign_resources()
 
             if dev.subordinate:
+                # align bases against bridge registers
+                self.bridge.io_limit = align(self.bridge.io_limit, 0xfff)
+                self.bridge.mem_limit = align(self.bridge.mem_limit, 0xfffff)
+                self.bridge.prefetchable_mem_limit = align(self.bridge.prefetchable_mem_limit, 0xfffff)
+
                 dev.io_base = self.bridge.io_limit
                 dev.io_limit = dev.io_base
                 dev.mem_base = self.bridge.mem_limit
-- 
2.43.0


From f72566755da246b498d634f4910db26dd96c3ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 15/50] fix: discard previous results when enumerating again

---
 cocotbext/pcie/core/pci.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 10cbf11..1e6e0a3 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -146,6 +146,10 @@ class PciBus:
         first_bus = self.bus_num
         last_bus = first_bus
 
+        # discard results of any previous scan
+        self.devices = []
+        self.children = []
+
         # scan for devices
         for d in range(32):
             if self.bus_num == 0 and d == 0:
-- 
2.43.0


From 1c161d0de033897f402caed6586ab21fd1b9a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 16/50] fix: overlap of automatically placed one-register
 capabilities

---
 cocotbext/pcie/core/caps/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/common.py b/cocotbext/pcie/core/caps/common.py
index 91f08b5..847ad40 100644
--- a/cocotbext/pcie/core/caps/common.py
+++ b/cocotbext/pcie/core/caps/common.py
@@ -196,7 +196,7 @@ class PciCapList:
         else:
             cap.offset = self.start
             for c in self.list:
-                if c.offset < cap.offset+cap.length-1 and cap.offset <= c.offset+c.length-1:
+                if c.offset <= cap.offset+cap.length-1 and cap.offset <= c.offset+c.length-1:
                     cap.offset = c.offset+c.length
 
         self.list.append(cap)
-- 
2.43.0


From 97dcf609fb8546df1e28537b085c003c7eb7c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 17/50] fix: do not place capabilities outside of the
 configuration space

---
 cocotbext/pcie/core/caps/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cocotbext/pcie/core/caps/common.py b/cocotbext/pcie/core/caps/common.py
index 847ad40..ee62ca3 100644
--- a/cocotbext/pcie/core/caps/common.py
+++ b/cocotbext/pcie/core/caps/common.py
@@ -198,6 +198,9 @@ class PciCapList:
             for c in self.list:
                 if c.offset <= cap.offset+cap.length-1 and cap.offset <= c.offset+c.length-1:
                     cap.offset = c.offset+c.length
+            if cap.offset+cap.length-1 > self.end:
+                cap.offset = None
+                raise Exception("No space left for capability")
 
         self.list.append(cap)
 
-- 
2.43.0


From 66222ebb3f6ad04b5e27642a94daeca008c1c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 18/50] fix: capability list pointers after removing a
 capability

---
 cocotbext/pcie/core/caps/common.py |  8 +++++---
 cocotbext/pcie/core/function.py    | 10 +++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cocotbext/pcie/core/caps/common.py b/cocotbext/pcie/core/caps/common.py
index ee62ca3..2a239a1 100644
--- a/cocotbext/pcie/core/caps/common.py
+++ b/cocotbext/pcie/core/caps/common.py
@@ -222,9 +222,11 @@ class PciCapList:
         self.list.sort(key=lambda x: x.offset)
 
         # update list next cap pointers
-        for k in range(1, len(self.list)):
-            self.list[k-1].next_cap = self.list[k].offset*4
-            self.list[k].next_cap = 0
+        for k in range(len(self.list)):
+            if k < len(self.list)-1:
+                self.list[k].next_cap = self.list[k+1].offset*4
+            else:
+                self.list[k].next_cap = 0
 
 
 class PciExtCapList(PciCapList):
diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index f555925..9c0226d 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -308,14 +308,18 @@ class Function:
     def register_capability(self, cap, offset=None):
         cap.parent = self
         self.capabilities.register(cap, offset)
+        self._update_capabilities_ptr()
+
+    def deregister_capability(self, cap):
+        self.capabilities.deregister(cap)
+        self._update_capabilities_ptr()
+
+    def _update_capabilities_ptr(self):
         if self.capabilities.list:
             self.capabilities_ptr = self.capabilities.list[0].offset*4
         else:
             self.capabilities_ptr = 0
 
-    def deregister_capability(self, cap):
-        self.capabilities.deregister(cap)
-
     async def read_extended_capability_register(self, reg):
         return await self.ext_capabilities.read_register(reg)
 
-- 
2.43.0


From f2f97e59b1c14d28b64861e9f8d984f1248edeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 19/50] fix: alignment of MSI vector allocations

---
 cocotbext/pcie/core/msi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/msi.py b/cocotbext/pcie/core/msi.py
index 6d97bb7..2d69f7d 100644
--- a/cocotbext/pcie/core/msi.py
+++ b/cocotbext/pcie/core/msi.py
@@ -57,7 +57,7 @@ class MsiRegion(Region):
             self.msi_vectors[vec.data] = vec
             self.msi_msg_limit += 1
 
-        self.msi_msg_limit += self.msi_msg_limit % 32
+        self.msi_msg_limit += -self.msi_msg_limit % 32
 
         return vecs
 
-- 
2.43.0


From 029f772597efb051870a2c5d4c53d58caa2f8b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 20/50] fix: allocate enough vectors when changing between MSI
 and MSI-X

---
 cocotbext/pcie/core/pci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/pci.py b/cocotbext/pcie/core/pci.py
index 1e6e0a3..5095615 100644
--- a/cocotbext/pcie/core/pci.py
+++ b/cocotbext/pcie/core/pci.py
@@ -850,7 +850,7 @@ class PciDevice:
         await self.msi_set_enable(False)
         self.msi_enabled = True
 
-        if not self.msi_vectors:
+        if len(self.msi_vectors) < 32:
             self.msi_vectors = self.rc.msi_alloc_vectors(32)
 
         msg_ctrl = await self.capability_read_dword(PciCapId.MSI, 0)
@@ -974,7 +974,7 @@ class PciDevice:
         self.rc.log.info("pci %s: MSI-X PBA BIR: %d", self.pcie_id, pba_bir)
         self.rc.log.info("pci %s: MSI-X PBA offset: 0x%08x", self.pcie_id, pba_offset)
 
-        if not self.msi_vectors:
+        if len(self.msi_vectors) < table_size:
             self.msi_vectors = self.rc.msi_alloc_vectors(table_size)
 
         # configure vectors
-- 
2.43.0


From 28c2dbef86e111777b12eee19f5b4fbfad39c45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 21/50] fix: MSI extended message data enable bit

---
 cocotbext/pcie/core/caps/msi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/msi.py b/cocotbext/pcie/core/caps/msi.py
index ec91226..ee7b687 100644
--- a/cocotbext/pcie/core/caps/msi.py
+++ b/cocotbext/pcie/core/caps/msi.py
@@ -142,8 +142,9 @@ class MsiCapability(PciCap):
             if mask & 0x4:
                 self.msi_enable = bool(data & 1 << 16)
                 self.msi_multiple_message_enable = (data >> 20) & 0x7
+            if mask & 0x8:
                 if self.msi_extended_message_data_capable:
-                    self.msi_extended_message_data_enable = bool(data & 1 << 16)
+                    self.msi_extended_message_data_enable = bool(data & 1 << 26)
         elif reg == 1:
             # Message address
             self.msi_message_address = byte_mask_update(self.msi_message_address, mask, data & 0xfffffffc)
-- 
2.43.0


From dbfc5c46bd08a1fff9f335dc57fcaf2cacfd7fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 22/50] fix: read of unimplemented MSI capability registers

---
 cocotbext/pcie/core/caps/msi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/pcie/core/caps/msi.py b/cocotbext/pcie/core/caps/msi.py
index ee7b687..c34e964 100644
--- a/cocotbext/pcie/core/caps/msi.py
+++ b/cocotbext/pcie/core/caps/msi.py
@@ -135,6 +135,8 @@ class MsiCapability(PciCap):
         elif reg == (5 if self.msi_64bit_address_capable else 4) and self.msi_per_vector_mask_capable:
             # Pending bits
             return self.msi_pending_bits & 0xffffffff
+        else:
+            return 0
 
     async def _write_register(self, reg, data, mask):
         if reg == 0:
-- 
2.43.0


From d5c98aa394baee513eeec43373e0b299eafbbec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 23/50] fix: shift direction in PCIe link capabilities register

---
 cocotbext/pcie/core/caps/pcie.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index 1fb910d..dd9acf3 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -295,10 +295,10 @@ class PcieCapability(PciCap):
         elif reg == 3:
             # Link capabilities
             val = self.max_link_speed & 0xf
-            val |= (self.max_link_width & 0x3f) >> 4
-            val |= (self.aspm_support & 0x3) >> 10
-            val |= (self.l0s_exit_latency & 0x7) >> 12
-            val |= (self.l1_exit_latency & 0x7) >> 15
+            val |= (self.max_link_width & 0x3f) << 4
+            val |= (self.aspm_support & 0x3) << 10
+            val |= (self.l0s_exit_latency & 0x7) << 12
+            val |= (self.l1_exit_latency & 0x7) << 15
             val |= bool(self.clock_power_management) << 18
             val |= bool(self.surprise_down_error_reporting_capability) << 19
             val |= bool(self.data_link_layer_link_active_reporting_capable) << 20
-- 
2.43.0


From d58368e17ed65f5f223cea993a29f4affdbe2d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 24/50] fix: byte enable of slot status data link layer state
 changed bit

---
 cocotbext/pcie/core/caps/pcie.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index dd9acf3..34cf531 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -535,6 +535,7 @@ class PcieCapability(PciCap):
                     self.presence_detect_changed = False
                 if data & 1 << 20:
                     self.command_completed = False
+            if mask & 0x8:
                 if data & 1 << 24:
                     self.data_link_layer_state_changed = False
         elif reg == 7:
-- 
2.43.0


From 4b7c05a4f9211ce12dbd739b462d1f2892d58138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 25/50] fix: PCIe link status 2 register bits

---
 cocotbext/pcie/core/caps/pcie.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index 34cf531..c110f89 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -449,7 +449,7 @@ class PcieCapability(PciCap):
             val |= bool(self.retimer_presence_detected) << 22
             val |= bool(self.two_retimers_presence_detected) << 23
             val |= (self.crosslink_resolution & 0x3) << 24
-            val |= (self.downstream_component_presence & 0x7) << 27
+            val |= (self.downstream_component_presence & 0x7) << 28
             val |= bool(self.drs_message_received) << 31
             return val
         else:
@@ -579,10 +579,12 @@ class PcieCapability(PciCap):
                 self.transmit_margin = self.transmit_margin & 0x1 | (data >> 7) & 0x6
                 self.enter_modified_compliance = bool(data & 1 << 10)
                 self.compliance_sos = bool(data & 1 << 11)
-                self.compliance_preset_deemphasis = (data >> 12) & 0xff
+                self.compliance_preset_deemphasis = (data >> 12) & 0xf
             # Link status 2
             if mask & 0x4:
-                self.link_equalization_8gt_request = bool(data & 1 << 21)
+                if data & 1 << 21:
+                    self.link_equalization_8gt_request = False
+            if mask & 0x8:
                 if data & 1 << 31:
                     self.drs_message_received = False
 
-- 
2.43.0


From 6a5d26d8266939fe63e350aae5925e208ad0b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 26/50] fix: lane index of lane equalization control registers

---
 cocotbext/pcie/core/caps/pcie.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cocotbext/pcie/core/caps/pcie.py b/cocotbext/pcie/core/caps/pcie.py
index c110f89..ba9b0f7 100644
--- a/cocotbext/pcie/core/caps/pcie.py
+++ b/cocotbext/pcie/core/caps/pcie.py
@@ -639,16 +639,16 @@ class PcieExtendedCapability(PciExtCap):
         elif reg == 2:
             # Lane Error Status
             return self.lane_error_status & 0xffffffff
-        elif reg < 18:
+        elif 3 <= reg < 19:
             # Lane equalization control
-            val = self.downstream_port_8gt_transmitter_preset[(reg-2)*2] & 0xf
-            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-2)*2] & 0x7) << 4
-            val |= (self.upstream_port_8gt_transmitter_preset[(reg-2)*2] & 0xf) << 8
-            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-2)*2] & 0x7) << 12
-            val |= (self.downstream_port_8gt_transmitter_preset[(reg-2)*2+1] & 0xf) << 16
-            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-2)*2+1] & 0x7) << 20
-            val |= (self.upstream_port_8gt_transmitter_preset[(reg-2)*2+1] & 0xf) << 24
-            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-2)*2+1] & 0x7) << 28
+            val = self.downstream_port_8gt_transmitter_preset[(reg-3)*2] & 0xf
+            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-3)*2] & 0x7) << 4
+            val |= (self.upstream_port_8gt_transmitter_preset[(reg-3)*2] & 0xf) << 8
+            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-3)*2] & 0x7) << 12
+            val |= (self.downstream_port_8gt_transmitter_preset[(reg-3)*2+1] & 0xf) << 16
+            val |= (self.downstream_port_8gt_receiver_preset_hint[(reg-3)*2+1] & 0x7) << 20
+            val |= (self.upstream_port_8gt_transmitter_preset[(reg-3)*2+1] & 0xf) << 24
+            val |= (self.upstream_port_8gt_receiver_preset_hint[(reg-3)*2+1] & 0x7) << 28
             return val
         else:
             return 0
-- 
2.43.0


From 847c181c738ca2220f6eb1a557c2c16e54963cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 27/50] fix: width of AER first error pointer

---
 cocotbext/pcie/core/caps/aer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/caps/aer.py b/cocotbext/pcie/core/caps/aer.py
index 45c99d8..b8082bb 100644
--- a/cocotbext/pcie/core/caps/aer.py
+++ b/cocotbext/pcie/core/caps/aer.py
@@ -258,7 +258,7 @@ class AerExtendedCapability(PciExtCap):
             return val
         elif reg == 6:
             # Advanced error capabilities and control
-            val = self.first_error_pointer & 0xf
+            val = self.first_error_pointer & 0x1f
             val |= bool(self.ecrc_generation_capable) << 5
             val |= bool(self.ecrc_generation_enable) << 6
             val |= bool(self.ecrc_check_capable) << 7
-- 
2.43.0


From d1d547ceeb130b345be78139f4f0a4be2f0692f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 28/50] fix: bit order of AER root error command register

---
 cocotbext/pcie/core/caps/aer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/core/caps/aer.py b/cocotbext/pcie/core/caps/aer.py
index b8082bb..e6fdb58 100644
--- a/cocotbext/pcie/core/caps/aer.py
+++ b/cocotbext/pcie/core/caps/aer.py
@@ -273,9 +273,9 @@ class AerExtendedCapability(PciExtCap):
             return self.header_log[reg-7] & 0xffffffff
         elif reg == 11:
             # Root error command
-            val = bool(self.fatal_error_reporting_enable)
+            val = bool(self.correctable_error_reporting_enable)
             val |= bool(self.nonfatal_error_reporting_enable) << 1
-            val |= bool(self.correctable_error_reporting_enable) << 2
+            val |= bool(self.fatal_error_reporting_enable) << 2
             return val
         elif reg == 12:
             # Root error status
@@ -428,9 +428,9 @@ class AerExtendedCapability(PciExtCap):
         elif reg == 11:
             # Root error command
             if mask & 0x1:
-                self.fatal_error_reporting_enable = bool(data & 1 << 0)
+                self.correctable_error_reporting_enable = bool(data & 1 << 0)
                 self.nonfatal_error_reporting_enable = bool(data & 1 << 1)
-                self.correctable_error_reporting_enable = bool(data & 1 << 2)
+                self.fatal_error_reporting_enable = bool(data & 1 << 2)
             pass
         elif reg == 12:
             # Root error status
-- 
2.43.0


From e8de2e2c73437d7ce3ec14436ef44fd4d3953403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 29/50] fix: byte enable of BIST register

---
 cocotbext/pcie/core/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/core/function.py b/cocotbext/pcie/core/function.py
index 9c0226d..df3de67 100644
--- a/cocotbext/pcie/core/function.py
+++ b/cocotbext/pcie/core/function.py
@@ -285,7 +285,7 @@ class Function:
             if mask & 1:
                 # Cache line size
                 self.cache_line_size = data & 0xff
-            if mask & 4:
+            if mask & 8:
                 # BIST
                 self.start_bist = bool(data & 1 << 30)
         elif reg == 15:
-- 
2.43.0


From 305ad3b6f3db619efc48c798ace47791c761a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 30/50] fix: expansion ROM enable bit of functions without
 expansion ROM

---
 cocotbext/pcie/core/bridge.py   | 2 +-
 cocotbext/pcie/core/endpoint.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/bridge.py b/cocotbext/pcie/core/bridge.py
index 59ba2b1..0f183bf 100644
--- a/cocotbext/pcie/core/bridge.py
+++ b/cocotbext/pcie/core/bridge.py
@@ -262,7 +262,7 @@ class Bridge(Function):
             # Expansion ROM Base Address
             self.expansion_rom_addr = byte_mask_update(self.expansion_rom_addr,
                 mask, data, self.expansion_rom_addr_mask) & 0xfffff800
-            if mask & 0x1:
+            if mask & 0x1 and self.expansion_rom_addr_mask:
                 self.expansion_rom_enable = (data & 1) != 0
         elif reg == 15:
             # Interrupt line
diff --git a/cocotbext/pcie/core/endpoint.py b/cocotbext/pcie/core/endpoint.py
index 995b1de..3a9de87 100644
--- a/cocotbext/pcie/core/endpoint.py
+++ b/cocotbext/pcie/core/endpoint.py
@@ -156,7 +156,7 @@ class Endpoint(Function):
             # Expansion ROM Base Address
             self.expansion_rom_addr = byte_mask_update(self.expansion_rom_addr,
                 mask, data, self.expansion_rom_addr_mask) & 0xfffff800
-            if mask & 0x1:
+            if mask & 0x1 and self.expansion_rom_addr_mask:
                 self.expansion_rom_enable = (data & 1) != 0
         elif reg == 15:
             # Interrupt line
-- 
2.43.0


From ebfc6783d5ce1a6b174ef1cf9ad2891bc81f5abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 31/50] fix: device lookup of capability accesses of the root
 complex

---
 cocotbext/pcie/core/rc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/core/rc.py b/cocotbext/pcie/core/rc.py
index 0f81d0f..1abc73a 100644
--- a/cocotbext/pcie/core/rc.py
+++ b/cocotbext/pcie/core/rc.py
@@ -679,7 +679,7 @@ class RootComplex(Switch):
         await self.config_write_qwords(dev, addr, [data], byteorder, timeout, timeout_unit)
 
     async def capability_read(self, dev, cap_id, addr, length, timeout=0, timeout_unit='ns'):
-        ti = self.host_bridge.find_child_dev(dev)
+        ti = self.find_device(dev)
 
         if not ti:
             raise Exception("Device not found")
@@ -717,7 +717,7 @@ class RootComplex(Switch):
         return (await self.capability_read_qwords(dev, cap_id, addr, 1, byteorder, timeout, timeout_unit))[0]
 
     async def capability_write(self, dev, cap_id, addr, data, timeout=0, timeout_unit='ns'):
-        ti = self.host_bridge.find_child_dev(dev)
+        ti = self.find_device(dev)
 
         if not ti:
             raise Exception("Device not found")
-- 
2.43.0


From d23b493e746902feb150d9ce33eadc9893e08267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 32/50] fix: limit of unacknowledged packets on a link

---
 cocotbext/pcie/core/port.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/core/port.py b/cocotbext/pcie/core/port.py
index 5dd6197..9398660 100644
--- a/cocotbext/pcie/core/port.py
+++ b/cocotbext/pcie/core/port.py
@@ -435,10 +435,14 @@ class Port:
         await self.tx_queue.put(pkt)
         self.tx_queue_sync.set()
 
+    def tx_blocked(self):
+        # no TLP to send, or too many unacknowledged TLPs
+        return self.tx_queue.empty() or (self.next_transmit_seq - self.ackd_seq) & 0xfff >= 2048
+
     async def _run_transmit(self):
         await NullTrigger()
         while True:
-            while self.tx_queue.empty() and not self.send_ack.is_set() and not self.send_fc.is_set() and self.fc_initialized:
+            while self.tx_blocked() and not self.send_ack.is_set() and not self.send_fc.is_set() and self.fc_initialized:
                 self.tx_queue_sync.clear()
                 await First(self.tx_queue_sync.wait(), self.send_ack.wait(), self.send_fc.wait())
 
@@ -454,12 +458,12 @@ class Port:
                     pkt = Dllp.create_nak((self.next_recv_seq-1) & 0xfff)
                 else:
                     pkt = Dllp.create_ack((self.next_recv_seq-1) & 0xfff)
-            elif self.send_fc.is_set() or (not self.fc_initialized and self.tx_queue.empty()):
+            elif self.send_fc.is_set() or (not self.fc_initialized and self.tx_blocked()):
                 # Send FC DLLP
                 # Runs when
                 #  - FC timer expires
                 #  - FC update DLLP transmit requested
-                #  - FC init is not done AND no TLPs are queued for transmit
+                #  - FC init is not done AND no TLPs can be transmitted
                 if self.send_fc.is_set():
                     # Send FC update DLLP
                     for fc_ch in self.fc_state:
@@ -531,7 +535,7 @@ class Port:
 
             if pkt is not None:
                 self.log.debug("Send DLLP %s", pkt)
-            elif not self.tx_queue.empty():
+            elif not self.tx_blocked():
                 pkt = self.tx_queue.get_nowait()
                 pkt.seq = self.next_transmit_seq
                 self.log.debug("Send TLP %s", pkt)
@@ -596,6 +600,7 @@ class Port:
                     self.retry_buffer.get_nowait()
                     self.ackd_seq = (self.ackd_seq + 1) & 0xfff
                     self.log.debug("ACK TLP seq %d", self.ackd_seq)
+                self.tx_queue_sync.set()
                 if dllp.type == DllpType.NAK:
                     # retransmit
                     self.log.warning("Got NAK DLLP, start TLP replay")
-- 
2.43.0


From 8ef4313a34c83d6bd92353563f5b38ab91eebc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 33/50] fix: width of function number of S10 packets

---
 cocotbext/pcie/intel/s10/interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/intel/s10/interface.py b/cocotbext/pcie/intel/s10/interface.py
index fab4a5e..6a3b4bd 100644
--- a/cocotbext/pcie/intel/s10/interface.py
+++ b/cocotbext/pcie/intel/s10/interface.py
@@ -447,7 +447,7 @@ class S10PcieSource(S10PcieBase):
                         transaction.sop |= 1 << seg
 
                     transaction.bar_range |= frame.bar_range << seg*3
-                    transaction.func_num |= frame.func_num << seg*3
+                    transaction.func_num |= (frame.func_num & 0x3) << seg*2
                     if frame.vf_num is not None:
                         transaction.vf_active |= 1 << seg
                         transaction.vf_num |= frame.vf_num << seg*11
@@ -612,7 +612,7 @@ class S10PcieSink(S10PcieBase):
                         dword_count += count
 
                     frame.bar_range = (int(sample.bar_range) >> seg*3) & 0x7
-                    frame.func_num = (int(sample.func_num) >> seg*3) & 0x7
+                    frame.func_num = (int(sample.func_num) >> seg*2) & 0x3
                     if int(sample.vf_active) & (1 << seg):
                         frame.vf_num = (int(sample.vf_num) >> seg*11) & 0x7ff
                     frame.err = (int(sample.err) >> seg) & 0x1
-- 
2.43.0


From 46f8e9649ac95f88756ef1e67877f635e291f2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 34/50] fix: abort flag of P-Tile packets

---
 cocotbext/pcie/intel/ptile/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/pcie/intel/ptile/interface.py b/cocotbext/pcie/intel/ptile/interface.py
index cdf0c85..04af50c 100644
--- a/cocotbext/pcie/intel/ptile/interface.py
+++ b/cocotbext/pcie/intel/ptile/interface.py
@@ -489,6 +489,7 @@ class PTilePcieSource(PTilePcieBase):
                     if frame.vf_num is not None:
                         transaction.vf_active |= 1 << seg
                         transaction.vf_num |= frame.vf_num << seg*11
+                    transaction.tlp_abort |= frame.tlp_abort << seg
                     transaction.err |= frame.err << seg
 
                     empty = 0
@@ -651,6 +652,7 @@ class PTilePcieSink(PTilePcieBase):
                     frame.func_num = (int(sample.func_num) >> seg*3) & 0x7
                     if int(sample.vf_active) & (1 << seg):
                         frame.vf_num = (int(sample.vf_num) >> seg*11) & 0x7ff
+                    frame.tlp_abort = (int(sample.tlp_abort) >> seg) & 0x1
                     frame.err = (int(sample.err) >> seg) & 0x1
 
                 assert frame is not None, "framing error: data transferred outside of frame"
-- 
2.43.0


From e1a4bf1b0c5da016009f2445bdc1b7408e636071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 35/50] fix: byte enables of second completer request packet in
 a straddled transfer

---
 cocotbext/pcie/xilinx/us/interface.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/interface.py b/cocotbext/pcie/xilinx/us/interface.py
index 35425e1..6d1a022 100644
--- a/cocotbext/pcie/xilinx/us/interface.py
+++ b/cocotbext/pcie/xilinx/us/interface.py
@@ -929,8 +929,8 @@ class CqSource(UsPcieSource):
                         first = False
 
                         if self.width == 512:
-                            transaction.tuser |= (frame.first_be & 0xf) << (seg*4)
-                            transaction.tuser |= (frame.last_be & 0xf) << (seg*4+8)
+                            transaction.tuser |= (frame.first_be & 0xf) << (sop_cnt*4)
+                            transaction.tuser |= (frame.last_be & 0xf) << (sop_cnt*4+8)
 
                             # is_sop
                             transaction.tuser |= 1 << 80+sop_cnt
@@ -1012,6 +1012,7 @@ class CqSink(UsPcieSink):
             seg_valid = 2**self.seg_count-1
             seg_sop = 0
             seg_eop = 0
+            sop_cnt = 0
 
             if self.seg_count == 1:
                 lane_valid = int(sample.tkeep)
@@ -1056,12 +1057,14 @@ class CqSink(UsPcieSink):
                     frame = UsPcieFrame()
 
                     if self.width == 512:
-                        frame.first_be = (int(sample.tuser) >> (seg*4)) & 0xf
-                        frame.last_be = (int(sample.tuser) >> (seg*4+8)) & 0xf
+                        frame.first_be = (int(sample.tuser) >> (sop_cnt*4)) & 0xf
+                        frame.last_be = (int(sample.tuser) >> (sop_cnt*4+8)) & 0xf
                     else:
                         frame.first_be = int(sample.tuser) & 0xf
                         frame.last_be = (int(sample.tuser) >> 4) & 0xf
 
+                    sop_cnt += 1
+
                 if int(sample.tuser) & (1 << self.discontinue_offset):
                     frame.discontinue = True
 
-- 
2.43.0


From 633d6dd1005ffa5e996ffcd9a38bc13088ec204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 36/50] fix: wait of streaming sources returning with packets
 still to be sent

---
 cocotbext/pcie/intel/ptile/interface.py | 2 +-
 cocotbext/pcie/intel/s10/interface.py   | 2 +-
 cocotbext/pcie/xilinx/us/interface.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/interface.py b/cocotbext/pcie/intel/ptile/interface.py
index 04af50c..44edd4d 100644
--- a/cocotbext/pcie/intel/ptile/interface.py
+++ b/cocotbext/pcie/intel/ptile/interface.py
@@ -451,7 +451,7 @@ class PTilePcieSource(PTilePcieBase):
                 else:
                     self.bus.valid.value = 0
                     self.active = bool(self.drive_obj)
-                    if not self.drive_obj:
+                    if not self.drive_obj and self.empty():
                         self.idle_event.set()
 
     async def _run(self):
diff --git a/cocotbext/pcie/intel/s10/interface.py b/cocotbext/pcie/intel/s10/interface.py
index 6a3b4bd..70fbacc 100644
--- a/cocotbext/pcie/intel/s10/interface.py
+++ b/cocotbext/pcie/intel/s10/interface.py
@@ -417,7 +417,7 @@ class S10PcieSource(S10PcieBase):
                 else:
                     self.bus.valid.value = 0
                     self.active = bool(self.drive_obj)
-                    if not self.drive_obj:
+                    if not self.drive_obj and self.empty():
                         self.idle_event.set()
 
     async def _run(self):
diff --git a/cocotbext/pcie/xilinx/us/interface.py b/cocotbext/pcie/xilinx/us/interface.py
index 6d1a022..ceccb91 100644
--- a/cocotbext/pcie/xilinx/us/interface.py
+++ b/cocotbext/pcie/xilinx/us/interface.py
@@ -331,7 +331,7 @@ class UsPcieSource(UsPcieBase):
                 else:
                     self.bus.tvalid.value = 0
                     self.active = bool(self.drive_obj)
-                    if not self.drive_obj:
+                    if not self.drive_obj and self.empty():
                         self.idle_event.set()
                         self.bus_active_event.clear()
 
-- 
2.43.0


From 47651dde265df64a5ec63b1570380749e0355e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 37/50] fix: non-posted request credits lost while UltraScale
 CQ interface is busy

---
 cocotbext/pcie/xilinx/us/us_model.py  | 21 ++++++++++++++-------
 cocotbext/pcie/xilinx/us/usp_model.py | 21 ++++++++++++++-------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index fc72913..ec94245 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -734,6 +734,7 @@ class UltraScalePcieDevice(Device):
         if self.rc_source:
             cocotb.start_soon(self._run_rc_logic())
         if self.cq_source:
+            cocotb.start_soon(self._run_cq_np_req_logic())
             cocotb.start_soon(self._run_cq_logic())
         if self.cc_sink:
             cocotb.start_soon(self._run_cc_logic())
@@ -974,7 +975,7 @@ class UltraScalePcieDevice(Device):
             # pcie_perstn0_out
             # pcie_perstn1_out
 
-    async def _run_cq_logic(self):
+    async def _run_cq_np_req_logic(self):
         clock_edge_event = RisingEdge(self.user_clk)
 
         while True:
@@ -984,6 +985,16 @@ class UltraScalePcieDevice(Device):
             if self.pcie_cq_np_req is None or self.pcie_cq_np_req.value:
                 self.cq_np_req_count = min(self.cq_np_req_count+1, 32)
 
+            # output new cq_np_req_count
+            if self.pcie_cq_np_req_count is not None:
+                self.pcie_cq_np_req_count.value = self.cq_np_req_count
+
+    async def _run_cq_logic(self):
+        clock_edge_event = RisingEdge(self.user_clk)
+
+        while True:
+            await clock_edge_event
+
             # handle completer requests
             # send any queued non-posted requests first
             while not self.cq_np_queue.empty() and self.cq_np_req_count > 0:
@@ -997,8 +1008,8 @@ class UltraScalePcieDevice(Device):
 
                 if tlp.fmt_type in {TlpType.IO_READ, TlpType.IO_WRITE, TlpType.MEM_READ, TlpType.MEM_READ_64}:
                     # non-posted request
-                    if self.cq_np_req_count > 0:
-                        # have credit, can forward
+                    if self.cq_np_queue.empty() and self.cq_np_req_count > 0:
+                        # have credit and nothing waiting ahead, can forward
                         self.cq_np_req_count -= 1
                         await self.cq_source.send(tlp.pack_us_cq())
                     else:
@@ -1008,10 +1019,6 @@ class UltraScalePcieDevice(Device):
                     # posted request
                     await self.cq_source.send(tlp.pack_us_cq())
 
-            # output new cq_np_req_count
-            if self.pcie_cq_np_req_count is not None:
-                self.pcie_cq_np_req_count.value = self.cq_np_req_count
-
     async def _run_cc_logic(self):
         while True:
             tlp = Tlp_us.unpack_us_cc(await self.cc_sink.recv(), self.enable_parity)
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 924d5e5..1747e03 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -878,6 +878,7 @@ class UltraScalePlusPcieDevice(Device):
         if self.rc_source:
             cocotb.start_soon(self._run_rc_logic())
         if self.cq_source:
+            cocotb.start_soon(self._run_cq_np_req_logic())
             cocotb.start_soon(self._run_cq_logic())
         if self.cc_sink:
             cocotb.start_soon(self._run_cc_logic())
@@ -1114,7 +1115,7 @@ class UltraScalePlusPcieDevice(Device):
             else:
                 return
 
-    async def _run_cq_logic(self):
+    async def _run_cq_np_req_logic(self):
         clock_edge_event = RisingEdge(self.user_clk)
 
         while True:
@@ -1124,6 +1125,16 @@ class UltraScalePlusPcieDevice(Device):
             if self.pcie_cq_np_req is None or self.pcie_cq_np_req.value:
                 self.cq_np_req_count = min(self.cq_np_req_count+1, 32)
 
+            # output new cq_np_req_count
+            if self.pcie_cq_np_req_count is not None:
+                self.pcie_cq_np_req_count.value = self.cq_np_req_count
+
+    async def _run_cq_logic(self):
+        clock_edge_event = RisingEdge(self.user_clk)
+
+        while True:
+            await clock_edge_event
+
             # handle completer requests
             # send any queued non-posted requests first
             while not self.cq_np_queue.empty() and self.cq_np_req_count > 0:
@@ -1137,8 +1148,8 @@ class UltraScalePlusPcieDevice(Device):
 
                 if tlp.fmt_type in {TlpType.IO_READ, TlpType.IO_WRITE, TlpType.MEM_READ, TlpType.MEM_READ_64}:
                     # non-posted request
-                    if self.cq_np_req_count > 0:
-                        # have credit, can forward
+                    if self.cq_np_queue.empty() and self.cq_np_req_count > 0:
+                        # have credit and nothing waiting ahead, can forward
                         self.cq_np_req_count -= 1
                         await self.cq_source.send(tlp.pack_us_cq())
                     else:
@@ -1148,10 +1159,6 @@ class UltraScalePlusPcieDevice(Device):
                     # posted request
                     await self.cq_source.send(tlp.pack_us_cq())
 
-            # output new cq_np_req_count
-            if self.pcie_cq_np_req_count is not None:
-                self.pcie_cq_np_req_count.value = self.cq_np_req_count
-
     async def _run_cc_logic(self):
         while True:
             tlp = Tlp_us.unpack_us_cc(await self.cc_sink.recv(), self.enable_parity)
-- 
2.43.0


From 864692d279700de8115df9e7755ef65c33d352ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 38/50] fix: BAR aperture and target function of UltraScale
 completer requests taken from function 0

---
 cocotbext/pcie/xilinx/us/us_model.py  | 12 ++++++------
 cocotbext/pcie/xilinx/us/usp_model.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index ec94245..236657e 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -897,7 +897,7 @@ class UltraScalePcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                    tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
@@ -917,12 +917,12 @@ class UltraScalePcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    if self.functions[0].bar[bar[0]] & 4:
-                        tlp.bar_aperture = (~(self.functions[0].bar_mask[bar[0]] |
-                            (self.functions[0].bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
+                    if f.bar[bar[0]] & 4:
+                        tlp.bar_aperture = (~(f.bar_mask[bar[0]] |
+                            (f.bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
                     else:
-                        tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
-                    tlp.completer_id = tlp.completer_id._replace(bus=self.bus_num)
+                        tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
+                    tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
                     return
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 1747e03..9db743c 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1041,8 +1041,8 @@ class UltraScalePlusPcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
-                    tlp.completer_id = tlp.completer_id._replace(bus=self.bus_num)
+                    tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
+                    tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
                     return
@@ -1061,11 +1061,11 @@ class UltraScalePlusPcieDevice(Device):
 
                     tlp = Tlp_us(tlp)
                     tlp.bar_id = bar[0]
-                    if self.functions[0].bar[bar[0]] & 4:
-                        tlp.bar_aperture = (~(self.functions[0].bar_mask[bar[0]] |
-                            (self.functions[0].bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
+                    if f.bar[bar[0]] & 4:
+                        tlp.bar_aperture = (~(f.bar_mask[bar[0]] |
+                            (f.bar_mask[bar[0]+1] << 32)) & 0xffffffffffffffff).bit_length()
                     else:
-                        tlp.bar_aperture = (~self.functions[0].bar_mask[bar[0]] & 0xffffffff).bit_length()
+                        tlp.bar_aperture = (~f.bar_mask[bar[0]] & 0xffffffff).bit_length()
                     tlp.completer_id = f.pcie_id
                     self.cq_queue.put_nowait(tlp)
 
-- 
2.43.0


From 2d264b453b78d68d26321b37e0a80ce5c3b0d147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 39/50] fix: UltraScale requests waiting for internal tags
 never sent, and overtaken

---
 cocotbext/pcie/xilinx/us/us_model.py  | 6 +++++-
 cocotbext/pcie/xilinx/us/usp_model.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 236657e..3dafa9a 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -334,6 +334,7 @@ class UltraScalePcieDevice(Device):
         self.msg_queue = Queue()
 
         self.rq_np_queue = Queue()
+        self.rq_np_queue_busy = False
         self.rq_np_queue_dequeue = Event()
         self.rq_np_limit = 16
 
@@ -879,6 +880,7 @@ class UltraScalePcieDevice(Device):
                         self.local_error = True
 
                     self.tag_available_count = self.get_available_tag_count()
+                    self.tag_release.set()
 
                     return
 
@@ -1043,7 +1045,7 @@ class UltraScalePcieDevice(Device):
             if tlp.is_nonposted():
                 # non-posted request
 
-                if self.rq_np_queue.empty() and self.cpld_credit_count+tlp.get_data_credits() <= self.cpld_credit_limit and (self.enable_client_tag or self.tag_available_count > 0):
+                if self.rq_np_queue.empty() and not self.rq_np_queue_busy and self.cpld_credit_count+tlp.get_data_credits() <= self.cpld_credit_limit and (self.enable_client_tag or self.tag_available_count > 0):
                     # queue empty and have data credits; skip queue and send immediately to preserve ordering
 
                     if not self.functions[tlp.requester_id.function].bus_master_enable:
@@ -1091,7 +1093,9 @@ class UltraScalePcieDevice(Device):
 
     async def _run_rq_np_queue_logic(self):
         while True:
+            self.rq_np_queue_busy = False
             tlp = await self.rq_np_queue.get()
+            self.rq_np_queue_busy = True
             self.rq_np_queue_dequeue.set()
 
             while True:
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 9db743c..b63bf66 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -387,6 +387,7 @@ class UltraScalePlusPcieDevice(Device):
         self.msg_queue = Queue()
 
         self.rq_np_queue = Queue()
+        self.rq_np_queue_busy = False
         self.rq_np_queue_dequeue = Event()
         self.rq_np_limit = 16
 
@@ -1023,6 +1024,7 @@ class UltraScalePlusPcieDevice(Device):
                         self.local_error.put_nowait(LocalError.RX_CPL_BUF_OVF_ERR)
 
                     self.tag_available_count = self.get_available_tag_count()
+                    self.tag_release.set()
 
                     return
 
@@ -1183,7 +1185,7 @@ class UltraScalePlusPcieDevice(Device):
             if tlp.is_nonposted():
                 # non-posted request
 
-                if self.rq_np_queue.empty() and self.cpld_credit_count+tlp.get_data_credits() <= self.cpld_credit_limit and (self.enable_client_tag or self.tag_available_count > 0):
+                if self.rq_np_queue.empty() and not self.rq_np_queue_busy and self.cpld_credit_count+tlp.get_data_credits() <= self.cpld_credit_limit and (self.enable_client_tag or self.tag_available_count > 0):
                     # queue empty and have data credits; skip queue and send immediately to preserve ordering
 
                     if not self.functions[tlp.requester_id.function].bus_master_enable:
@@ -1231,7 +1233,9 @@ class UltraScalePlusPcieDevice(Device):
 
     async def _run_rq_np_queue_logic(self):
         while True:
+            self.rq_np_queue_busy = False
             tlp = await self.rq_np_queue.get()
+            self.rq_np_queue_busy = True
             self.rq_np_queue_dequeue.set()
 
             while True:
-- 
2.43.0


From d9b02a762d96234d7ebe06b4dab10f82316861c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 40/50] fix: available tag count of UltraScale models exceeding
 the number of tags

---
 cocotbext/pcie/xilinx/us/us_model.py  | 7 +++----
 cocotbext/pcie/xilinx/us/usp_model.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 3dafa9a..9cdef1a 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -762,10 +762,9 @@ class UltraScalePcieDevice(Device):
         return None
 
     def get_available_tag_count(self):
-        if self.functions[0].pcie_cap.extended_tag_field_enable:
-            return self.active_request.count(None)
-        else:
-            return self.active_request[0:32].count(None)
+        tag_count = min(256 if self.functions[0].pcie_cap.extended_tag_field_enable else 32, self.tag_count)
+
+        return self.active_request[0:tag_count].count(None)
 
     async def upstream_recv(self, tlp):
         self.log.debug("Got downstream TLP: %r", tlp)
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index b63bf66..2475758 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -906,10 +906,9 @@ class UltraScalePlusPcieDevice(Device):
         return None
 
     def get_available_tag_count(self):
-        if self.functions[0].pcie_cap.extended_tag_field_enable:
-            return self.active_request.count(None)
-        else:
-            return self.active_request[0:32].count(None)
+        tag_count = min(256 if self.functions[0].pcie_cap.extended_tag_field_enable else 32, self.tag_count)
+
+        return self.active_request[0:tag_count].count(None)
 
     async def upstream_recv(self, tlp):
         self.log.debug("Got downstream TLP: %r", tlp)
-- 
2.43.0


From fa815fe8206d96f2feb2d0310b0b353ea2961e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 41/50] fix: data credits of UltraScale non-posted writes never
 released

---
 cocotbext/pcie/xilinx/us/us_model.py  | 7 ++++---
 cocotbext/pcie/xilinx/us/usp_model.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index 9cdef1a..fac5718 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -862,9 +862,10 @@ class UltraScalePcieDevice(Device):
                         tlp.request_completed = True
                         self.active_request[tlp.tag] = None
 
-                    # TODO track individual operations
-                    self.cpld_credit_count = max(self.cpld_credit_count-tlp.get_data_credits(), 0)
-                    self.cpld_credit_released.set()
+                    # release data credits held by the request
+                    if req and tlp.request_completed:
+                        self.cpld_credit_count = max(self.cpld_credit_count-req.get_data_credits(), 0)
+                        self.cpld_credit_released.set()
 
                     # check and track buffer occupancy
                     data_fc = tlp.get_data_credits()
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 2475758..6b1a61e 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1006,9 +1006,10 @@ class UltraScalePlusPcieDevice(Device):
                         tlp.request_completed = True
                         self.active_request[tlp.tag] = None
 
-                    # TODO track individual operations
-                    self.cpld_credit_count = max(self.cpld_credit_count-tlp.get_data_credits(), 0)
-                    self.cpld_credit_released.set()
+                    # release data credits held by the request
+                    if req and tlp.request_completed:
+                        self.cpld_credit_count = max(self.cpld_credit_count-req.get_data_credits(), 0)
+                        self.cpld_credit_released.set()
 
                     # check and track buffer occupancy
                     data_fc = tlp.get_data_credits()
-- 
2.43.0


From f38070bf74744266f001ea6fa6d633fc4352526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 42/50] fix: function number of requests on Intel RX interfaces
 taken from the requester

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 4 ++--
 cocotbext/pcie/intel/s10/s10_model.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index d994702..ac1424f 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -817,7 +817,7 @@ class PTilePcieDevice(Device):
                     frame = PTilePcieFrame.from_tlp(tlp)
 
                     frame.bar_range = 6
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
@@ -838,7 +838,7 @@ class PTilePcieDevice(Device):
                     frame = PTilePcieFrame.from_tlp(tlp)
 
                     frame.bar_range = bar[0]
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index 824d4a8..bad521a 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -671,7 +671,7 @@ class S10PcieDevice(Device):
                     frame = S10PcieFrame.from_tlp(tlp)
 
                     frame.bar_range = 6
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
@@ -692,7 +692,7 @@ class S10PcieDevice(Device):
                     frame = S10PcieFrame.from_tlp(tlp)
 
                     frame.bar_range = bar[0]
-                    frame.func_num = tlp.requester_id.function
+                    frame.func_num = f.pcie_id.function
 
                     await self.rx_queue.put((tlp, frame))
 
-- 
2.43.0


From c65c2a1b14cb90a9fac468619060a99b13eb4eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 43/50] fix: Intel completion buffer space released by requests

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 5 +++--
 cocotbext/pcie/intel/s10/s10_model.py     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index ac1424f..58640d6 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -899,8 +899,9 @@ class PTilePcieDevice(Device):
             tlp, frame = await self.rx_queue.get()
             await self.rx_source.send(frame)
 
-            self.rx_buf_cplh_fc_count = max(self.rx_buf_cplh_fc_count-1, 0)
-            self.rx_buf_cpld_fc_count = max(self.rx_buf_cpld_fc_count-tlp.get_data_credits(), 0)
+            if tlp.fmt_type in {TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA}:
+                self.rx_buf_cplh_fc_count = max(self.rx_buf_cplh_fc_count-1, 0)
+                self.rx_buf_cpld_fc_count = max(self.rx_buf_cpld_fc_count-tlp.get_data_credits(), 0)
 
     async def _run_tx_logic(self):
         while True:
diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index bad521a..ae699b3 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -757,8 +757,9 @@ class S10PcieDevice(Device):
             tlp, frame = await self.rx_queue.get()
             await self.rx_source.send(frame)
 
-            self.rx_buf_cplh_fc_count = max(self.rx_buf_cplh_fc_count-1, 0)
-            self.rx_buf_cpld_fc_count = max(self.rx_buf_cpld_fc_count-tlp.get_data_credits(), 0)
+            if tlp.fmt_type in {TlpType.CPL, TlpType.CPL_DATA, TlpType.CPL_LOCKED, TlpType.CPL_LOCKED_DATA}:
+                self.rx_buf_cplh_fc_count = max(self.rx_buf_cplh_fc_count-1, 0)
+                self.rx_buf_cpld_fc_count = max(self.rx_buf_cpld_fc_count-tlp.get_data_credits(), 0)
 
     async def _run_tx_logic(self):
         while True:
-- 
2.43.0


From b01074c6c1daca3679ca8d7566cd4c775f8608d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 44/50] fix: extended capabilities of the hard IP models
 registered in the list of PCI capabilities

---
 cocotbext/pcie/intel/ptile/ptile_model.py | 4 ++--
 cocotbext/pcie/intel/s10/s10_model.py     | 4 ++--
 cocotbext/pcie/xilinx/us/us_model.py      | 4 ++--
 cocotbext/pcie/xilinx/us/usp_model.py     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cocotbext/pcie/intel/ptile/ptile_model.py b/cocotbext/pcie/intel/ptile/ptile_model.py
index 58640d6..644cd7b 100644
--- a/cocotbext/pcie/intel/ptile/ptile_model.py
+++ b/cocotbext/pcie/intel/ptile/ptile_model.py
@@ -88,13 +88,13 @@ class PTilePcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # VC 0x52
         # ARI 0x5e
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0x62)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0x62)
 
         # PHY16 0x6e
         # LM 0x7a
diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index ae699b3..be8b220 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -75,13 +75,13 @@ class S10PcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # VC 0x4e
         # ARI 0x5e
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0x62)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0x62)
 
         # SRIOV 0x6e
         # TPH 0x7e
diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index fac5718..bc5a279 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -86,7 +86,7 @@ class UltraScalePcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # ARI 0x50
         # DSN 0x54
@@ -97,7 +97,7 @@ class UltraScalePcieFunction(Endpoint):
         # TPH 0x9d
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0xC0)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0xC0)
 
         # VSEC 0xd0 (MCAP)
         # VC 0xf0
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 6b1a61e..6371913 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -125,14 +125,14 @@ class UltraScalePlusPcieFunction(Endpoint):
 
         # PCIe extended capabilities
         self.aer_ext_cap = AerExtendedCapability()
-        self.register_capability(self.aer_ext_cap, offset=0x40)
+        self.register_extended_capability(self.aer_ext_cap, offset=0x40)
 
         # SRIOV 0x50
         # ARI 0x60
         # DSN 0x68
 
         self.pcie_ext_cap = PcieExtendedCapability()
-        self.register_capability(self.pcie_ext_cap, offset=0x70)
+        self.register_extended_capability(self.pcie_ext_cap, offset=0x70)
 
         # VC 0x80
         # TPH 0x88
-- 
2.43.0


From d3144c14329ddda42b79699db1be8cc9b1bd8def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 45/50] fix: number of MSI vectors of physical functions 2 and
 3

---
 cocotbext/pcie/intel/s10/s10_model.py | 4 ++--
 cocotbext/pcie/xilinx/us/usp_model.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index be8b220..6a3a181 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -553,7 +553,7 @@ class S10PcieDevice(Device):
             self.make_function()
 
             if self.pf2_msi_enable:
-                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-2).bit_length()
+                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-1).bit_length()
             else:
                 self.functions[2].deregister_capability(self.functions[2].msi_cap)
 
@@ -570,7 +570,7 @@ class S10PcieDevice(Device):
             self.make_function()
 
             if self.pf3_msi_enable:
-                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-3).bit_length()
+                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-1).bit_length()
             else:
                 self.functions[3].deregister_capability(self.functions[3].msi_cap)
 
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 6371913..96fb9a9 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -828,7 +828,7 @@ class UltraScalePlusPcieDevice(Device):
             self.make_function()
 
             if self.pf2_msi_enable:
-                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-2).bit_length()
+                self.functions[2].msi_cap.msi_multiple_message_capable = (self.pf2_msi_count-1).bit_length()
             else:
                 self.functions[2].deregister_capability(self.functions[2].msi_cap)
 
@@ -845,7 +845,7 @@ class UltraScalePlusPcieDevice(Device):
             self.make_function()
 
             if self.pf3_msi_enable:
-                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-3).bit_length()
+                self.functions[3].msi_cap.msi_multiple_message_capable = (self.pf3_msi_count-1).bit_length()
             else:
                 self.functions[3].deregister_capability(self.functions[3].msi_cap)
 
-- 
2.43.0


From f8109ea8ab12618da6dd58aa8bcc6c12e0cb2c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 46/50] fix: received credits on the UltraScale+ flow control
 interface

---
 cocotbext/pcie/xilinx/us/usp_model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 96fb9a9..1f53ed9 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1474,12 +1474,12 @@ class UltraScalePlusPcieDevice(Device):
 
             if (sel == 0b010):
                 # Receive credits consumed
-                cfg_fc_ph = self.upstream_port.fc_state[0].ph.rx_credits_consumed
-                cfg_fc_pd = self.upstream_port.fc_state[0].pd.rx_credits_consumed
-                cfg_fc_nph = self.upstream_port.fc_state[0].nph.rx_credits_consumed
-                cfg_fc_npd = self.upstream_port.fc_state[0].npd.rx_credits_consumed
-                cfg_fc_cplh = self.upstream_port.fc_state[0].cplh.rx_credits_consumed
-                cfg_fc_cpld = self.upstream_port.fc_state[0].cpld.rx_credits_consumed
+                cfg_fc_ph = self.upstream_port.fc_state[0].ph.rx_credits_received
+                cfg_fc_pd = self.upstream_port.fc_state[0].pd.rx_credits_received
+                cfg_fc_nph = self.upstream_port.fc_state[0].nph.rx_credits_received
+                cfg_fc_npd = self.upstream_port.fc_state[0].npd.rx_credits_received
+                cfg_fc_cplh = self.upstream_port.fc_state[0].cplh.rx_credits_received
+                cfg_fc_cpld = self.upstream_port.fc_state[0].cpld.rx_credits_received
             elif (sel == 0b100):
                 # Transmit credits available
                 cfg_fc_ph = self.upstream_port.fc_state[0].ph.tx_credits_available
-- 
2.43.0


From b45859eea4bf9ecd2cdeb4089298bb7cdb98c5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 47/50] fix: MSI enables of UltraScale+ physical functions 2
 and 3

---
 cocotbext/pcie/xilinx/us/usp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 1f53ed9..1ba2d8f 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1609,7 +1609,7 @@ class UltraScalePlusPcieDevice(Device):
             # MSI
             if self.cfg_interrupt_msi_enable is not None:
                 val = 0
-                for k in range(min(len(self.functions), 2)):
+                for k in range(min(len(self.functions), 4)):
                     if self.functions[k].msi_cap.msi_enable:
                         val |= 1 << k
                 self.cfg_interrupt_msi_enable.value = val
@@ -1628,7 +1628,7 @@ class UltraScalePlusPcieDevice(Device):
 
             if self.cfg_interrupt_msi_mmenable is not None:
                 val = 0
-                for k in range(min(len(self.functions), 2)):
+                for k in range(min(len(self.functions), 4)):
                     val |= (self.functions[k].msi_cap.msi_multiple_message_enable & 0x7) << k*3
                 self.cfg_interrupt_msi_mmenable.value = val
 
-- 
2.43.0


From a15b63ff085564902ec8613a1b5c2d4446b221d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 48/50] fix: I/O and memory space enables on
 cfg_function_status of UltraScale models taken from the bus master enable

---
 cocotbext/pcie/xilinx/us/us_model.py  | 6 +++++-
 cocotbext/pcie/xilinx/us/usp_model.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cocotbext/pcie/xilinx/us/us_model.py b/cocotbext/pcie/xilinx/us/us_model.py
index bc5a279..dce2e03 100644
--- a/cocotbext/pcie/xilinx/us/us_model.py
+++ b/cocotbext/pcie/xilinx/us/us_model.py
@@ -1249,8 +1249,12 @@ class UltraScalePcieDevice(Device):
             if self.cfg_function_status is not None:
                 status = 0
                 for k in range(len(self.functions)):
+                    if self.functions[k].io_space_enable:
+                        status |= 0x01 << k*4
+                    if self.functions[k].memory_space_enable:
+                        status |= 0x02 << k*4
                     if self.functions[k].bus_master_enable:
-                        status |= 0x07 << k*4
+                        status |= 0x04 << k*4
                     if self.functions[k].interrupt_disable:
                         status |= 0x08 << k*4
                 self.cfg_function_status.value = status
diff --git a/cocotbext/pcie/xilinx/us/usp_model.py b/cocotbext/pcie/xilinx/us/usp_model.py
index 1ba2d8f..16ba0bd 100644
--- a/cocotbext/pcie/xilinx/us/usp_model.py
+++ b/cocotbext/pcie/xilinx/us/usp_model.py
@@ -1400,8 +1400,12 @@ class UltraScalePlusPcieDevice(Device):
             if self.cfg_function_status is not None:
                 status = 0
                 for k in range(len(self.functions)):
+                    if self.functions[k].io_space_enable:
+                        status |= 0x01 << k*4
+                    if self.functions[k].memory_space_enable:
+                        status |= 0x02 << k*4
                     if self.functions[k].bus_master_enable:
-                        status |= 0x07 << k*4
+                        status |= 0x04 << k*4
                     if self.functions[k].interrupt_disable:
                         status |= 0x08 << k*4
                 self.cfg_function_status.value = status
-- 
2.43.0


From dcfa4f1d900001c3a2c8b7cc4d08d9592100c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 49/50] fix: position of the AER interrupt message number on
 the L-Tile configuration output

---
 cocotbext/pcie/intel/s10/s10_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/intel/s10/s10_model.py b/cocotbext/pcie/intel/s10/s10_model.py
index 6a3a181..1d3ccda 100644
--- a/cocotbext/pcie/intel/s10/s10_model.py
+++ b/cocotbext/pcie/intel/s10/s10_model.py
@@ -970,7 +970,7 @@ class S10PcieDevice(Device):
                 val = bool(func.pcie_cap.system_error_on_fatal_error_enable) << 31
                 val |= bool(func.pcie_cap.system_error_on_non_fatal_error_enable) << 30
                 val |= bool(func.pcie_cap.system_error_on_correctable_error_enable) << 29
-                val |= (func.aer_ext_cap.advanced_error_interrupt_message_number & 0x1f) << 28
+                val |= (func.aer_ext_cap.advanced_error_interrupt_message_number & 0x1f) << 24
                 val |= (func.pcie_cap.negotiated_link_width & 0x3f) << 18
                 val |= bool(func.pm_cap.no_soft_reset) << 17
                 val |= bool(func.pcie_cap.read_completion_boundary) << 16
-- 
2.43.0


From 8261d4be15df506e26da8963703a2a300ad44283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:47 +0000
Subject: [PATCH 50/50] fix: request completed flag lost when copying an
 UltraScale packet

---
 cocotbext/pcie/xilinx/us/tlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/pcie/xilinx/us/tlp.py b/cocotbext/pcie/xilinx/us/tlp.py
index fd7391d..ea610bf 100644
--- a/cocotbext/pcie/xilinx/us/tlp.py
+++ b/cocotbext/pcie/xilinx/us/tlp.py
@@ -120,7 +120,7 @@ class Tlp_us(Tlp):
             self.discontinue = tlp.discontinue
             self.seq_num = tlp.seq_num
             self.error_code = tlp.error_code
-            self.request_completed == tlp.request_completed
+            self.request_completed = tlp.request_completed
 
     def pack_us_cq(self):
         pkt = UsPcieFrame()
-- 
2.43.0

