From e5917eb05b2db0bb1cd158e44a9782e049412e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 01/17] fix: deliver frames without payload as soon as their
 last byte arrives

A frame of the minimum length (no payload) was only recognised once a
further byte had been received, so its delivery was delayed and that
byte was appended to it.
---
 zigpy_cc/uart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index da15a3a..fbb3711 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -37,7 +37,7 @@ class Parser:
     def write(self, b: int):
         self.buffer += bytes([b])
         if SOF == self.buffer[0]:
-            if len(self.buffer) > MinMessageLength:
+            if len(self.buffer) >= MinMessageLength:
                 dataLength = self.buffer[PositionDataLength]
 
                 fcsPosition = DataStart + dataLength
-- 
2.43.0


From 928a0ddc5a466165df7e6ba2f939e8a082180ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:33 +0000
Subject: [PATCH 02/17] fix: a frame that cannot be processed no longer loses
 the rest of the read

An exception raised for one frame (unknown type, subsystem or command,
truncated payload, failing handler) escaped to the transport and the
bytes following that frame in the same read were never parsed.
---
 zigpy_cc/uart.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index fbb3711..ea0dd38 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -145,11 +145,14 @@ class Gateway(asyncio.Protocol):
 
         found = False
         for b in data:
-            frame = self._parser.write(b)
-            if frame is not None:
-                found = True
-                LOGGER.debug("Frame received: %s", frame)
-                self._api.data_received(frame)
+            try:
+                frame = self._parser.write(b)
+                if frame is not None:
+                    found = True
+                    LOGGER.debug("Frame received: %s", frame)
+                    self._api.data_received(frame)
+            except Exception as exc:
+                LOGGER.error("Error while processing received frame: %r", exc)
 
         if not found:
             LOGGER.info("Bytes received: %s", data)
-- 
2.43.0


From c25bb1f54474e59efb3f14515d49138a0cdee25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 03/17] fix: attribute replies to requests with transaction
 number 0

---
 zigpy_cc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index e0944e3..c4173a2 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -242,7 +242,7 @@ class API:
             if waiter.match(obj):
                 self._waiters.pop(waiter_id)
                 waiter.set_result(obj)
-                if waiter.sequence:
+                if waiter.sequence is not None:
                     obj.sequence = waiter.sequence
                     break
 
-- 
2.43.0


From 10ba22f99f0ef386be534857239638c7fb368a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:27 +0000
Subject: [PATCH 04/17] fix: report the status even if the wait for the reply
 has already ended

---
 zigpy_cc/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index c4173a2..3a9228d 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -144,8 +144,9 @@ class API:
                 and "status" in result.payload
                 and result.payload["status"] not in expected_status
             ):
-                if waiter_id is not None:
-                    self._waiters.pop(waiter_id).set_result(result)
+                reply_waiter = self._waiters.pop(waiter_id, None)
+                if reply_waiter is not None:
+                    reply_waiter.set_result(result)
 
                 raise CommandError(
                     result.payload["status"],
-- 
2.43.0


From 883e4b15b32e8ec851458e2c91e8eb3861c06da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:52 +0000
Subject: [PATCH 05/17] fix: send network and IEEE address requests with their
 own fields only

---
 zigpy_cc/api.py        | 2 +-
 zigpy_cc/zpi_object.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 3a9228d..e669e90 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -183,7 +183,7 @@ class API:
         if obj.command_type == CommandType.SREQ and obj.command.endswith("Req"):
             rsp = obj.command.replace("Req", "Rsp")
             for cmd in Definition[obj.subsystem]:
-                if rsp == cmd["name"]:
+                if rsp == cmd["name"] and "dstaddr" in obj.payload:
                     payload = {"srcaddr": obj.payload["dstaddr"]}
                     return self.wait_for(
                         CommandType.AREQ, Subsystem.ZDO, rsp, payload, sequence=sequence
diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index d69c6a6..87c7878 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -155,9 +155,11 @@ class ZpiObject:
         else:
             # TODO
             # assert sequence == data[0]
-            payload = cls.read_parameters(
-                nwk.to_bytes(2, "little") + data[1:], parameters
-            )
+            body = data[1:]
+            if name not in ("nwkAddrReq", "ieeeAddrReq"):
+                # all other requests start with the address of the target
+                body = nwk.to_bytes(2, "little") + body
+            payload = cls.read_parameters(body, parameters)
 
         return cls(
             cmd["type"], subsystem, name, cmd["ID"], payload, parameters, sequence
-- 
2.43.0


From 3841ceb1069cec8085614d6c8820f5466c1e2d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 06/17] fix: bind and unbind requests with a group as target
 can be sent

---
 zigpy_cc/zpi_object.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index 87c7878..1089595 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -159,6 +159,10 @@ class ZpiObject:
             if name not in ("nwkAddrReq", "ieeeAddrReq"):
                 # all other requests start with the address of the target
                 body = nwk.to_bytes(2, "little") + body
+            if name in ("bindReq", "unbindReq") and len(data) == 15:
+                # group target: the 16 bit address occupies the first bytes of the
+                # address field and there is no endpoint
+                body += bytes(7)
             payload = cls.read_parameters(body, parameters)
 
         return cls(
-- 
2.43.0


From 49b8adf8d6cd2f1dd6eb8eca3fa4ee16c143b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:08 +0000
Subject: [PATCH 07/17] fix: only profile 0 messages are device management
 requests

---
 zigpy_cc/zpi_object.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index 1089595..340a47b 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -1,4 +1,3 @@
-from zigpy.profiles import zha
 from zigpy.types import BroadcastAddress
 
 from zigpy_cc import uart
@@ -6,6 +5,8 @@ from zigpy_cc.buffalo import Buffalo, BuffaloOptions
 from zigpy_cc.definition import Definition
 from zigpy_cc.types import CommandType, ParameterType, Subsystem, AddressMode
 
+ZDO_PROFILE_ID = 0x0000
+
 BufferAndListTypes = [
     ParameterType.BUFFER,
     ParameterType.BUFFER8,
@@ -103,15 +104,15 @@ class ZpiObject:
         radius=30,
         addr_mode=None
     ):
-        if profile == zha.PROFILE_ID:
+        if profile == ZDO_PROFILE_ID:
+            subsystem = Subsystem.ZDO
+            cmd = next(c for c in Definition[subsystem] if c["ID"] == cluster)
+        else:
             subsystem = Subsystem.AF
             if addr_mode is None:
                 cmd = next(c for c in Definition[subsystem] if c["ID"] == 1)
             else:
                 cmd = next(c for c in Definition[subsystem] if c["ID"] == 2)
-        else:
-            subsystem = Subsystem.ZDO
-            cmd = next(c for c in Definition[subsystem] if c["ID"] == cluster)
         name = cmd["name"]
         parameters = (
             cmd["response"] if cmd["type"] == CommandType.SRSP else cmd["request"]
-- 
2.43.0


From 26664fbf212bc9dc12a8355de7a52956952e4d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 08/17] fix: deliver extended incoming messages

---
 zigpy_cc/zigbee/application.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index d001efe..4b39320 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -362,6 +362,12 @@ class ControllerApplication(zigpy.application.ControllerApplication):
             obj.command == "incomingMsg" or obj.command == "incomingMsgExt"
         ):
             # ZCL commands
+            if obj.command == "incomingMsgExt":
+                # the source is either an IEEE or, in the first bytes, a short address
+                if obj.payload["srcaddrmode"] == AddressMode.ADDR_64BIT:
+                    nwk, ieee = None, obj.payload["srcaddr"]
+                else:
+                    nwk = int.from_bytes(bytes(obj.payload["srcaddr"][:2]), "little")
             cluster_id = obj.payload["clusterid"]
             src_ep = obj.payload["srcendpoint"]
             dst_ep = obj.payload["dstendpoint"]
-- 
2.43.0


From 5ca49bd5d326f1efea64f15f63bf911e1d6e5653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 09/17] fix: a configured PAN id of 0 is used

---
 zigpy_cc/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/types.py b/zigpy_cc/types.py
index c3b56c8..1dc1940 100644
--- a/zigpy_cc/types.py
+++ b/zigpy_cc/types.py
@@ -109,7 +109,9 @@ class NetworkOptions(Repr):
         self.networkKey = config[zigpy.config.CONF_NWK_KEY] or (
             zigpy.config.cv_key([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])
         )
-        self.panID = config[zigpy.config.CONF_NWK_PAN_ID] or t.PanId(0x1A62)
+        self.panID = config[zigpy.config.CONF_NWK_PAN_ID]
+        if self.panID is None:
+            self.panID = t.PanId(0x1A62)
         self.extendedPanID = config[zigpy.config.CONF_NWK_EXTENDED_PAN_ID] or (
             t.ExtendedPanId([0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD])
         )
-- 
2.43.0


From 8728b7a708478fa65d2eeeac39b057680c4858e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 10/17] fix: losing the connection before an application is
 attached is no error

---
 zigpy_cc/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index e669e90..d9e5b8b 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -108,7 +108,8 @@ class API:
             self._uart = None
 
     def connection_lost(self):
-        self._app.connection_lost()
+        if self._app is not None:
+            self._app.connection_lost()
 
     async def request(
         self, subsystem, command, payload, waiter_id=None, expected_status=None
-- 
2.43.0


From 36304420867e34f3bb7c98925ecb349c27cfaa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 11/17] fix: close the port if connecting is cancelled or fails
 after it was opened

---
 zigpy_cc/uart.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index ea0dd38..e9e9fb7 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -196,7 +196,7 @@ async def connect(config: Dict[str, Any], api, loop=None) -> Gateway:
         xonxoff, rtscts = True, False
 
     LOGGER.debug("Connecting on port %s with boudrate %d", port, baudrate)
-    _, protocol = await serial_asyncio.create_serial_connection(
+    transport, protocol = await serial_asyncio.create_serial_connection(
         loop,
         lambda: protocol,
         url=port,
@@ -207,9 +207,13 @@ async def connect(config: Dict[str, Any], api, loop=None) -> Gateway:
         rtscts=rtscts,
     )
 
-    await connected_future
+    try:
+        await connected_future
 
-    protocol.write(b"\xef")
-    await asyncio.sleep(1)
+        protocol.write(b"\xef")
+        await asyncio.sleep(1)
+    except BaseException:
+        transport.close()
+        raise
 
     return protocol
-- 
2.43.0


From a7dd6b39995098102307beb24ab386bef6cf641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 12/17] fix: at most one reconnection runs, and none after a
 shutdown

---
 zigpy_cc/zigbee/application.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 4b39320..5540cc7 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -62,16 +62,22 @@ class ControllerApplication(zigpy.application.ControllerApplication):
     def __init__(self, config: Dict[str, Any]):
         super().__init__(config=zigpy.config.ZIGPY_SCHEMA(config))
         self._api = None
+        self._reconnect_task = None
 
         self.discovering = False
         self.version = {}
 
     async def shutdown(self):
         """Shutdown application."""
+        if self._reconnect_task is not None:
+            self._reconnect_task.cancel()
+            self._reconnect_task = None
         self._api.close()
 
     def connection_lost(self):
-        asyncio.create_task(self.reconnect())
+        if self._reconnect_task is not None:
+            self._reconnect_task.cancel()
+        self._reconnect_task = asyncio.create_task(self.reconnect())
 
     async def reconnect(self):
         while True:
-- 
2.43.0


From 8e11554e897ba42c4b50af5000d6c372feeafc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:01 +0000
Subject: [PATCH 13/17] fix: signed parameters can be sent

---
 zigpy_cc/buffalo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zigpy_cc/buffalo.py b/zigpy_cc/buffalo.py
index 23399ea..05701a0 100644
--- a/zigpy_cc/buffalo.py
+++ b/zigpy_cc/buffalo.py
@@ -27,6 +27,8 @@ class Buffalo:
             self.write(value, 2)
         elif type == ParameterType.UINT32:
             self.write(value, 4)
+        elif type == ParameterType.INT8:
+            self.write(value, signed=True)
         elif type == ParameterType.IEEEADDR:
             if isinstance(value, Iterable):
                 for i in value:
-- 
2.43.0


From 508d1e4115d4f4064a9a20af6a8aa7cf008621c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 14/17] fix: shutdown works if the port could not be opened

---
 zigpy_cc/zigbee/application.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 5540cc7..6a1ea29 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -72,7 +72,8 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         if self._reconnect_task is not None:
             self._reconnect_task.cancel()
             self._reconnect_task = None
-        self._api.close()
+        if self._api is not None:
+            self._api.close()
 
     def connection_lost(self):
         if self._reconnect_task is not None:
-- 
2.43.0


From 7dfcb289d69a3ef7a77dafe833f1a29b2a20012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 15/17] fix: a Z-Stack 1.2 adapter with another PAN id is
 initialised

The mismatch of the PAN id or extended PAN id was swallowed for this adapter
type, so the configured network was silently not used.
---
 zigpy_cc/zigbee/start_znp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zigpy_cc/zigbee/start_znp.py b/zigpy_cc/zigbee/start_znp.py
index d0d7114..a45331c 100644
--- a/zigpy_cc/zigbee/start_znp.py
+++ b/zigpy_cc/zigbee/start_znp.py
@@ -123,6 +123,8 @@ async def needsToBeInitialised(znp: API, version, options):
                     LOGGER.debug("Skip enforcing panID because a random panID is used")
                 else:
                     raise e
+            else:
+                raise e
 
         return False
     except AssertionError as e:
-- 
2.43.0


From c47dd7097e3b666b6831a33bb2b1b4ff817dab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 16/17] fix: an interrupted initialisation is repeated by the
 next start

The marker of a previous configuration was kept until the end, so after an
interruption between writing the network items and forming the network the
next start took the adapter for completely configured.
---
 zigpy_cc/zigbee/start_znp.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/zigpy_cc/zigbee/start_znp.py b/zigpy_cc/zigbee/start_znp.py
index a45331c..dd82e07 100644
--- a/zigpy_cc/zigbee/start_znp.py
+++ b/zigpy_cc/zigbee/start_znp.py
@@ -169,6 +169,22 @@ async def registerEndpoints(znp: API):
 
 
 async def initialise(znp: API, version, options: NetworkOptions):
+    # until everything is written the adapter is not configured (any more): if the
+    # initialisation is interrupted it has to be repeated by the next start
+    # expect status code 9 (= item created and initialized)
+    await znp.request(
+        Subsystem.SYS,
+        "osalNvItemInit",
+        Items.znpHasConfiguredInit(version),
+        None,
+        [0, 9],
+    )
+    await znp.request(
+        Subsystem.SYS,
+        "osalNvWrite",
+        {**Items.znpHasConfigured(version), "value": b"\x00"},
+    )
+
     await znp.request(Subsystem.SYS, "resetReq", {"type": Constants.SYS.resetType.SOFT})
     await znp.request(Subsystem.SYS, "osalNvWrite", Items.startupOption(0x02))
     await znp.request(Subsystem.SYS, "resetReq", {"type": Constants.SYS.resetType.SOFT})
@@ -225,14 +241,6 @@ async def initialise(znp: API, version, options: NetworkOptions):
         )
         await znp.request(Subsystem.SYS, "osalNvWrite", Items.tcLinkKey())
 
-    # expect status code 9 (= item created and initialized)
-    await znp.request(
-        Subsystem.SYS,
-        "osalNvItemInit",
-        Items.znpHasConfiguredInit(version),
-        None,
-        [0, 9],
-    )
     await znp.request(Subsystem.SYS, "osalNvWrite", Items.znpHasConfigured(version))
 
 
-- 
2.43.0


From dc35a0ba5c0d08895dfbeea97d897232e0514ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 17/17] fix: endpoints are registered by the answer of the
 coordinator only

The active endpoints reported by another device, answering an earlier request
while the adapter starts, were taken for those of the coordinator.
---
 zigpy_cc/zigbee/start_znp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/start_znp.py b/zigpy_cc/zigbee/start_znp.py
index dd82e07..dd8c34e 100644
--- a/zigpy_cc/zigbee/start_znp.py
+++ b/zigpy_cc/zigbee/start_znp.py
@@ -152,7 +152,9 @@ async def boot(znp: API):
 async def registerEndpoints(znp: API):
     LOGGER.debug("Register endpoints...")
 
-    active_ep_response = znp.wait_for(CommandType.AREQ, Subsystem.ZDO, "activeEpRsp")
+    active_ep_response = znp.wait_for(
+        CommandType.AREQ, Subsystem.ZDO, "activeEpRsp", {"srcaddr": 0}
+    )
     asyncio.create_task(
         znp.request(
             Subsystem.ZDO, "activeEpReq", {"dstaddr": 0, "nwkaddrofinterest": 0}
-- 
2.43.0

