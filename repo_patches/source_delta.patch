From 48566b8f93d9cbfed8fc94f24ac0744dee7b2b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:02 +0000
Subject: [PATCH 01/66] fix: keep message framing in sync when a consumer stops
 iterating

---
 runtimepy/message/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/message/__init__.py b/runtimepy/message/__init__.py
index 1047a00..b992386 100644
--- a/runtimepy/message/__init__.py
+++ b/runtimepy/message/__init__.py
@@ -79,7 +79,8 @@ class MessageProcessor:
             else:
                 message = self.buffer.pop(self.message_length_in.value)
                 if message is not None:
-                    yield message
+                    # Update state first, the consumer may stop iterating.
                     self.reading_header = True
+                    yield message
                 else:
                     can_continue = False
-- 
2.43.0


From c910623962d675d203348725b9413f52ca4f4044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:08 +0000
Subject: [PATCH 02/66] fix: refuse messages that do not fit their size prefix

---
 runtimepy/message/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtimepy/message/__init__.py b/runtimepy/message/__init__.py
index b992386..3c010c3 100644
--- a/runtimepy/message/__init__.py
+++ b/runtimepy/message/__init__.py
@@ -42,7 +42,13 @@ class MessageProcessor:
         if isinstance(data, str):
             data = data.encode()
 
-        self.message_length_out.value = len(data)
+        # A truncated size would corrupt the message stream.
+        size = len(data)
+        bounds = self.message_length_kind.kind.int_bounds
+        if bounds is not None and not bounds.validate(size):
+            raise ValueError(f"Message too large ({size} > {bounds.max})!")
+
+        self.message_length_out.value = size
         self.message_length_out.to_stream(stream, byte_order=self.byte_order)
         stream.write(data)
 
-- 
2.43.0


From 0099696a62c36ef4fa086e3edddb4b26b428749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:42 +0000
Subject: [PATCH 03/66] fix: include chained elements in captured frames

---
 runtimepy/primitives/serializable/framer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtimepy/primitives/serializable/framer.py b/runtimepy/primitives/serializable/framer.py
index cf9b995..d3c2150 100644
--- a/runtimepy/primitives/serializable/framer.py
+++ b/runtimepy/primitives/serializable/framer.py
@@ -3,6 +3,7 @@ A module implementing a message framing interface for serializables.
 """
 
 # built-in
+from io import BytesIO as _BytesIO
 from typing import Optional
 
 # third-party
@@ -63,7 +64,10 @@ class SerializableFramer:
         """
 
         if sample:
-            self.raw += bytes(self.instance)
+            # Include any chained elements.
+            with _BytesIO() as stream:
+                self.instance.to_stream(stream)
+                self.raw += stream.getvalue()
             self.elements += 1
 
         result = None
-- 
2.43.0


From 56f780ce5e29be9f1f56777c17b6e157dea61cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:04 +0000
Subject: [PATCH 04/66] fix: don't pad arrays packed in native byte order

---
 runtimepy/primitives/byte_order.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/primitives/byte_order.py b/runtimepy/primitives/byte_order.py
index b183db7..a819393 100644
--- a/runtimepy/primitives/byte_order.py
+++ b/runtimepy/primitives/byte_order.py
@@ -18,8 +18,9 @@ class ByteOrder(_RuntimeIntEnum):
     def fmt(self) -> str:
         """Get the struct formatter for this byte order."""
 
+        # Native order, without native alignment (padding).
         if self is ByteOrder.NATIVE:
-            return "@"
+            return "="
         if self is ByteOrder.LITTLE_ENDIAN:
             return "<"
         if self is ByteOrder.BIG_ENDIAN:
-- 
2.43.0


From a8abebc0caea5a27baa70a5edfa4886223af714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 05/66] fix: refuse bit fields that extend past their primitive

---
 runtimepy/primitives/field/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtimepy/primitives/field/__init__.py b/runtimepy/primitives/field/__init__.py
index 4fe1265..e7ec0a0 100644
--- a/runtimepy/primitives/field/__init__.py
+++ b/runtimepy/primitives/field/__init__.py
@@ -113,6 +113,9 @@ class BitField(BitFieldBase, _RegexMixin, _EnumMixin):
         assert (
             width <= raw.kind.bits
         ), f"Field can't be {width}-bits wide for {raw.kind}!"
+        assert (
+            index + width <= raw.kind.bits
+        ), f"Field at {index} can't be {width}-bits wide for {raw.kind}!"
 
         assert self.validate_name(name), f"Invalid name '{name}'!"
         self.name = name
-- 
2.43.0


From 4a1cc97444d09926bd7fa48729258c3cb132cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 06/66] fix: refuse a bit flag whose name is already used

---
 runtimepy/primitives/field/fields.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/runtimepy/primitives/field/fields.py b/runtimepy/primitives/field/fields.py
index a181ef7..2bff52f 100644
--- a/runtimepy/primitives/field/fields.py
+++ b/runtimepy/primitives/field/fields.py
@@ -152,8 +152,7 @@ class BitFields(_RuntimepyDictCodec):
             name, self.raw, index, enum=enum, description=description, **kwargs
         )
 
-        self.fields[name] = result
-        self.by_index[index] = result
+        self.claim_field(result)
         return result
 
     def _claim_bits(self, width: int, index: int = None) -> int:
-- 
2.43.0


From 22cff0281757096e054f0e19962239399477c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 07/66] fix: keep bit-field descriptions when exporting

---
 runtimepy/primitives/field/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtimepy/primitives/field/__init__.py b/runtimepy/primitives/field/__init__.py
index e7ec0a0..815b83c 100644
--- a/runtimepy/primitives/field/__init__.py
+++ b/runtimepy/primitives/field/__init__.py
@@ -134,6 +134,8 @@ class BitField(BitFieldBase, _RegexMixin, _EnumMixin):
             result["enum"] = self.enum
         if self.commandable:
             result["commandable"] = True
+        if self.description is not None:
+            result["description"] = self.description
         return result
 
 
-- 
2.43.0


From c1c94c0b341129afcc248d92bbae59fcd07339b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 08/66] fix: don't change a two-way mapping when refusing a
 conflicting entry

---
 runtimepy/mapping.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/runtimepy/mapping.py b/runtimepy/mapping.py
index 34a20bb..0f62b9d 100644
--- a/runtimepy/mapping.py
+++ b/runtimepy/mapping.py
@@ -64,22 +64,19 @@ class TwoWayNameMapping(_RegexMixin, LoggerMixin, _Generic[T]):
 
         assert self.validate_name(name), f"Invalid name '{name}'!"
 
-        # Add to the key->name mapping.
-        if key not in self._mapping:
-            self._mapping[key] = name
-        else:
-            # Ensure the mappings are consistent.
+        # Ensure the mappings are consistent (before changing either).
+        if key in self._mapping:
             curr_name = self._mapping[key]
             assert curr_name == name, f"{curr_name} != {name} ({key})"
+        if name in self._reverse:
+            curr_key = self._reverse[name]
+            assert curr_key == key, f"{curr_key} != {key} ({name})"
 
-        # Add to the name->key mapping.
+        # Add to both mappings.
         if name not in self._reverse:
+            self._mapping[key] = name
             self._reverse[name] = key
             self.registered_order.append(name)
-        else:
-            # Ensure the mappings are consistent.
-            curr_key = self._reverse[name]
-            assert curr_key == key, f"{curr_key} != {key} ({name})"
 
     def load_key_to_name(self, mapping: KeyToName[T]) -> None:
         """Load a key-to-name mapping."""
-- 
2.43.0


From d6f02c35ace4d4959e293d8cb7ed6fab130b3ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 09/66] fix: keep the registration order of boolean names

---
 runtimepy/registry/bool.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/runtimepy/registry/bool.py b/runtimepy/registry/bool.py
index ec76935..306e31e 100644
--- a/runtimepy/registry/bool.py
+++ b/runtimepy/registry/bool.py
@@ -21,6 +21,5 @@ class BooleanRegistry(_TwoWayNameMapping[bool]):
         ):
             return False
 
-        self._mapping[value] = name
-        self._reverse[name] = value
+        self._set(value, name)
         return True
-- 
2.43.0


From 9c0a6788c5fcb1c8238f0f8ac7a7bd827881d727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:47 +0000
Subject: [PATCH 10/66] fix: comparing registry items raised unless the other
 was a dictionary

---
 runtimepy/registry/item.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtimepy/registry/item.py b/runtimepy/registry/item.py
index 3c07291..df8f9d5 100644
--- a/runtimepy/registry/item.py
+++ b/runtimepy/registry/item.py
@@ -21,7 +21,9 @@ class RegistryItem(_RuntimepyDictCodec):
 
     def __eq__(self, other) -> bool:
         """Use the integer identifier to determine equivalence."""
-        return bool(self.id == getattr(other, "id", other["id"]))
+        return bool(
+            self.id == (other.id if hasattr(other, "id") else other["id"])
+        )
 
     def init(self, data: _JsonObject) -> None:
         """Perform implementation-specific initialization."""
-- 
2.43.0


From 7306567856e5ccdb90af62a9f3542b32f3fd9cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:01 +0000
Subject: [PATCH 11/66] fix: exported channels and fields with upper-case names
 could not be loaded

---
 runtimepy/data/schemas/BitFields.yaml       | 2 +-
 runtimepy/data/schemas/ChannelRegistry.yaml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/data/schemas/BitFields.yaml b/runtimepy/data/schemas/BitFields.yaml
index d55ed62..e048400 100644
--- a/runtimepy/data/schemas/BitFields.yaml
+++ b/runtimepy/data/schemas/BitFields.yaml
@@ -25,7 +25,7 @@ properties:
       properties:
         name:
           type: string
-          pattern: "^[a-z0-9-_.]+$"
+          pattern: "^[a-zA-Z0-9_.-]+$"
 
         commandable:
           type: boolean
diff --git a/runtimepy/data/schemas/ChannelRegistry.yaml b/runtimepy/data/schemas/ChannelRegistry.yaml
index da0c54c..cfdeee1 100644
--- a/runtimepy/data/schemas/ChannelRegistry.yaml
+++ b/runtimepy/data/schemas/ChannelRegistry.yaml
@@ -3,5 +3,5 @@ type: object
 additionalProperties: false
 
 patternProperties:
-  "^[a-z0-9-_.]+$":
+  "^[a-zA-Z0-9_.-]+$":
     $ref: package://runtimepy/schemas/Channel.yaml
-- 
2.43.0


From b7ae3a20ce12c798ad1f442e5cb02fe7d25dfff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:01 +0000
Subject: [PATCH 12/66] fix: finalizing an environment again added its bit
 fields again

---
 runtimepy/channel/environment/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 1366e64..422c4ae 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -438,7 +438,8 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
     def finalize(self, strict: bool = True) -> None:
         """Finalize this instance."""
 
-        for fields in self.to_add:
-            self.fields.add(fields)
+        # Only add new fields once (this method may be called repeatedly).
+        while self.to_add:
+            self.fields.add(self.to_add.pop(0))
 
         super().finalize(strict=strict)
-- 
2.43.0


From b4948454351009c5cafdae7da1431a8911350cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:43 +0000
Subject: [PATCH 13/66] fix: exporting channels lost their scaling

---
 runtimepy/channel/__init__.py       | 7 +++++++
 runtimepy/data/schemas/Channel.yaml | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/runtimepy/channel/__init__.py b/runtimepy/channel/__init__.py
index 9852536..27fb3cd 100644
--- a/runtimepy/channel/__init__.py
+++ b/runtimepy/channel/__init__.py
@@ -14,6 +14,7 @@ from vcorelib.io.types import JsonObject as _JsonObject
 # internal
 from runtimepy.channel.event import PrimitiveEvent
 from runtimepy.mixins.enum import EnumMixin as _EnumMixin
+from runtimepy.primitives import ChannelScaling as _ChannelScaling
 from runtimepy.primitives import T as _T
 from runtimepy.primitives import normalize as _normalize
 from runtimepy.primitives.bool import Bool as _Bool
@@ -89,6 +90,9 @@ class Channel(_RegistryItem, _EnumMixin, _Generic[_T]):
 
         # This is the underlying storage entity for this channel.
         self.raw: _T = _cast(_T, _normalize(_cast(str, data["type"]))())
+        self.raw.scaling = _cast(
+            _Optional[_ChannelScaling], data.get("scaling")
+        )
 
         _ctl: _Optional[Controls] = data.get("controls")  # type: ignore
         self.controls: _Optional[Controls] = _ctl
@@ -123,6 +127,9 @@ class Channel(_RegistryItem, _EnumMixin, _Generic[_T]):
         if self._enum is not None:
             result["enum"] = self._enum
 
+        if self.raw.scaling:
+            result["scaling"] = self.raw.scaling
+
         if self.controls:
             result["controls"] = self.controls
 
diff --git a/runtimepy/data/schemas/Channel.yaml b/runtimepy/data/schemas/Channel.yaml
index 2f264d1..9e059d3 100644
--- a/runtimepy/data/schemas/Channel.yaml
+++ b/runtimepy/data/schemas/Channel.yaml
@@ -28,6 +28,11 @@ properties:
       - uint32
       - uint64
 
+  scaling:
+    type: array
+    items:
+      type: number
+
   enum:
     oneOf:
       - type: integer
-- 
2.43.0


From 8570df5f0768e2170619b710c67da4c88321a0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:27 +0000
Subject: [PATCH 14/66] fix: channel commands raised for values that could not
 be stored or named

---
 runtimepy/channel/environment/command/processor.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/runtimepy/channel/environment/command/processor.py b/runtimepy/channel/environment/command/processor.py
index 52a5a6b..5789415 100644
--- a/runtimepy/channel/environment/command/processor.py
+++ b/runtimepy/channel/environment/command/processor.py
@@ -96,7 +96,12 @@ class ChannelCommandProcessor(ChannelEnvironmentMixin):
 
         try:
             self.env.set(args.channel, args.extra[0])
-        except (ValueError, KeyError) as exc:
+        except (
+            ValueError,
+            KeyError,
+            ArithmeticError,
+            AssertionError,
+        ) as exc:
             self.logger.exception(
                 "Exception setting '%s':", args.channel, exc_info=exc
             )
@@ -141,7 +146,12 @@ class ChannelCommandProcessor(ChannelEnvironmentMixin):
 
         if args.command == ChannelCommand.GET:
             if self.env.exists(args.channel):
-                return CommandResult(True, str(self.env.value(args.channel)))
+                try:
+                    value = self.env.value(args.channel)
+                except KeyError as exc:
+                    # The value may not be a member of the enumeration.
+                    return CommandResult(False, str(exc))
+                return CommandResult(True, str(value))
 
         channel = self.env.field_or_channel(args.channel)
         if channel is None:
-- 
2.43.0


From 2f6d2b3cd8b6a134fa0b592f6d82dd57da3c43af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:08 +0000
Subject: [PATCH 15/66] fix: events split across parsed streams stalled parsing

---
 runtimepy/channel/environment/telemetry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index 1c040a1..6de2c30 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -137,6 +137,11 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
         ident = -1
         name = ""
 
+        # The header of a pending event may have been read already.
+        if channels.header_ready:
+            ident = cast(int, channels.event_header["identifier"])
+            name = channels.names.name(ident)  # type: ignore
+
         keep_going = True
         while keep_going:
             keep_going = False
@@ -168,8 +173,8 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
                     event = self._parse_channel_event(name)
 
                 if event is not None:
-                    yield event
-
                     # Update state.
                     channels.header_ready = False
                     keep_going = True
+
+                    yield event
-- 
2.43.0


From b25c5f2608ecb6d60e078683c82bd5c99f67b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:08 +0000
Subject: [PATCH 16/66] fix: ingested events scaled raw channel values

---
 runtimepy/channel/environment/telemetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index 6de2c30..b2760a8 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -83,7 +83,7 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
         if self.fields.has_field(point.name):
             self.fields[point.name].raw.value = point.value  # type: ignore
         else:
-            self.set(point.name, point.value)
+            self.set(point.name, point.value, scaled=False)
 
     def _parse_channel_event(self, name: str) -> Optional[ParsedEvent]:
         """Attempt to parse a channel event from the fifo."""
-- 
2.43.0


From 1aaad100f8b22b92049b57cebe49078ad452d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:08 +0000
Subject: [PATCH 17/66] fix: exceptions left event streams registered

---
 runtimepy/channel/event/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/runtimepy/channel/event/__init__.py b/runtimepy/channel/event/__init__.py
index ec9a3b0..6a70a5d 100644
--- a/runtimepy/channel/event/__init__.py
+++ b/runtimepy/channel/event/__init__.py
@@ -63,9 +63,11 @@ class PrimitiveEvent:
         ident = raw.register_callback(callback)
 
         self.streaming = True
-        yield
-        assert raw.remove_callback(ident)
-        self.streaming = False
+        try:
+            yield
+        finally:
+            assert raw.remove_callback(ident)
+            self.streaming = False
 
     def _poll(
         self,
-- 
2.43.0


From 6f13d5ec9f8bfb5180b803e9adfe52bd5c709513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:36 +0000
Subject: [PATCH 18/66] fix: HTTP header lines with non-ASCII text could not be
 parsed

---
 runtimepy/net/http/state.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/runtimepy/net/http/state.py b/runtimepy/net/http/state.py
index 0811587..686ec93 100644
--- a/runtimepy/net/http/state.py
+++ b/runtimepy/net/http/state.py
@@ -21,12 +21,12 @@ class HeaderProcessingState:
     """A container for header-related processing state."""
 
     lines: list[str]
-    line: str
+    line: bytes
 
     @staticmethod
     def create() -> "HeaderProcessingState":
         """Create a default instance."""
-        return HeaderProcessingState([], "")
+        return HeaderProcessingState([], b"")
 
     def service(self, buffer: ByteFifo, kind: type[T]) -> Optional[T]:
         """
@@ -37,15 +37,15 @@ class HeaderProcessingState:
         result = None
 
         while result is None and buffer.size:
-            curr_raw = buffer.pop(1)
-            if curr_raw is not None:
-                curr = curr_raw.decode(encoding=DEFAULT_ENCODING)
-
+            curr = buffer.pop(1)
+            if curr is not None:
                 # Any '\r\n' sequence signifies the end of a header line.
-                if curr == "\n":
+                if curr == b"\n":
                     if self.line:
-                        self.lines.append(self.line)
-                        self.line = ""
+                        self.lines.append(
+                            self.line.decode(encoding=DEFAULT_ENCODING)
+                        )
+                        self.line = b""
 
                     # Two sequences in a row signifies the end of the header
                     # section.
@@ -54,7 +54,7 @@ class HeaderProcessingState:
                         result.from_lines(self.lines)
                         self.lines = []
 
-                elif curr != "\r":
+                elif curr != b"\r":
                     self.line += curr
 
         return result
-- 
2.43.0


From 27027de6bde36be283cafdef8cae3994ac8da856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:36 +0000
Subject: [PATCH 19/66] fix: HTTP processing repeated a header when its
 consumer stopped

---
 runtimepy/net/http/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/http/__init__.py b/runtimepy/net/http/__init__.py
index 7fe79a4..2ecc060 100644
--- a/runtimepy/net/http/__init__.py
+++ b/runtimepy/net/http/__init__.py
@@ -54,5 +54,6 @@ class HttpMessageProcessor:
                 if can_read_payload:
                     if payload_len > 0:
                         payload = self.buffer.pop(payload_len)
-                    yield cast(T, self.current_header), payload
+                    header = self.current_header
                     self.current_header = None
+                    yield cast(T, header), payload
-- 
2.43.0


From ccfb13b2e711eac74fd1955e027b0ae4c500c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:20 +0000
Subject: [PATCH 20/66] fix: an empty file could not be written with TFTP

---
 runtimepy/net/udp/tftp/endpoint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index ef7c936..c639327 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -161,8 +161,7 @@ class TftpEndpoint(LoggerMixin):
 
         keep_going = True
         idx = 1
-        curr_size = 0
-        written = 0
+        curr_size = self.max_block_size
         while keep_going:
             # Set up event trigger for expected data payload.
             event = asyncio.Event()
@@ -190,7 +189,6 @@ class TftpEndpoint(LoggerMixin):
                 assert curr_size <= self.max_block_size, curr_size
 
                 stream.write(data)
-                written += curr_size
 
                 # We only expect future iterations if data payloads are
                 # saturated.
@@ -204,7 +202,7 @@ class TftpEndpoint(LoggerMixin):
                 idx += 1
 
         # Send the final acknowledgement for a bit ("dally" per rfc).
-        success = written > 0 and curr_size < self.max_block_size
+        success = curr_size < self.max_block_size
         if success:
             await repeat_until(
                 self._ack_sender(idx),
-- 
2.43.0


From a7d719bb52ac9587897cafb52d31c15a9ad717ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:20 +0000
Subject: [PATCH 21/66] fix: the last block of a TFTP read was never
 acknowledged

---
 runtimepy/net/udp/tftp/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/udp/tftp/__init__.py b/runtimepy/net/udp/tftp/__init__.py
index dbf4cba..8e541a1 100644
--- a/runtimepy/net/udp/tftp/__init__.py
+++ b/runtimepy/net/udp/tftp/__init__.py
@@ -89,11 +89,12 @@ class TftpConnection(BaseTftpConnection):
                 # Compute if this is the end of the stream.
                 nonlocal end_of_data
                 end_of_data = len(data) < endpoint.max_block_size
-                if not end_of_data:
-                    idx += 1
-                else:
+                if end_of_data:
                     fsync(path_fd.fileno())
 
+                # The block that was just written is acknowledged next.
+                idx += 1
+
             write_block()
 
             success = True
-- 
2.43.0


From 6255a64c8132c2d355f22ebb5c9c99e4e36e1726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:20 +0000
Subject: [PATCH 22/66] fix: a TFTP request that was re-transmitted was
 serviced again

---
 runtimepy/net/udp/tftp/endpoint.py | 32 +++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index c639327..337ac04 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -7,7 +7,7 @@ import asyncio
 from contextlib import AsyncExitStack, suppress
 import logging
 from pathlib import Path
-from typing import BinaryIO, Callable, Optional, Union
+from typing import BinaryIO, Callable, Coroutine, Optional, Union
 
 # third-party
 from vcorelib.asyncio.poll import repeat_until
@@ -67,6 +67,9 @@ class TftpEndpoint(LoggerMixin):
         self.awaiting_blocks: dict[int, asyncio.Event] = {}
         self.blocks: dict[int, bytes] = {}
 
+        # Requests that are being serviced.
+        self.servicing: set[tuple[str, Path]] = set()
+
         # Can be upgraded via RFC 2347.
         self.max_block_size = TFTP_MAX_BLOCK
 
@@ -244,11 +247,28 @@ class TftpEndpoint(LoggerMixin):
 
         path = self.get_path(filename)
 
+        # A request can be re-transmitted while it's already being serviced.
+        if ("write", path) in self.servicing:
+            return None
+
         # Ensure we can service this request.
         if not self._check_permission(path, "wb"):
             return None
 
-        return asyncio.create_task(self._process_write_request(path, mode))
+        return self._service(
+            "write", path, self._process_write_request(path, mode)
+        )
+
+    def _service(
+        self, kind: str, path: Path, task: Coroutine[None, None, None]
+    ) -> asyncio.Task[None]:
+        """Start servicing a request."""
+
+        key = (kind, path)
+        self.servicing.add(key)
+        result = asyncio.create_task(task)
+        result.add_done_callback(lambda _: self.servicing.discard(key))
+        return result
 
     async def serve_file(self, path: Path) -> bool:
         """Serve file chunks via this endpoint."""
@@ -315,13 +335,19 @@ class TftpEndpoint(LoggerMixin):
 
         path = self.get_path(filename)
 
+        # A request can be re-transmitted while it's already being serviced.
+        if ("read", path) in self.servicing:
+            return None
+
         # Ensure we can service this request.
         if not self._check_exists(path) or not self._check_permission(
             path, "rb"
         ):
             return None
 
-        return asyncio.create_task(self._process_read_request(path, mode))
+        return self._service(
+            "read", path, self._process_read_request(path, mode)
+        )
 
     def _check_permission(self, path: Path, mode: str) -> bool:
         """
-- 
2.43.0


From 7c83707b0c845064cec1da771d03aa1f29a84ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 23/66] fix: a received TFTP error message kept its terminator

---
 runtimepy/net/udp/tftp/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index 386f73a..10d8213 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -344,7 +344,7 @@ class BaseTftpConnection(UdpConnection):
 
         # Update underlying primitive.
         error_code = TftpErrorCode(self.error_code.from_stream(stream))
-        message = stream.read().decode()
+        message = stream.read().partition(b"\x00")[0].decode()
 
         # Call extra error handlers.
         for handler in self.error_handlers:
-- 
2.43.0


From afe3b72dc808767d9df7e871b5a4c4b7e3fcce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:20 +0000
Subject: [PATCH 24/66] fix: a malformed TFTP datagram or an unusable path
 ended the service

---
 runtimepy/net/udp/tftp/base.py     | 28 +++++++++++++++++++---------
 runtimepy/net/udp/tftp/endpoint.py |  7 +++++--
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index 10d8213..a95d1a6 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -8,6 +8,7 @@ from contextlib import AsyncExitStack
 from io import BytesIO
 import logging
 from pathlib import Path
+from struct import error as StructError
 from typing import BinaryIO, Callable
 
 # third-party
@@ -357,14 +358,23 @@ class BaseTftpConnection(UdpConnection):
     ) -> bool:
         """Process a datagram."""
 
-        with BytesIO(data) as stream:
-            self.opcode.from_stream(stream)
-            code: int = self.opcode.value
-            if code in self.handlers:
-                await self.handlers[code](stream, addr)
-            else:
-                msg = f"Unknown opcode {code}"
-                self.send_error(TftpErrorCode.ILLEGAL_OPERATION, msg)
-                self.logger.error("%s from %s:%d.", msg, addr[0], addr[1])
+        try:
+            with BytesIO(data) as stream:
+                self.opcode.from_stream(stream)
+                code: int = self.opcode.value
+                if code in self.handlers:
+                    await self.handlers[code](stream, addr)
+                else:
+                    self._illegal_operation(f"Unknown opcode {code}", addr)
+
+        # A message that can't be parsed must not end this connection.
+        except (IndexError, ValueError, StructError) as exc:
+            self._illegal_operation(f"Malformed message ({exc})", addr)
 
         return True
+
+    def _illegal_operation(self, msg: str, addr: tuple[str, int]) -> None:
+        """Handle a message that can't be serviced."""
+
+        self.send_error(TftpErrorCode.ILLEGAL_OPERATION, msg, addr=addr)
+        self.logger.error("%s from %s:%d.", msg, addr[0], addr[1])
diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index 337ac04..a7b9328 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -361,7 +361,7 @@ class TftpEndpoint(LoggerMixin):
             with path.open(mode):
                 pass
             result = True
-        except PermissionError:
+        except OSError:
             self.error_sender(
                 TftpErrorCode.ACCESS_VIOLATION,
                 f"Can't open={mode} '{path}'",
@@ -373,7 +373,10 @@ class TftpEndpoint(LoggerMixin):
     def _check_exists(self, path: Path) -> bool:
         """Check if a file exists, send an error if not."""
 
-        result = path.is_file()
+        result = False
+
+        with suppress(OSError):
+            result = path.is_file()
 
         if not result:
             self.error_sender(
-- 
2.43.0


From ff131a514dee8032ef40a7322d3dc12cdabe9ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:20 +0000
Subject: [PATCH 25/66] fix: TFTP requests could reach files outside of the
 root directory

---
 runtimepy/net/udp/tftp/endpoint.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index a7b9328..113b43e 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -6,6 +6,7 @@ A module implementing an interface for individual tftp endpoints.
 import asyncio
 from contextlib import AsyncExitStack, suppress
 import logging
+from os.path import abspath
 from pathlib import Path
 from typing import BinaryIO, Callable, Coroutine, Optional, Union
 
@@ -252,7 +253,9 @@ class TftpEndpoint(LoggerMixin):
             return None
 
         # Ensure we can service this request.
-        if not self._check_permission(path, "wb"):
+        if not self._check_root(path) or not self._check_permission(
+            path, "wb"
+        ):
             return None
 
         return self._service(
@@ -326,7 +329,7 @@ class TftpEndpoint(LoggerMixin):
 
     def get_path(self, filename: str) -> Path:
         """Get a path from a filename."""
-        return self._path.joinpath(filename)
+        return Path(abspath(self._path.joinpath(filename)))
 
     def handle_read_request(
         self, filename: str, mode: str
@@ -340,8 +343,10 @@ class TftpEndpoint(LoggerMixin):
             return None
 
         # Ensure we can service this request.
-        if not self._check_exists(path) or not self._check_permission(
-            path, "rb"
+        if (
+            not self._check_root(path)
+            or not self._check_exists(path)
+            or not self._check_permission(path, "rb")
         ):
             return None
 
@@ -349,6 +354,22 @@ class TftpEndpoint(LoggerMixin):
             "read", path, self._process_read_request(path, mode)
         )
 
+    def _check_root(self, path: Path) -> bool:
+        """
+        Check if a path is located in the root directory, send an error if not.
+        """
+
+        result = path.is_relative_to(abspath(self._path))
+
+        if not result:
+            self.error_sender(
+                TftpErrorCode.ACCESS_VIOLATION,
+                f"Path '{path}' is outside of the root directory",
+                self.addr,
+            )
+
+        return result
+
     def _check_permission(self, path: Path, mode: str) -> bool:
         """
         Check if a path can be opened in the provided mode, send an error if
-- 
2.43.0


From 36434183e58953f789bc6041d560a8098ec3d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:30 +0000
Subject: [PATCH 26/66] fix: HTTP requests could reach files outside of the
 search paths

---
 runtimepy/net/server/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index 9142443..a0d1e66 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -7,6 +7,7 @@ import http
 from io import StringIO
 import logging
 import mimetypes
+from os.path import abspath
 from pathlib import Path
 from typing import Any, Optional, TextIO, Union
 
@@ -170,7 +171,11 @@ class RuntimepyServerConnection(HttpConnection):
 
         # Try serving the path as a file.
         for search in self.paths:
-            candidate = search.joinpath(path[0][1:])
+            candidate = Path(abspath(search.joinpath(path[0][1:])))
+
+            # Don't serve anything outside of the search path.
+            if search not in candidate.parents:
+                continue
 
             # Handle markdown sources.
             if candidate.name:
-- 
2.43.0


From 29d17a524ae5fe6a41ea0f787bfdeadf9c998002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:47 +0000
Subject: [PATCH 27/66] fix: a request for a path that can't be accessed ended
 the HTTP connection

---
 runtimepy/net/server/__init__.py | 43 +++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index a0d1e66..8eaebcf 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -3,6 +3,7 @@ A module implementing a server interface for this package.
 """
 
 # built-in
+from contextlib import suppress
 import http
 from io import StringIO
 import logging
@@ -177,30 +178,36 @@ class RuntimepyServerConnection(HttpConnection):
             if search not in candidate.parents:
                 continue
 
-            # Handle markdown sources.
-            if candidate.name:
-                md_candidate = candidate.with_suffix(".md")
-                if md_candidate.is_file():
-                    return await self.render_markdown_file(
-                        md_candidate, response
+            # A path that can't be accessed isn't found.
+            with suppress(OSError):
+                # Handle markdown sources.
+                if candidate.name:
+                    md_candidate = candidate.with_suffix(".md")
+                    if md_candidate.is_file():
+                        return await self.render_markdown_file(
+                            md_candidate, response
+                        )
+
+                if candidate.is_file():
+                    mime, encoding = mimetypes.guess_type(
+                        candidate, strict=False
                     )
 
-            if candidate.is_file():
-                mime, encoding = mimetypes.guess_type(candidate, strict=False)
+                    # We don't handle this yet.
+                    assert not encoding, (candidate, mime, encoding)
 
-                # Set MIME type if it can be determined.
-                if mime:
-                    response["Content-Type"] = mime
-
-                # We don't handle this yet.
-                assert not encoding, (candidate, mime, encoding)
+                    self.logger.info(
+                        "Serving '%s' (MIME: %s)", candidate, mime
+                    )
 
-                self.logger.info("Serving '%s' (MIME: %s)", candidate, mime)
+                    # Return the file data.
+                    result = await read_binary(candidate)
 
-                # Return the file data.
-                result = await read_binary(candidate)
+                    # Set MIME type if it can be determined.
+                    if mime:
+                        response["Content-Type"] = mime
 
-                break
+                    break
 
         return result
 
-- 
2.43.0


From f2d2b27edb283dfa4463a0143bd7e6ed4a15f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:47 +0000
Subject: [PATCH 28/66] fix: a request for a compressed file ended the HTTP
 connection

---
 runtimepy/net/server/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index 8eaebcf..084af6d 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -193,9 +193,6 @@ class RuntimepyServerConnection(HttpConnection):
                         candidate, strict=False
                     )
 
-                    # We don't handle this yet.
-                    assert not encoding, (candidate, mime, encoding)
-
                     self.logger.info(
                         "Serving '%s' (MIME: %s)", candidate, mime
                     )
@@ -206,6 +203,8 @@ class RuntimepyServerConnection(HttpConnection):
                     # Set MIME type if it can be determined.
                     if mime:
                         response["Content-Type"] = mime
+                    if encoding:
+                        response["Content-Encoding"] = encoding
 
                     break
 
-- 
2.43.0


From ed4cd877b09630c9e3d31b6cdcbceae017aee19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:47 +0000
Subject: [PATCH 29/66] fix: a request for a markdown file that isn't text
 ended the HTTP connection

---
 runtimepy/net/server/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index 084af6d..a802ee9 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -160,7 +160,9 @@ class RuntimepyServerConnection(HttpConnection):
         """Render a markdown file as HTML and return the result."""
 
         return self.render_markdown(
-            (await read_binary(path)).decode(), response, **kwargs
+            (await read_binary(path)).decode(errors="replace"),
+            response,
+            **kwargs,
         )
 
     async def try_file(
-- 
2.43.0


From 110b2e5594304d2d240ba6e0f732d2aec35ed7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:09 +0000
Subject: [PATCH 30/66] fix: waits between attempts to connect didn't grow
 exponentially

---
 runtimepy/net/backoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/backoff.py b/runtimepy/net/backoff.py
index aa8ca4b..4f690ac 100644
--- a/runtimepy/net/backoff.py
+++ b/runtimepy/net/backoff.py
@@ -42,5 +42,5 @@ class ExponentialBackoff:
         """Sleep for the correct amount of time."""
 
         await asyncio.sleep(self.wait)
-        self.wait = min((2 ^ self.attempt) * self.interval, self.max_sleep)
+        self.wait = min(max(self.wait * 2, self.interval), self.max_sleep)
         self.attempt += 1
-- 
2.43.0


From 77960941867adc4cfad96a3cc0be949b51daee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:09 +0000
Subject: [PATCH 31/66] fix: the restart_attempts channel counted restarts

---
 runtimepy/net/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index c62c69e..587e139 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -104,7 +104,7 @@ class Connection(
         )
         self.env.channel(
             "restart_attempts",
-            self._restarts,
+            self._restart_attempts,
             description="Number of connection restart attempts.",
         )
 
-- 
2.43.0


From e0ab1c6ccf3681df815dd3db57d58b08805813f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:01 +0000
Subject: [PATCH 32/66] fix: a connection that was disabled before its
 processing started came back

---
 runtimepy/net/connection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 587e139..5a80258 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -260,6 +260,11 @@ class Connection(
         """Process this connection, then disable and wait for completion."""
 
         task = _asyncio.create_task(self.process(**kwargs))
+
+        # Ensure that processing starts, it would restart this connection if
+        # it was disabled before that.
+        await _asyncio.sleep(0)
+
         try:
             yield
         finally:
-- 
2.43.0


From 01f53dbecf6909d72056123ea3d783cebb4057ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:01 +0000
Subject: [PATCH 33/66] fix: waiting for a connection whose initialization
 didn't finish never ended

---
 runtimepy/net/connection.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 5a80258..bfb5edc 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -212,13 +212,19 @@ class Connection(
     async def _async_init(self) -> None:
         """Run this connection's initialization routine."""
 
-        if not await self.async_init():
-            self.disable("init failed")
-        else:
-            self.logger.info("Initialized.")
+        result = False
+
+        # Never leave anything waiting for initialization to complete.
+        try:
+            result = await self.async_init()
+        finally:
+            if not result:
+                self.disable("init failed")
+            else:
+                self.logger.info("Initialized.")
 
-        self.env.finalize(strict=False)
-        self.initialized.set()
+            self.env.finalize(strict=False)
+            self.initialized.set()
 
     async def restart(self) -> bool:
         """
-- 
2.43.0


From bb5eeea6d51ae8fca72eb8dd5fc9f292bd3dc6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:10 +0000
Subject: [PATCH 34/66] fix: a connection whose processing raised an exception
 stayed enabled

---
 runtimepy/net/connection.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index bfb5edc..829ed3f 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -7,6 +7,8 @@ from abc import ABC as _ABC
 import asyncio as _asyncio
 from contextlib import asynccontextmanager, suppress
 from typing import AsyncIterator
+from typing import Awaitable as _Awaitable
+from typing import Callable as _Callable
 from typing import Iterator as _Iterator
 from typing import Optional as _Optional
 from typing import Union as _Union
@@ -292,7 +294,7 @@ class Connection(
             return
 
         self._tasks = [
-            _asyncio.create_task(self._process_read()),
+            _asyncio.create_task(self._disable_on_error(self._process_read)),
             _asyncio.create_task(self._async_init()),
         ]
 
@@ -304,11 +306,15 @@ class Connection(
 
         if self.uses_text_tx_queue:
             self._tasks.append(
-                _asyncio.create_task(self._process_write_text())
+                _asyncio.create_task(
+                    self._disable_on_error(self._process_write_text)
+                )
             )
         if self.uses_binary_tx_queue:
             self._tasks.append(
-                _asyncio.create_task(self._process_write_binary())
+                _asyncio.create_task(
+                    self._disable_on_error(self._process_write_binary)
+                )
             )
 
         # Allow a stop signal to also disable the connection.
@@ -329,6 +335,17 @@ class Connection(
         await self.close()
         self.exited.set()
 
+    async def _disable_on_error(
+        self, task: _Callable[[], _Awaitable[None]]
+    ) -> None:
+        """Disable this connection if a processing task fails."""
+
+        try:
+            await task()
+        except Exception as exc:
+            self.disable(f"processing error ({exc})")
+            raise
+
     async def _process_read(self) -> None:
         """Process incoming messages while this connection is active."""
 
-- 
2.43.0


From 44bae3030096e1a4f64100b83b0bc4c776ed9625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:10 +0000
Subject: [PATCH 35/66] fix: a connection that restarted was processed by
 several tasks at once

---
 runtimepy/net/manager.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index 66b671c..0187195 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -79,6 +79,16 @@ class ConnectionManager(LoggerMixin):
         self._conns = []
         new_conn_task: _Optional[_asyncio.Task[_Connection]] = None
 
+        # A connection can only be processed by one task at a time.
+        processing: dict[_Connection, _asyncio.Task[None]] = {}
+
+        def process(conn: _Connection) -> _asyncio.Task[None]:
+            """Create a task that processes a connection."""
+
+            task = _asyncio.create_task(conn.process(stop_sig=stop_sig))
+            processing[conn] = task
+            return task
+
         while not stop_sig.is_set():
             # Create a new-connection handler.
             if new_conn_task is None:
@@ -102,11 +112,13 @@ class ConnectionManager(LoggerMixin):
 
                 # Check if this connection should be restarted.
                 elif conn.auto_restart:
-                    next_tasks.append(
-                        _asyncio.create_task(conn.process(stop_sig=stop_sig))
-                    )
+                    if processing[conn].done():
+                        next_tasks.append(process(conn))
                     enabled.append(conn)
 
+                else:
+                    processing.pop(conn, None)
+
             self._conns = enabled
 
             # If a new connection was made, register a task for processing
@@ -114,9 +126,7 @@ class ConnectionManager(LoggerMixin):
             if new_conn_task.done():
                 new_conn = new_conn_task.result()
                 self._conns.append(new_conn)
-                next_tasks.append(
-                    _asyncio.create_task(new_conn.process(stop_sig=stop_sig))
-                )
+                next_tasks.append(process(new_conn))
                 new_conn_task = None
 
             tasks = next_tasks
-- 
2.43.0


From b50b5b5dcfa9c9fc08635e8599ac65198c58cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:05 +0000
Subject: [PATCH 36/66] fix: a periodic task that was disabled, or failed,
 during an iteration kept running

---
 runtimepy/task/basic/periodic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index 11d4848..20af21a 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -164,14 +164,14 @@ class PeriodicTask(
                     iter_time,
                     self.period_s.value,
                 ):
-                    self._enabled.raw.value = await _asyncio.shield(
-                        self.dispatch()
-                    )
+                    # This task can also get disabled during the iteration.
+                    if not await _asyncio.shield(self.dispatch()):
+                        self.disable()
 
             # Check this synchronously. This may not be suitable for tasks
             # with long periods.
-            if stop_sig is not None:
-                self._enabled.raw.value = not stop_sig.is_set()
+            if stop_sig is not None and stop_sig.is_set():
+                self.disable()
 
             if self._enabled:
                 try:
-- 
2.43.0


From 3b6655980d33ac0f345f6626286a3ff210cab4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:05 +0000
Subject: [PATCH 37/66] fix: an asynchronous task that was disabled during an
 iteration kept running

---
 runtimepy/task/asynchronous.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/runtimepy/task/asynchronous.py b/runtimepy/task/asynchronous.py
index 9844391..6e70317 100644
--- a/runtimepy/task/asynchronous.py
+++ b/runtimepy/task/asynchronous.py
@@ -139,18 +139,17 @@ class AsyncTask(_LoggerMixin):
         self.enable()
 
         # Run this task's initialization.
-        self.enabled.raw.value &= await _asyncio.shield(
-            self.init(*args, **kwargs)
-        )
+        if not await _asyncio.shield(self.init(*args, **kwargs)):
+            self.disable()
 
         while self.enabled:
             # Keep track of the rate that this task is running at.
             start = eloop.time()
             self.rate_hz.raw.value = self.dispatch_rate(to_nanos(start))
 
-            self.enabled.raw.value &= await _asyncio.shield(
-                self.dispatch(*args, **kwargs)
-            )
+            # This task can also get disabled during the iteration.
+            if not await _asyncio.shield(self.dispatch(*args, **kwargs)):
+                self.disable()
             exec_time = eloop.time() - start
 
             # Update runtime metrics.
-- 
2.43.0


From ad7498ab0223b2068b6f9c6cebc8ae6d5f1dd7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:05 +0000
Subject: [PATCH 38/66] fix: an asynchronous task never reached more than 255
 iterations

---
 runtimepy/task/asynchronous.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/runtimepy/task/asynchronous.py b/runtimepy/task/asynchronous.py
index 6e70317..6ad9496 100644
--- a/runtimepy/task/asynchronous.py
+++ b/runtimepy/task/asynchronous.py
@@ -55,9 +55,7 @@ class AsyncTask(_LoggerMixin):
 
             with env.names_pushed(METRICS_NAME):
                 # Track the number of times this task has been dispatched.
-                self.dispatches = env.int_channel("dispatches", kind="uint8")[
-                    0
-                ]
+                self.dispatches = env.int_channel("dispatches")[0]
 
                 # Track metrics for how long this task takes to execute.
                 self.rate_hz = env.float_channel("rate_hz")
-- 
2.43.0


From 2026b21afe20f76476fe4bb9a734239b23768ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:51 +0000
Subject: [PATCH 39/66] fix: a periodic task that raised an exception couldn't
 be started again

---
 runtimepy/task/basic/periodic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index 20af21a..1438185 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -196,9 +196,11 @@ class PeriodicTask(
 
         # Ensure that a previous version of this task gets cleaned up.
         if self._task is not None:
+            # This task is still enabled if it raised an exception.
+            self.disable()
+
             if not self._task.done():
                 # On Windows, setting enabled False here is not enough.
-                self.disable()
                 self._task.cancel()
                 with _suppress(_asyncio.CancelledError):
                     await self._task
-- 
2.43.0


From 63e594bb42e4be452cc4aabb59bb132d8a4bc916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:59 +0000
Subject: [PATCH 40/66] fix: failures of applications that run in parallel
 could cancel each other out

---
 runtimepy/net/arbiter/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index ef84b3e..43aafcc 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -416,6 +416,10 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
                     duration_ns=duration_ns,
                 )
 
+            # Failures can't cancel each other out.
+            if total == 0:
+                total = next((x for x in results if x != 0), 0)
+
         # Keep track of stages that raise an exception.
         except Exception as exc:  # pylint: disable=broad-exception-caught
             stage_results = [
-- 
2.43.0


From 2ec03819ec893abd33e988600774658bab670bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:36 +0000
Subject: [PATCH 41/66] fix: applications waited forever for a connection that
 ended while initializing

---
 runtimepy/net/connection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 829ed3f..50dc507 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -183,9 +183,9 @@ class Connection(
         """Set the enabled state for this connection."""
 
         self._enabled.value = state
+        self.initialized.clear()
         if not state:
             self.disabled_event.set()
-            self.initialized.clear()
         else:
             self.disabled_event.clear()
 
@@ -291,6 +291,7 @@ class Connection(
 
         await self._handle_restart(stop_sig=stop_sig, backoff=backoff)
         if self.disabled:
+            self.initialized.set()
             return
 
         self._tasks = [
@@ -333,6 +334,10 @@ class Connection(
         _log_exceptions(self._tasks + [gather_task], self.logger)
 
         await self.close()
+
+        # Nothing should wait for initialization that won't happen.
+        if not self.auto_restart:
+            self.initialized.set()
         self.exited.set()
 
     async def _disable_on_error(
-- 
2.43.0


From 123a996272aac4c5e2d4e999f24f7e60437b16d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:40 +0000
Subject: [PATCH 42/66] fix: log records with arguments that aren't JSON
 serializable broke messaging

---
 runtimepy/message/interface.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index f7f723d..f980c2f 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -186,9 +186,12 @@ class JsonMessageInterface:
         # Stage any pending log messages.
         if self.list_handler:
             for record in self.list_handler.drain():
-                self.stage_remote_log(  # type: ignore
-                    record.msg, *record.args, level=record.levelno
-                )
+                # Arguments may not be JSON serializable.
+                try:
+                    message = record.getMessage()
+                except (TypeError, ValueError, KeyError):
+                    message = str(record.msg)
+                self.stage_remote_log(message, level=record.levelno)
 
         # Add any pending log messages to this message.
         if self._log_messages:
-- 
2.43.0


From 2f008573cb01a5ddb6bf2a47eef4e3f2e1ea4e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:40 +0000
Subject: [PATCH 43/66] fix: sending a JSON message with pending log messages
 modified the caller's message

---
 runtimepy/message/interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index f980c2f..d2a01f9 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -196,7 +196,8 @@ class JsonMessageInterface:
         # Add any pending log messages to this message.
         if self._log_messages:
             assert "__log_messages__" not in data
-            data["__log_messages__"] = self._log_messages  # type: ignore
+            # Avoid modifying the caller's message.
+            data = {**data, "__log_messages__": self._log_messages}
             self._log_messages = []
 
         with BytesIO() as stream:
-- 
2.43.0


From a8116bfaabec31439b40b13fa48e2c0824b8c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:40 +0000
Subject: [PATCH 44/66] fix: telnet sequences and characters split across
 frames were lost or ended the connection

---
 runtimepy/net/tcp/telnet/__init__.py | 46 +++++++++++++++++++---------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index 4284538..c25c3b1 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -4,6 +4,8 @@ A module implementing a basic telnet (RFC 854) connection interface.
 
 # built-in
 from abc import abstractmethod as _abstractmethod
+from codecs import IncrementalDecoder as _IncrementalDecoder
+from codecs import getincrementaldecoder as _getincrementaldecoder
 from contextlib import ExitStack as _ExitStack
 from io import BytesIO as _BytesIO
 from typing import BinaryIO as _BinaryIO
@@ -13,6 +15,7 @@ from vcorelib import DEFAULT_ENCODING
 
 # internal
 from runtimepy.net.tcp.connection import TcpConnection as _TcpConnection
+from runtimepy.net.tcp.protocol import QueueProtocol as _QueueProtocol
 from runtimepy.net.tcp.telnet.codes import (
     CARRIAGE_RETURN,
     NEWLINE,
@@ -35,9 +38,28 @@ class Telnet(_TcpConnection):
 
     log_alias = "TELNET"
 
+    # Parsing state, sequences can span multiple frames.
+    _decoder: _IncrementalDecoder
+    _last_val: int
+    _processing_option: bool
+    _processing_command: bool
+
+    def _set_protocol(self, protocol: _QueueProtocol) -> None:
+        """Set a new protocol for this instance."""
+
+        super()._set_protocol(protocol)
+
+        # Reset parsing state.
+        self._decoder = _getincrementaldecoder(DEFAULT_ENCODING)()
+        self._last_val = 0
+        self._processing_option = False
+        self._processing_command = False
+
     async def process_telnet_message(self, data: bytes) -> bool:
         """By default, treat all incoming data bytes as text."""
-        return await self.process_text(data.decode(encoding=DEFAULT_ENCODING))
+
+        text = self._decoder.decode(data)
+        return await self.process_text(text) if text else True
 
     @_abstractmethod
     async def process_command(self, code: TelnetCode) -> None:
@@ -70,12 +92,7 @@ class Telnet(_TcpConnection):
 
         result = True
 
-        last_val = 0
-        val = 0
-
-        # These two conditions are used to form a simple state machine.
-        processing_option = False
-        processing_command = False
+        val = self._last_val
 
         with _ExitStack() as stack:
             text = stack.enter_context(_BytesIO())
@@ -87,17 +104,18 @@ class Telnet(_TcpConnection):
                     break
 
                 last_val = val
-                val = data[0]
+                val = self._last_val = data[0]
 
-                if processing_option:
+                if self._processing_option:
+                    self._processing_option = False
                     await self.process_option(
                         TelnetCode(last_val), val, stream
                     )
-                    processing_option = False
 
-                elif processing_command:
+                elif self._processing_command:
+                    self._processing_command = False
                     if TelnetCode.is_option_code(val):
-                        processing_option = True
+                        self._processing_option = True
                     else:
                         # If 'IAC' appears twice in a row, it's being
                         # escaped.
@@ -106,10 +124,8 @@ class Telnet(_TcpConnection):
                         else:
                             await self.process_command(TelnetCode(val))
 
-                    processing_command = False
-
                 elif val == TelnetCode.IAC:
-                    processing_command = True
+                    self._processing_command = True
 
                 elif TelnetNvt.is_nvt(val):
                     nvt = TelnetNvt(val)
-- 
2.43.0


From 702f4967a7ff46ea2995e0ed14c806b0a5c046a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:26 +0000
Subject: [PATCH 45/66] fix: copies of protocols lost their fields, identifier,
 arrays and nested types

---
 runtimepy/codec/protocol/base.py | 34 +++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index 9ee6de7..8e5e6be 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -71,6 +71,7 @@ class ProtocolBase:
         identifier: int = 1,
         byte_order: _Union[_ByteOrder, _RegistryKey] = _DEFAULT_BYTE_ORDER,
         serializables: SerializableMap = None,
+        array_lengths: dict[str, _Optional[int]] = None,
     ) -> None:
         """Initialize this protocol."""
 
@@ -105,22 +106,35 @@ class ProtocolBase:
         # Keep track of named serializables.
         self.serializables: SerializableMap = {}
 
+        # Original serializables, adding anything to this protocol can change
+        # them (fields can be added to arrays, chains get extended).
+        self._prototypes: dict[
+            str, tuple[Serializable, _Optional[int]]
+        ] = {}
+        if array_lengths is None:
+            array_lengths = {}
+
         # Add fields if necessary.
         if build is None:
             build = []
         for item in build:
             if isinstance(item, int):
-                self._add_bit_fields(self._fields.fields[item], track=False)
+                # The bit-fields manager already has these fields.
+                self.array.add(self._fields.fields[item].raw)
+                self._build.append(item)
             elif isinstance(item, str):
                 assert serializables, (item, serializables)
-                self.add_field(item, serializable=serializables[item])
+                self.add_field(
+                    item,
+                    serializable=serializables[item],
+                    array_length=array_lengths.get(item),
+                )
                 del serializables[item]
             else:
                 self.add_field(
                     item.name,
                     item.kind,
                     enum=item.enum,
-                    track=False,
                     array_length=item.array_length,
                 )
 
@@ -135,10 +149,19 @@ class ProtocolBase:
             names=self.names,
             fields=_copy(self._fields),
             build=self._build,
+            identifier=self.id,
             byte_order=self.array.byte_order,
             serializables={
-                key: val.copy_without_chain()
-                for key, val in self.serializables.items()
+                key: (
+                    proto.copy()
+                    if isinstance(proto, PrimitiveArray)
+                    or proto.chain is not None
+                    else self.serializables[key].copy_without_chain()
+                )
+                for key, (proto, _) in self._prototypes.items()
+            },
+            array_lengths={
+                key: length for key, (_, length) in self._prototypes.items()
             },
         )
 
@@ -156,6 +179,7 @@ class ProtocolBase:
 
         self.register_name(name)
         self.serializables[name] = serializable
+        self._prototypes[name] = (serializable.copy(), array_length)
         self._build.append(name)
         return self.array.add_to_end(serializable, array_length=array_length)
 
-- 
2.43.0


From b3a82b3f11e74b97525d74c0fd76f93bb4d70087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:26 +0000
Subject: [PATCH 46/66] fix: importing a protocol dropped the lengths of its
 arrays

---
 runtimepy/codec/protocol/json.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtimepy/codec/protocol/json.py b/runtimepy/codec/protocol/json.py
index 8963f1e..28f3ce8 100644
--- a/runtimepy/codec/protocol/json.py
+++ b/runtimepy/codec/protocol/json.py
@@ -111,6 +111,9 @@ class JsonProtocol(ProtocolBase):
                         item["name"],  # type: ignore
                         item["kind"],  # type: ignore
                         enum=item.get("enum"),  # type: ignore
+                        array_length=item.get(  # type: ignore
+                            "array_length"
+                        ),
                     )
                 )
 
-- 
2.43.0


From 44018e4b3a048f27896dff0dab4fc2255c181ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:26 +0000
Subject: [PATCH 47/66] fix: protocol factories shared one prototype and its
 state

---
 runtimepy/codec/protocol/__init__.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/runtimepy/codec/protocol/__init__.py b/runtimepy/codec/protocol/__init__.py
index 31000b2..3961295 100644
--- a/runtimepy/codec/protocol/__init__.py
+++ b/runtimepy/codec/protocol/__init__.py
@@ -29,6 +29,17 @@ class ProtocolFactory(ABC):
     # Private.
     _singleton: Optional[Protocol] = None
 
+    def __init_subclass__(cls, **kwargs) -> None:
+        """Ensure that prototypes are unique to the implementing class."""
+
+        super().__init_subclass__(**kwargs)
+
+        if cls.protocol is ProtocolFactory.protocol:
+            cls.protocol = Protocol(EnumRegistry())
+        if "protocol" in cls.__dict__:
+            cls.initialized = False
+            cls._singleton = None
+
     @classmethod
     @abstractmethod
     def initialize(cls, protocol: Protocol) -> None:
-- 
2.43.0


From 1c18050857ae4d6d858870d896d3d5e95bde2740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:34 +0000
Subject: [PATCH 48/66] fix: exporting a protocol without enum resolution still
 resolved regular enum fields

---
 runtimepy/codec/protocol/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/codec/protocol/json.py b/runtimepy/codec/protocol/json.py
index 28f3ce8..57ad821 100644
--- a/runtimepy/codec/protocol/json.py
+++ b/runtimepy/codec/protocol/json.py
@@ -83,7 +83,7 @@ class JsonProtocol(ProtocolBase):
         # Export regular-field values.
         json_obj = data.get(VALUES_KEY, {})
         for name in self._regular_fields:
-            json_obj[name] = self.value(name)
+            json_obj[name] = self.value(name, resolve_enum=resolve_enum)
         if json_obj:
             data[VALUES_KEY] = json_obj
 
-- 
2.43.0


From 608551e9b6545a57ec2b0a6538296fd3bef6ea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:34 +0000
Subject: [PATCH 49/66] fix: a refused type registration left its namespace
 pushed

---
 runtimepy/codec/system/__init__.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/runtimepy/codec/system/__init__.py b/runtimepy/codec/system/__init__.py
index 5d78b9d..93676d3 100644
--- a/runtimepy/codec/system/__init__.py
+++ b/runtimepy/codec/system/__init__.py
@@ -193,16 +193,24 @@ class TypeSystem(LoggerMixin):
     ) -> str:
         """Resolve a given name against the current namespace."""
 
+        # Only raise outside the context (names pushed must be popped).
+        conflict: Optional[str] = None
+
         with self.root_namespace.pushed(*namespace):
             if check_available:
                 resolved = self._find_name(name)
-                assert (
-                    resolved is None
-                    or self.root_namespace.namespace(name, track=False)
-                    != resolved
-                ), f"Name '{name}' not available! found '{resolved}'"
+                if resolved == self.root_namespace.namespace(
+                    name, track=False
+                ):
+                    conflict = resolved
+
+            result = self.root_namespace.namespace(
+                name, track=conflict is None
+            )
 
-            result = self.root_namespace.namespace(name)
+        assert (
+            conflict is None
+        ), f"Name '{name}' not available! found '{conflict}'"
 
         return result
 
-- 
2.43.0


From abcf7ec4ff6977d7b03172bb9ee48f8e38322f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:09 +0000
Subject: [PATCH 50/66] fix: refused item data left its name registered without
 an item

---
 runtimepy/registry/__init__.py |  7 +++++--
 runtimepy/registry/name.py     | 11 ++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/runtimepy/registry/__init__.py b/runtimepy/registry/__init__.py
index 81679b8..eac611b 100644
--- a/runtimepy/registry/__init__.py
+++ b/runtimepy/registry/__init__.py
@@ -82,11 +82,14 @@ class Registry(_RuntimepyDictCodec, _Generic[T]):
 
         # Inject an identifier into the data if one's not present.
         if "id" not in data:
-            identifier = self.names.register_name(name)
+            identifier = self.names.identifier(name)
             if identifier is None:
-                return None
+                if not self.names.validate_name(name, self.names.logger):
+                    return None
+                identifier = self.names.next_identifier()
             data["id"] = identifier
 
+        # The name is only registered if the item's data is valid.
         item = self.kind(data)
         result = self.register(name, item)
         return item if result else None
diff --git a/runtimepy/registry/name.py b/runtimepy/registry/name.py
index 900cee5..82971f5 100644
--- a/runtimepy/registry/name.py
+++ b/runtimepy/registry/name.py
@@ -34,6 +34,13 @@ class NameRegistry(_TwoWayNameMapping[int]):
             if key >= self._current:
                 self._current = key + 1
 
+    def next_identifier(self) -> int:
+        """Get the next identifier that isn't assigned to a name."""
+
+        while self._current in self._mapping:
+            self._current += 1
+        return self._current
+
     def register_name(
         self, name: str, identifier: int = None
     ) -> _Optional[int]:
@@ -50,9 +57,7 @@ class NameRegistry(_TwoWayNameMapping[int]):
 
         # Find the next valid identifier.
         if identifier is None:
-            while self._current in self._mapping:
-                self._current += 1
-            identifier = self._current
+            identifier = self.next_identifier()
 
         # Store the mapping and return the identifier.
         if identifier not in self._mapping:
-- 
2.43.0


From db57fa0b99acd246479eebaa43fce6713454cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:41 +0000
Subject: [PATCH 51/66] fix: search packages added in front were searched last

---
 runtimepy/net/arbiter/config/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/arbiter/config/util.py b/runtimepy/net/arbiter/config/util.py
index 0c84173..b68cff6 100644
--- a/runtimepy/net/arbiter/config/util.py
+++ b/runtimepy/net/arbiter/config/util.py
@@ -16,9 +16,9 @@ def list_adder(dest: list[T], data: T, front: bool = True) -> None:
     """Handle adding to either the front or back of a list."""
 
     if front:
-        dest.append(data)
-    else:
         dest.insert(0, data)
+    else:
+        dest.append(data)
 
 
 def fix_kwargs(data: dict[str, _Any]) -> dict[str, _Any]:
-- 
2.43.0


From 7441167366cd53d35647e0e523efe4a3e0a761fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:15 +0000
Subject: [PATCH 52/66] fix: a wait that had succeeded could report failure

---
 runtimepy/primitives/evaluation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtimepy/primitives/evaluation.py b/runtimepy/primitives/evaluation.py
index a7780bd..707a09c 100644
--- a/runtimepy/primitives/evaluation.py
+++ b/runtimepy/primitives/evaluation.py
@@ -72,11 +72,12 @@ async def evaluate(
     def change_callback(curr: T, new: T) -> None:
         """Handle underlying value changes to the provided primitive."""
 
-        # Always update the result when called.
+        # Update the result until successful.
         nonlocal result
-        result = evaluator(curr, new)
-        if result:
-            event.set()
+        if not result:
+            result = evaluator(curr, new)
+            if result:
+                event.set()
 
     # Service the callback until resolved or this evaluation times out.
     with primitive.callback(change_callback):
-- 
2.43.0


From 7e65d5dc46a4a267b1d02a4de55aa2edcbe6c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:29 +0000
Subject: [PATCH 53/66] fix: sampling a primitive could cancel the task that
 consumes the samples

---
 runtimepy/primitives/evaluation.py | 31 +++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/runtimepy/primitives/evaluation.py b/runtimepy/primitives/evaluation.py
index 707a09c..8aad0ab 100644
--- a/runtimepy/primitives/evaluation.py
+++ b/runtimepy/primitives/evaluation.py
@@ -121,7 +121,7 @@ async def sample_for(
     is set).
     """
 
-    sample_queue: asyncio.Queue[tuple[T, int]] = asyncio.Queue()
+    sample_queue: asyncio.Queue[tuple[T, int] | None] = asyncio.Queue()
     keep_sampling = True
     samples = 0
 
@@ -150,18 +150,31 @@ async def sample_for(
             sample_queue.put_nowait((new, primitive.last_updated_ns))
             poll_sample_event()
 
+    def expire() -> None:
+        """Stop sampling and wake up the wait for a sample."""
+
+        nonlocal keep_sampling
+        keep_sampling = False
+        sample_queue.put_nowait(None)
+
+    # Only sampling is subject to the timeout (not the task consuming samples).
+    timer = asyncio.get_running_loop().call_later(timeout, expire)
+
     # Service the callback until resolved or this evaluation times out.
-    with primitive.callback(sample):
-        try:
-            async with asyncio.timeout(timeout):
-                while keep_sampling:
-                    yield await sample_queue.get()
-        except asyncio.TimeoutError:
-            pass
+    try:
+        with primitive.callback(sample):
+            while keep_sampling:
+                item = await sample_queue.get()
+                if item is not None:
+                    yield item
+    finally:
+        timer.cancel()
 
     # Drain queue.
     while not sample_queue.empty():
-        yield sample_queue.get_nowait()
+        item = sample_queue.get_nowait()
+        if item is not None:
+            yield item
 
 
 class PrimitiveIsCloseMixin(Primitive[T]):
-- 
2.43.0


From 224d459a79314e935db0d246b89739bc94f7e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:26 +0000
Subject: [PATCH 54/66] fix: polled channel metrics reported kilobytes as
 kilobits per second

---
 runtimepy/metrics/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/metrics/channel.py b/runtimepy/metrics/channel.py
index 1fd517d..90a0450 100644
--- a/runtimepy/metrics/channel.py
+++ b/runtimepy/metrics/channel.py
@@ -55,7 +55,8 @@ class ChannelMetrics:
     def poll(self, time_ns: int = None) -> None:
         """Poll kbps tracking."""
 
-        self.kbps.value = self._kbps_tracker.poll(time_ns=time_ns)
+        # Multiply by 8 to get bits from bytes.
+        self.kbps.value = self._kbps_tracker.poll(time_ns=time_ns) * 8
         self.message_rate.value = self._message_rate_tracker.poll(
             time_ns=time_ns
         )
-- 
2.43.0


From 3cc399b496430932606c22de2c435eb9c980ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:26 +0000
Subject: [PATCH 55/66] fix: resetting channel metrics left the message rate

---
 runtimepy/metrics/channel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtimepy/metrics/channel.py b/runtimepy/metrics/channel.py
index 90a0450..a23ae16 100644
--- a/runtimepy/metrics/channel.py
+++ b/runtimepy/metrics/channel.py
@@ -79,6 +79,9 @@ class ChannelMetrics:
         """Reset metrics."""
 
         self.messages.value = 0
+        self.message_rate.value = 0.0
+        self._message_rate_tracker.reset()
+
         self.bytes.value = 0
         self.kbps.value = 0.0
         self._kbps_tracker.reset()
-- 
2.43.0


From 543fdc0b5d04e48da1895b8a53dfc55fca901c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:26 +0000
Subject: [PATCH 56/66] fix: websocket metrics counted the characters of text,
 not its bytes

---
 runtimepy/net/websocket/connection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/websocket/connection.py b/runtimepy/net/websocket/connection.py
index e406d66..c223782 100644
--- a/runtimepy/net/websocket/connection.py
+++ b/runtimepy/net/websocket/connection.py
@@ -71,13 +71,15 @@ class WebsocketConnection(Connection):
 
         data = await self._handle_connection_closed(self.protocol.recv())
         if data is not None:
-            self.metrics.rx.increment(len(data))
+            self.metrics.rx.increment(
+                len(data.encode() if isinstance(data, str) else data)
+            )
         return data
 
     async def _send_text_message(self, data: str) -> None:
         """Send a text message."""
         await self._handle_connection_closed(self.protocol.send(data))
-        self.metrics.tx.increment(len(data))
+        self.metrics.tx.increment(len(data.encode()))
 
     async def _send_binay_message(self, data: BinaryMessage) -> None:
         """Send a binary message."""
-- 
2.43.0


From 1f17e880bfa1a1322fbe89b686d0cc6f02e8f570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:26 +0000
Subject: [PATCH 57/66] fix: a process' output raised if only its errors had a
 queue

---
 runtimepy/subprocess/protocol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtimepy/subprocess/protocol.py b/runtimepy/subprocess/protocol.py
index a1c2272..ce9d88f 100644
--- a/runtimepy/subprocess/protocol.py
+++ b/runtimepy/subprocess/protocol.py
@@ -78,8 +78,9 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
     def pipe_data_received(self, fd: int, data: bytes) -> None:
         """Handle incoming pipe data."""
 
-        if fd == 1 and self.stdout_queue is not None:
-            self.stdout_queue.put_nowait(data)
+        if fd == 1:
+            if self.stdout_queue is not None:
+                self.stdout_queue.put_nowait(data)
         elif self.stderr_queue is not None:
             assert fd == 2, fd
             self.stderr_queue.put_nowait(data)
-- 
2.43.0


From 63ce5a6be7bc42790a12cceb6aed840892d4a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:29 +0000
Subject: [PATCH 58/66] fix: output of a subprocess was lost until its queues
 were assigned

---
 runtimepy/subprocess/__init__.py | 14 ++++++--------
 runtimepy/subprocess/protocol.py | 11 +++++++++--
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/runtimepy/subprocess/__init__.py b/runtimepy/subprocess/__init__.py
index edc7f3d..eb50ba1 100644
--- a/runtimepy/subprocess/__init__.py
+++ b/runtimepy/subprocess/__init__.py
@@ -5,6 +5,7 @@ A module implementing a subprocess management interface.
 # built-in
 from asyncio import Queue, get_running_loop, wait_for
 from contextlib import asynccontextmanager, suppress
+from functools import partial
 from logging import getLogger
 from typing import AsyncIterator
 
@@ -101,15 +102,15 @@ async def spawn_exec(
     program, list_args = reconcile_platform(args[0], args[1:])
 
     _, protocol = await get_running_loop().subprocess_exec(
-        RuntimepySubprocessProtocol, program, *list_args, **kwargs
+        partial(RuntimepySubprocessProtocol, stdout, stderr),
+        program,
+        *list_args,
+        **kwargs,
     )
 
     rel = log_process_info(program, *list_args)
     logger.info("Started exec '%s %s' %d.", rel[0], rel[1], protocol.pid)
 
-    protocol.stdout_queue = stdout
-    protocol.stderr_queue = stderr
-
     try:
         yield protocol
     finally:
@@ -129,14 +130,11 @@ async def spawn_shell(
     """Create a shell subprocess."""
 
     _, protocol = await get_running_loop().subprocess_shell(
-        RuntimepySubprocessProtocol, cmd, **kwargs
+        partial(RuntimepySubprocessProtocol, stdout, stderr), cmd, **kwargs
     )
 
     logger.info("Started shell '%s' %d.", cmd, protocol.pid)
 
-    protocol.stdout_queue = stdout
-    protocol.stderr_queue = stderr
-
     try:
         yield protocol
     finally:
diff --git a/runtimepy/subprocess/protocol.py b/runtimepy/subprocess/protocol.py
index ce9d88f..4894665 100644
--- a/runtimepy/subprocess/protocol.py
+++ b/runtimepy/subprocess/protocol.py
@@ -36,6 +36,15 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
 
     exited: Event
 
+    def __init__(
+        self, stdout: Queue[bytes] = None, stderr: Queue[bytes] = None
+    ) -> None:
+        """Initialize this instance."""
+
+        # Output can arrive as soon as this protocol is connected.
+        self.stdout_queue = stdout
+        self.stderr_queue = stderr
+
     @property
     def stdout(self) -> Queue[bytes]:
         """Get this instance's standard output queue."""
@@ -59,8 +68,6 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
         self.start_time = metrics_time_ns()
         self.elapsed_time = -1
 
-        self.stdout_queue = None
-        self.stderr_queue = None
         self.exited = Event()
 
         self.transport = transport
-- 
2.43.0


From a9bc6e7d6c3ef13fa4c6db4fdb6c59fbc817b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:43 +0000
Subject: [PATCH 59/66] fix: observe channels once when a tab is shown
 repeatedly

---
 runtimepy/net/server/app/env/tab/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/server/app/env/tab/message.py b/runtimepy/net/server/app/env/tab/message.py
index 8d7813c..e32a130 100644
--- a/runtimepy/net/server/app/env/tab/message.py
+++ b/runtimepy/net/server/app/env/tab/message.py
@@ -67,7 +67,8 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
 
             # Begin observing channel events for this environment.
             for name in env.names:
-                self._setup_callback(name, state)
+                if name not in state.callbacks:
+                    self._setup_callback(name, state)
         else:
             state.clear_telemetry()
 
-- 
2.43.0


From 149ed1ada967d2b099a2663921e522dd3b7ed312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:48 +0000
Subject: [PATCH 60/66] fix: send values to the UI that a tab missed when it
 was hidden

---
 runtimepy/net/server/app/env/tab/message.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/server/app/env/tab/message.py b/runtimepy/net/server/app/env/tab/message.py
index e32a130..f05707b 100644
--- a/runtimepy/net/server/app/env/tab/message.py
+++ b/runtimepy/net/server/app/env/tab/message.py
@@ -46,6 +46,7 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
     ) -> None:
         """Handle 'shown' state changing."""
 
+        was_shown = state.shown
         state.shown = shown
         env = self.command.env
 
@@ -70,10 +71,15 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
                 if name not in state.callbacks:
                     self._setup_callback(name, state)
         else:
+            # The UI doesn't know values that weren't sent yet.
+            for name in state.points:
+                latest.pop(name, None)
+
             state.clear_telemetry()
 
         # Save current UI state.
-        state.latest_ui_values.update(latest)
+        if shown or was_shown:
+            state.latest_ui_values = latest
 
         outbox["handle_shown_state"] = shown
 
-- 
2.43.0


From 7d05ccadd665e1c01f0ec23dd84c54d6797df6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:48 +0000
Subject: [PATCH 61/66] fix: don't send NaN points to the UI

---
 runtimepy/net/server/app/env/tab/message.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/server/app/env/tab/message.py b/runtimepy/net/server/app/env/tab/message.py
index f05707b..9b25d33 100644
--- a/runtimepy/net/server/app/env/tab/message.py
+++ b/runtimepy/net/server/app/env/tab/message.py
@@ -4,6 +4,7 @@ A module implementing a channel-environment tab message-handling interface.
 
 # built-in
 import logging
+import math
 from typing import Any, Callable
 
 # internal
@@ -30,9 +31,11 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
 
             # Render enumerations etc. here instead of trying to do it
             # in the UI.
-            state.points[name].append(
-                (self.command.env.value(name), prim.last_updated_ns)
-            )
+            value = self.command.env.value(name)
+
+            # Browsers can't decode NaN.
+            if isinstance(value, str) or not math.isnan(value):
+                state.points[name].append((value, prim.last_updated_ns))
 
         state.primitives[name] = prim
         state.callbacks[name] = prim.register_callback(callback)
-- 
2.43.0


From d530c05f335676a10d31423f439de1800b6676f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:51 +0000
Subject: [PATCH 62/66] fix: string primitives stated the length in characters,
 not bytes

---
 runtimepy/primitives/string.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/primitives/string.py b/runtimepy/primitives/string.py
index 05a2ee2..fb50ba0 100644
--- a/runtimepy/primitives/string.py
+++ b/runtimepy/primitives/string.py
@@ -27,7 +27,7 @@ class StringPrimitive:
 
         assert kind.kind.is_integer
         self._value = value
-        self._size = kind(value=len(self._value))
+        self._size = kind(value=len(self._value.encode()))
         self.byte_order = byte_order
 
     def __str__(self) -> str:
@@ -62,7 +62,7 @@ class StringPrimitive:
     def set(self, value: str) -> None:
         """Set a new value for the underlying string."""
         self._value = value
-        self._size.value = len(self._value)
+        self._size.value = len(self._value.encode())
 
     @property
     def size(self) -> int:
-- 
2.43.0


From 8853a982865ae90968ece80210d3668c6da25dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:24 +0000
Subject: [PATCH 63/66] fix: strings too long for their size wrapped it

---
 runtimepy/primitives/string.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/runtimepy/primitives/string.py b/runtimepy/primitives/string.py
index fb50ba0..80d17d0 100644
--- a/runtimepy/primitives/string.py
+++ b/runtimepy/primitives/string.py
@@ -26,8 +26,8 @@ class StringPrimitive:
         """Initialize this string primitive."""
 
         assert kind.kind.is_integer
-        self._value = value
-        self._size = kind(value=len(self._value.encode()))
+        self._size = kind()
+        self.set(value)
         self.byte_order = byte_order
 
     def __str__(self) -> str:
@@ -61,8 +61,14 @@ class StringPrimitive:
 
     def set(self, value: str) -> None:
         """Set a new value for the underlying string."""
+
+        # The size must be able to express the length of the string.
+        size = len(value.encode())
+        bounds = self._size.kind.int_bounds
+        assert bounds is not None and bounds.validate(size), size
+
         self._value = value
-        self._size.value = len(self._value.encode())
+        self._size.value = size
 
     @property
     def size(self) -> int:
-- 
2.43.0


From bdc3617148f1471cb82776a86d5954dd648c02e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:24 +0000
Subject: [PATCH 64/66] fix: prefixed chunks kept data their prefix can't
 express

---
 runtimepy/primitives/serializable/prefixed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtimepy/primitives/serializable/prefixed.py b/runtimepy/primitives/serializable/prefixed.py
index 115204c..4bf7f83 100644
--- a/runtimepy/primitives/serializable/prefixed.py
+++ b/runtimepy/primitives/serializable/prefixed.py
@@ -47,6 +47,10 @@ class PrefixedChunk(Serializable):
     def update(self, data: bytes, timestamp_ns: int = None) -> int:
         """Update this serializable from a bytes instance."""
 
+        # The prefix must be able to express the size of the data.
+        bounds = self.prefix.kind.int_bounds
+        assert bounds is not None and bounds.validate(len(data)), len(data)
+
         size = self.chunk.update(data, timestamp_ns=timestamp_ns)
         self.prefix.value = size
         return self._update_size()
-- 
2.43.0


From 45947292508df45e53649a7e050b8eb638c5e17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:33 +0000
Subject: [PATCH 65/66] fix: add the storage of bit-fields to a channel array
 once

Without it a group of bit-fields' storage was added again for every
further field of the group named.
---
 runtimepy/channel/environment/array.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/channel/environment/array.py b/runtimepy/channel/environment/array.py
index 4a8e1bc..fc26921 100644
--- a/runtimepy/channel/environment/array.py
+++ b/runtimepy/channel/environment/array.py
@@ -98,6 +98,7 @@ class ArrayChannelEnvironment(_BaseChannelEnvironment):
                 fields = self.fields.get_fields(name)
                 assert fields is not None, f"Unknown bit-field '{name}'!"
                 result.array.add(fields.raw)
+                curr_fields = fields
                 available_field_names = set(fields.names)
 
             # Keep track of field names processed in the current bit-fields
-- 
2.43.0


From 651ddb61fc39f8502e9b13f679aa60ae30841b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:08 +0000
Subject: [PATCH 66/66] fix: forget what isn't in a rate yet when resetting
 metrics

Counted bytes and messages that aren't part of a rate yet remained after a
reset and were part of the first rate after it.
---
 runtimepy/metrics/channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtimepy/metrics/channel.py b/runtimepy/metrics/channel.py
index a23ae16..478a625 100644
--- a/runtimepy/metrics/channel.py
+++ b/runtimepy/metrics/channel.py
@@ -81,7 +81,9 @@ class ChannelMetrics:
         self.messages.value = 0
         self.message_rate.value = 0.0
         self._message_rate_tracker.reset()
+        self._message_rate_tracker.accumulated = 0.0
 
         self.bytes.value = 0
         self.kbps.value = 0.0
         self._kbps_tracker.reset()
+        self._kbps_tracker.accumulated = 0.0
-- 
2.43.0

