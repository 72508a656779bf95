From eb679c3130fb992b5c811735d3baa4e9b09e3f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 01/20] fix: treat every block size below 4 as the terminal
 block

---
 LnkParse3/extra_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra_data.py b/LnkParse3/extra_data.py
index 2d71d5a..f6467ae 100644
--- a/LnkParse3/extra_data.py
+++ b/LnkParse3/extra_data.py
@@ -35,7 +35,7 @@ class ExtraData:
                 warnings.warn(f"Error while parsing extra data: {e!r}")
                 break
 
-            if not size:
+            if size < 4:
                 break
 
             data, rest = rest[:size], rest[size:]
-- 
2.43.0


From 398e3574ecd81451a9d7206252d2d91ead553618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:10 +0000
Subject: [PATCH 02/20] fix: decode VT_I2 property values as 16-bit integers

---
 LnkParse3/extra/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra/metadata.py b/LnkParse3/extra/metadata.py
index 9e43634..f769356 100644
--- a/LnkParse3/extra/metadata.py
+++ b/LnkParse3/extra/metadata.py
@@ -143,7 +143,7 @@ class TypedPropertyValue:
         start = 4
         if self.value_type() == PropertyType.VT_I2:
             end = 6
-            return unpack("<i", self._raw[start:end])[0]
+            return unpack("<h", self._raw[start:end])[0]
         if self.value_type() == PropertyType.VT_LPWSTR:
             unicode_string_size = unpack("<I", self._raw[start : start + 4])[0] * 2
             unicode_string = self._raw[start + 4 : start + 4 + unicode_string_size]
-- 
2.43.0


From 93a60b0ee6458846d479646cc3171eb2cedb27a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:13 +0000
Subject: [PATCH 03/20] fix: do not crash on a too short packed GUID

---
 LnkParse3/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LnkParse3/utils.py b/LnkParse3/utils.py
index dcc1819..bc37043 100644
--- a/LnkParse3/utils.py
+++ b/LnkParse3/utils.py
@@ -40,6 +40,9 @@ def _quad_to_hex(quad):
 def parse_packed_uuid(text):
     if text is None:
         return None
+    if len(text) < 20:
+        warnings.warn("Invalid packed GUID: %r" % text)
+        return None
 
     # An implemetation is based on
     # https://metadataconsulting.blogspot.com/2019/12/CSharp-Convert-a-GUID-to-a-Darwin-Descriptor-and-back.html
-- 
2.43.0


From 5006b224ad1a97a19246b24bdc7968e4a4b9d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 04/20] fix: skip LinkInfo even if it is ignored or of no known
 kind

---
 LnkParse3/lnk_file.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 0691810..5d801ed 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -8,7 +8,9 @@ import argparse
 import datetime
 import json
 import re
+import struct
 import textwrap
+import warnings
 from subprocess import list2cmdline
 
 import yaml
@@ -78,12 +80,16 @@ class LnkFile:
 
         # Parse Link Info
         self.info = None
-        if self.has_link_info() and not self.force_no_link_info():
+        if self.has_link_info():
             info = LnkInfo(indata=self.indata[index:], cp=self.cp)
-            info_class = InfoFactory(info).info_class()
+            info_class = None if self.force_no_link_info() else InfoFactory(info).info_class()
             if info_class:
                 self.info = info_class(indata=self.indata[index:], cp=self.cp)
-                index += self.info.size()
+            try:
+                index += info.size()
+            except struct.error as e:
+                warnings.warn(f"Error while reading size of LinkInfo: {e!r}")
+                index = len(self.indata)
 
         # Parse String Data
         self.string_data = StringData(self, indata=self.indata[index:], cp=self.cp)
-- 
2.43.0


From f0e47113fe09b3b9d81a56e6ae04e13ca5717fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:17 +0000
Subject: [PATCH 05/20] fix: do not crash on building the command if a flagged
 string is missing

---
 LnkParse3/lnk_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 5d801ed..a94d8d5 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -167,11 +167,11 @@ class LnkFile:
     def lnk_command(self):
         out = []
 
-        if self.has_relative_path():
+        if self.has_relative_path() and self.string_data.relative_path() is not None:
             relative_path = self.string_data.relative_path()
             out.append(list2cmdline([relative_path]))
 
-        if self.has_arguments():
+        if self.has_arguments() and self.string_data.command_line_arguments() is not None:
             out.append(self.string_data.command_line_arguments())
 
         return " ".join(out)
-- 
2.43.0


From 7ed41df59bf8c0eaef8232e0a7942803008a2097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 06/20] fix: skip shell items which are too short instead of
 crashing

---
 LnkParse3/lnk_targets.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/LnkParse3/lnk_targets.py b/LnkParse3/lnk_targets.py
index 1639ba8..f973aca 100644
--- a/LnkParse3/lnk_targets.py
+++ b/LnkParse3/lnk_targets.py
@@ -1,4 +1,5 @@
 import warnings
+from struct import error as StructError
 from struct import unpack
 
 from LnkParse3.target_factory import TargetFactory
@@ -70,15 +71,23 @@ class LnkTargets:
         rest = self._raw_targets
         while rest:
             factory = TargetFactory(indata=rest)
-            target_class = factory.target_class()
+            try:
+                target_class = factory.target_class()
+            except StructError as e:
+                warnings.warn(f"Error while parsing TargetID list: {e!r}")
+                break
 
             if not target_class:
                 # Empty or unknown target object.
                 break
 
-            target = target_class(indata=rest, cp=self.cp)
-
             size = factory.item_size()
+            try:
+                target = target_class(indata=rest, cp=self.cp)
+            except StructError as e:
+                warnings.warn(f"Error while parsing TargetID: {e!r}")
+                rest = rest[size:]
+                continue
             rest = rest[size:]
             yield target
 
@@ -91,4 +100,6 @@ class LnkTargets:
                 msg = f"Error while parsing TargetID `{target.name}` (KeyError {e})"
                 warnings.warn(msg)
                 continue
+            except StructError as e:
+                warnings.warn(f"Error while parsing TargetID `{target.name}` ({e!r})")
         return res
-- 
2.43.0


From 718a4de42872e3ed32ad603c08ae6b651cc535f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:21 +0000
Subject: [PATCH 07/20] fix: do not crash on a file which ends before its
 IDList

---
 LnkParse3/lnk_file.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index a94d8d5..6aff47aa 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -75,8 +75,12 @@ class LnkFile:
         # Parse ID List
         self.targets = None
         if self.has_target_id_list():
-            self.targets = LnkTargets(indata=self.indata[index:], cp=self.cp)
-            index += self.targets.size()
+            try:
+                self.targets = LnkTargets(indata=self.indata[index:], cp=self.cp)
+                index += self.targets.size()
+            except struct.error as e:
+                warnings.warn(f"Error while reading size of IDList: {e!r}")
+                index = len(self.indata)
 
         # Parse Link Info
         self.info = None
-- 
2.43.0


From f0fa4fd345b37da4264d9a49ca0b192a06b2b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:23 +0000
Subject: [PATCH 08/20] fix: report what could be read of a truncated LinkInfo
 instead of crashing

---
 LnkParse3/lnk_file.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 6aff47aa..3cdad5e 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -206,7 +206,7 @@ class LnkFile:
             )
         )
 
-    def get_json(self, get_all=False):
+    def _header_and_target_as_dict(self):
         res = {
             "size": self.size,
             "header": {
@@ -237,6 +237,9 @@ class LnkFile:
                 "index": self._target_index,
             }
 
+        return res
+
+    def _add_link_info(self, res):
         res["link_info"] = {}
         if self.info:
             res["link_info"] = {
@@ -322,6 +325,14 @@ class LnkFile:
                 if self.info.device_name():
                     res["link_info"]["location_info"]["device_name"] = self.info.device_name()
 
+    def get_json(self, get_all=False):
+        res = self._header_and_target_as_dict()
+
+        try:
+            self._add_link_info(res)
+        except struct.error as e:
+            warnings.warn(f"Error while parsing LinkInfo: {e!r}")
+
         res["data"] = self.string_data.as_dict()
         res["extra"] = self.extras.as_dict()
 
-- 
2.43.0


From b0ec6ace8862c8bf1343c10a695d98f8861c0e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 09/20] fix: do not crash on network items without the flagged
 strings

---
 LnkParse3/target/network_location.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/target/network_location.py b/LnkParse3/target/network_location.py
index bb46400..839cf28 100644
--- a/LnkParse3/target/network_location.py
+++ b/LnkParse3/target/network_location.py
@@ -37,11 +37,11 @@ class NetworkLocation(LnkTargetBase):
 
         self._description = None
         if self._has_description():
-            self._description = next(it)
+            self._description = next(it, None)
 
         self._comments = None
         if self._has_comments():
-            self._comments = next(it)
+            self._comments = next(it, None)
 
     def as_item(self):
         item = super().as_item()
-- 
2.43.0


From 19cb097fcf74352926450b9827c246e0a0ab0e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:27 +0000
Subject: [PATCH 10/20] fix: read CommonPathSuffixUnicode at its declared
 offset

---
 LnkParse3/lnk_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_info.py b/LnkParse3/lnk_info.py
index 68e5b20..262c8ec 100644
--- a/LnkParse3/lnk_info.py
+++ b/LnkParse3/lnk_info.py
@@ -237,7 +237,7 @@ class LnkInfo:
         if not self.common_path_suffix_offset_unicode():
             return None
 
-        start = self.common_path_suffix_offset_unicode() + 4
+        start = self.common_path_suffix_offset_unicode()
 
         binary = self._raw[start:]
         # import pdb;pdb.set_trace()
-- 
2.43.0


From cb08e9dabe44923fdcd45d972fc0a921b57f2833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:28 +0000
Subject: [PATCH 11/20] fix: confine shell items to their declared size

---
 LnkParse3/target/lnk_target_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/target/lnk_target_base.py b/LnkParse3/target/lnk_target_base.py
index e069341..53bfab2 100644
--- a/LnkParse3/target/lnk_target_base.py
+++ b/LnkParse3/target/lnk_target_base.py
@@ -43,7 +43,7 @@ class LnkTargetBase:
         self.text_processor = TextProcessor(cp=self.cp)
 
         start = self.SIZE_OF_TARGET_SIZE
-        end = start + self.size()
+        end = self.size()
         self._raw_target = self._raw[start:end]
 
     def get_item_shell_fs_folder(self, flags: int) -> str:
-- 
2.43.0


From 191c40c76d83c727b1c81b621e6e9388d7033eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 12/20] fix: never report a size larger than the input

---
 LnkParse3/lnk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 3cdad5e..b508d2e 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -109,7 +109,7 @@ class LnkFile:
         index += min(len(self.indata[index:]), 4)
 
         # Final LNK size
-        self.size = index
+        self.size = min(index, len(self.indata))
 
     def print_lnk_file(self, print_all=False):
         res = self.get_json(print_all)
-- 
2.43.0


From 5fe1c381c8aceaa4147698a31d4dd63b8689081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:47 +0000
Subject: [PATCH 13/20] fix: do not replace the empty line placeholder inside
 of values

---
 LnkParse3/lnk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index b508d2e..322fe3f 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -151,7 +151,7 @@ class LnkFile:
         res_yaml = yaml.dump(new_res_json, indent=3, sort_keys=False, width=132, allow_unicode=True)
 
         # replace palceholders for empty lines
-        res_yaml = res_yaml.replace("EMPTY_LINE_PLACEHOLDER", "\n")
+        res_yaml = re.sub("^EMPTY_LINE_PLACEHOLDER", "\n", res_yaml, flags=re.MULTILINE)
 
         print("Windows Shortcut Information:")
         print(textwrap.indent(res_yaml, "   "))
-- 
2.43.0


From 0ab460711c8cb427e109037a84006afde309366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 14/20] fix: confine serialized properties to their declared
 sizes

---
 LnkParse3/extra/metadata.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/LnkParse3/extra/metadata.py b/LnkParse3/extra/metadata.py
index f769356..72839f1 100644
--- a/LnkParse3/extra/metadata.py
+++ b/LnkParse3/extra/metadata.py
@@ -287,8 +287,11 @@ class SerializedPropertyStorage:
             if hex(value.value_size()) == hex(0x0):
                 break
 
-            result.append(value)
-            start += value.value_size()
+            end = start + value.value_size()
+            result.append(
+                serialized_property_value_class(self._raw[start:end], self._text_processor)
+            )
+            start = end
 
         return result
 
@@ -318,8 +321,9 @@ class Metadata(LnkExtraBase):
             if hex(storage.storage_size()) == hex(0x0):
                 break
 
-            result.append(storage)
-            start += storage.storage_size()
+            end = start + storage.storage_size()
+            result.append(SerializedPropertyStorage(self._raw[start:end], self.text_processor))
+            start = end
 
         return result
 
-- 
2.43.0


From 3f723b21926801ee04c2419409c3bfda1678caa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 15/20] fix: report no device name if there is none

---
 LnkParse3/info/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/info/network.py b/LnkParse3/info/network.py
index 97975fa..c0372c8 100644
--- a/LnkParse3/info/network.py
+++ b/LnkParse3/info/network.py
@@ -166,7 +166,7 @@ class Network(LnkInfo):
         return text
 
     def device_name(self):
-        if self.net_name_offset() > 20:
+        if self.net_name_offset() > 20 or not self.device_name_offset():
             return None
 
         start = self.common_network_relative_link_offset()
-- 
2.43.0


From 13b39dfe95646ae84b01c8433bd1b7fcfa248564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 16/20] fix: read the shim layer name as a Unicode string

---
 LnkParse3/extra/shim_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra/shim_layer.py b/LnkParse3/extra/shim_layer.py
index fe3d03b..43f36ca 100644
--- a/LnkParse3/extra/shim_layer.py
+++ b/LnkParse3/extra/shim_layer.py
@@ -22,7 +22,7 @@ class ShimLayer(LnkExtraBase):
     def layer_name(self):
         start = 8
         binary = self._raw[start:]
-        text = self.text_processor.read_string(binary)
+        text = self.text_processor.read_unicode_string(binary)
         return text
 
     def as_dict(self):
-- 
2.43.0


From efd2d46ac2aa09ec19e9eafc8fd9a86d5944ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 17/20] fix: do not crash if the declared header size is too
 small

---
 LnkParse3/lnk_header.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_header.py b/LnkParse3/lnk_header.py
index e27d723..8be5233 100644
--- a/LnkParse3/lnk_header.py
+++ b/LnkParse3/lnk_header.py
@@ -299,7 +299,8 @@ class LnkHeader:
         self._lnk_header = {}
         self._stash = {}
 
-        self._raw = self._raw[: self.size()]
+        # All fields have a fixed position, even if the declared size is too small.
+        self._raw = self._raw[: max(self.size(), 76)]
 
     @must_be(int("0x0000004C", 16))
     def size(self):
-- 
2.43.0


From f6a59543e08cbcd547c572de6e3668ff2f7dca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:32 +0000
Subject: [PATCH 18/20] fix: name network providers by their documented type
 values

---
 LnkParse3/info/network.py | 82 ++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 40 deletions(-)

diff --git a/LnkParse3/info/network.py b/LnkParse3/info/network.py
index c0372c8..9f9aadc 100644
--- a/LnkParse3/info/network.py
+++ b/LnkParse3/info/network.py
@@ -38,47 +38,49 @@ from LnkParse3.lnk_info import LnkInfo
 
 class Network(LnkInfo):
     NETWORK_PROVIDER_TYPES = {
-        "0x1A000": "WNNC_NET_AVID",
-        "0x1B000": "WNNC_NET_DOCUSPACE",
-        "0x1C000": "WNNC_NET_MANGOSOFT",
-        "0x1D000": "WNNC_NET_SERNET",
-        "0X1E000": "WNNC_NET_RIVERFRONT1",
-        "0x1F000": "WNNC_NET_RIVERFRONT2",
+        # Undocumented, but reported since the first versions.
         "0x20000": "WNNC_NET_DECORB",
-        "0x21000": "WNNC_NET_PROTSTOR",
-        "0x22000": "WNNC_NET_FJ_REDIR",
-        "0x23000": "WNNC_NET_DISTINCT",
-        "0x24000": "WNNC_NET_TWINS",
-        "0x25000": "WNNC_NET_RDR2SAMPLE",
-        "0x26000": "WNNC_NET_CSC",
-        "0x27000": "WNNC_NET_3IN1",
-        "0x29000": "WNNC_NET_EXTENDNET",
-        "0x2A000": "WNNC_NET_STAC",
-        "0x2B000": "WNNC_NET_FOXBAT",
-        "0x2C000": "WNNC_NET_YAHOO",
-        "0x2D000": "WNNC_NET_EXIFS",
-        "0x2E000": "WNNC_NET_DAV",
-        "0x2F000": "WNNC_NET_KNOWARE",
-        "0x30000": "WNNC_NET_OBJECT_DIRE",
-        "0x31000": "WNNC_NET_MASFAX",
-        "0x32000": "WNNC_NET_HOB_NFS",
-        "0x33000": "WNNC_NET_SHIVA",
-        "0x34000": "WNNC_NET_IBMAL",
-        "0x35000": "WNNC_NET_LOCK",
-        "0x36000": "WNNC_NET_TERMSRV",
-        "0x37000": "WNNC_NET_SRT",
-        "0x38000": "WNNC_NET_QUINCY",
-        "0x39000": "WNNC_NET_OPENAFS",
-        "0X3A000": "WNNC_NET_AVID1",
-        "0x3B000": "WNNC_NET_DFS",
-        "0x3C000": "WNNC_NET_KWNP",
-        "0x3D000": "WNNC_NET_ZENWORKS",
-        "0x3E000": "WNNC_NET_DRIVEONWEB",
-        "0x3F000": "WNNC_NET_VMWARE",
-        "0x40000": "WNNC_NET_RSFX",
-        "0x41000": "WNNC_NET_MFILES",
-        "0x42000": "WNNC_NET_MS_NFS",
-        "0x43000": "WNNC_NET_GOOGLE",
+        "0x1a0000": "WNNC_NET_AVID",
+        "0x1b0000": "WNNC_NET_DOCUSPACE",
+        "0x1c0000": "WNNC_NET_MANGOSOFT",
+        "0x1d0000": "WNNC_NET_SERNET",
+        "0x1e0000": "WNNC_NET_RIVERFRONT1",
+        "0x1f0000": "WNNC_NET_RIVERFRONT2",
+        "0x200000": "WNNC_NET_DECORB",
+        "0x210000": "WNNC_NET_PROTSTOR",
+        "0x220000": "WNNC_NET_FJ_REDIR",
+        "0x230000": "WNNC_NET_DISTINCT",
+        "0x240000": "WNNC_NET_TWINS",
+        "0x250000": "WNNC_NET_RDR2SAMPLE",
+        "0x260000": "WNNC_NET_CSC",
+        "0x270000": "WNNC_NET_3IN1",
+        "0x290000": "WNNC_NET_EXTENDNET",
+        "0x2a0000": "WNNC_NET_STAC",
+        "0x2b0000": "WNNC_NET_FOXBAT",
+        "0x2c0000": "WNNC_NET_YAHOO",
+        "0x2d0000": "WNNC_NET_EXIFS",
+        "0x2e0000": "WNNC_NET_DAV",
+        "0x2f0000": "WNNC_NET_KNOWARE",
+        "0x300000": "WNNC_NET_OBJECT_DIRE",
+        "0x310000": "WNNC_NET_MASFAX",
+        "0x320000": "WNNC_NET_HOB_NFS",
+        "0x330000": "WNNC_NET_SHIVA",
+        "0x340000": "WNNC_NET_IBMAL",
+        "0x350000": "WNNC_NET_LOCK",
+        "0x360000": "WNNC_NET_TERMSRV",
+        "0x370000": "WNNC_NET_SRT",
+        "0x380000": "WNNC_NET_QUINCY",
+        "0x390000": "WNNC_NET_OPENAFS",
+        "0x3a0000": "WNNC_NET_AVID1",
+        "0x3b0000": "WNNC_NET_DFS",
+        "0x3c0000": "WNNC_NET_KWNP",
+        "0x3d0000": "WNNC_NET_ZENWORKS",
+        "0x3e0000": "WNNC_NET_DRIVEONWEB",
+        "0x3f0000": "WNNC_NET_VMWARE",
+        "0x400000": "WNNC_NET_RSFX",
+        "0x410000": "WNNC_NET_MFILES",
+        "0x420000": "WNNC_NET_MS_NFS",
+        "0x430000": "WNNC_NET_GOOGLE",
     }
 
     def location(self):
-- 
2.43.0


From d01a231cf71cbbdf7c2c176b80aec4cf1748fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:37 +0000
Subject: [PATCH 19/20] fix: report the declared size of an unknown shell item

---
 LnkParse3/target/unknown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/target/unknown.py b/LnkParse3/target/unknown.py
index bb6f740..8143c55 100644
--- a/LnkParse3/target/unknown.py
+++ b/LnkParse3/target/unknown.py
@@ -9,5 +9,5 @@ class Unknown(LnkTargetBase):
 
     def as_item(self):
         item = super().as_item()
-        item["size"] = self.SIZE_OF_TARGET_SIZE + self.size()
+        item["size"] = self.size()
         return item
-- 
2.43.0


From eec675ad413bafa24c1e227726353af892e32c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:50 +0000
Subject: [PATCH 20/20] fix: leave out only the damaged items of a shell item
 block

---
 LnkParse3/extra/shell_item.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/LnkParse3/extra/shell_item.py b/LnkParse3/extra/shell_item.py
index 1dacea3..062ee34 100644
--- a/LnkParse3/extra/shell_item.py
+++ b/LnkParse3/extra/shell_item.py
@@ -1,4 +1,5 @@
 import warnings
+from struct import error as StructError  # noqa: N812
 
 from LnkParse3.extra.lnk_extra_base import LnkExtraBase
 from LnkParse3.lnk_targets import TargetFactory
@@ -42,15 +43,23 @@ class ShellItem(LnkExtraBase):
         rest = self._raw[8 : self.size()]
         while rest:
             factory = TargetFactory(indata=rest)
-            target_class = factory.target_class()
+            try:
+                target_class = factory.target_class()
+            except StructError as e:
+                warnings.warn(f"Error while parsing extra TargetID list: {e!r}")
+                break
 
             if not target_class:
                 # Empty or unknown target object.
                 break
 
-            target = target_class(indata=rest, cp=self.cp)
-
             size = factory.item_size()
+            try:
+                target = target_class(indata=rest, cp=self.cp)
+            except StructError as e:
+                warnings.warn(f"Error while parsing extra TargetID: {e!r}")
+                rest = rest[size:]
+                continue
             rest = rest[size:]
             yield target
 
@@ -63,6 +72,8 @@ class ShellItem(LnkExtraBase):
                 msg = f"Error while parsing extra TargetID `{target.name}` (KeyError {e})"
                 warnings.warn(msg)
                 continue
+            except StructError as e:
+                warnings.warn(f"Error while parsing extra TargetID `{target.name}` ({e!r})")
         return res
 
     def as_dict(self):
-- 
2.43.0

