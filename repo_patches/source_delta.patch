From 9fea2d476c210ec459d74d8e05641cb122bb67c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:50 +0000
Subject: [PATCH 01/28] fix: do not crash on the shortcut target when its
 strings are missing

---
 LnkParse3/lnk_file.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 0691810..897a125 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -161,12 +161,14 @@ class LnkFile:
     def lnk_command(self):
         out = []
 
-        if self.has_relative_path():
-            relative_path = self.string_data.relative_path()
+        # The strings may be missing from a truncated file even if their flags are set.
+        relative_path = self.string_data.relative_path()
+        if self.has_relative_path() and relative_path is not None:
             out.append(list2cmdline([relative_path]))
 
-        if self.has_arguments():
-            out.append(self.string_data.command_line_arguments())
+        arguments = self.string_data.command_line_arguments()
+        if self.has_arguments() and arguments is not None:
+            out.append(arguments)
 
         return " ".join(out)
 
-- 
2.43.0


From 56f01ce5f316cecd936c1c0c1fafdde34f385a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:08 +0000
Subject: [PATCH 02/28] fix: keep the ID list readable when an item of it is
 truncated

---
 LnkParse3/extra/shell_item.py        | 14 ++++++++++----
 LnkParse3/lnk_targets.py             | 14 ++++++++++----
 LnkParse3/target/network_location.py | 25 +++++++++++--------------
 3 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/LnkParse3/extra/shell_item.py b/LnkParse3/extra/shell_item.py
index 1dacea3..38021b7 100644
--- a/LnkParse3/extra/shell_item.py
+++ b/LnkParse3/extra/shell_item.py
@@ -1,4 +1,5 @@
 import warnings
+from struct import error as StructError  # noqa: N812
 
 from LnkParse3.extra.lnk_extra_base import LnkExtraBase
 from LnkParse3.lnk_targets import TargetFactory
@@ -42,7 +43,11 @@ class ShellItem(LnkExtraBase):
         rest = self._raw[8 : self.size()]
         while rest:
             factory = TargetFactory(indata=rest)
-            target_class = factory.target_class()
+            try:
+                target_class = factory.target_class()
+            except StructError as e:
+                warnings.warn(f"Error while parsing ID list: {e!r}")
+                break
 
             if not target_class:
                 # Empty or unknown target object.
@@ -59,10 +64,11 @@ class ShellItem(LnkExtraBase):
         for target in self._id_list():
             try:
                 res.append(target.as_item())
-            except KeyError as e:
-                msg = f"Error while parsing extra TargetID `{target.name}` (KeyError {e})"
+            except (KeyError, StructError) as e:
+                msg = f"Error while parsing extra TargetID `{target.name}` ({e!r})"
                 warnings.warn(msg)
-                continue
+                # Always return at least target name when there is any problem.
+                res.append({"class": target.name})
         return res
 
     def as_dict(self):
diff --git a/LnkParse3/lnk_targets.py b/LnkParse3/lnk_targets.py
index 1639ba8..e57701b 100644
--- a/LnkParse3/lnk_targets.py
+++ b/LnkParse3/lnk_targets.py
@@ -1,4 +1,5 @@
 import warnings
+from struct import error as StructError  # noqa: N812
 from struct import unpack
 
 from LnkParse3.target_factory import TargetFactory
@@ -70,7 +71,11 @@ class LnkTargets:
         rest = self._raw_targets
         while rest:
             factory = TargetFactory(indata=rest)
-            target_class = factory.target_class()
+            try:
+                target_class = factory.target_class()
+            except StructError as e:
+                warnings.warn(f"Error while parsing ID list: {e!r}")
+                break
 
             if not target_class:
                 # Empty or unknown target object.
@@ -87,8 +92,9 @@ class LnkTargets:
         for target in self:
             try:
                 res.append(target.as_item())
-            except KeyError as e:
-                msg = f"Error while parsing TargetID `{target.name}` (KeyError {e})"
+            except (KeyError, StructError) as e:
+                msg = f"Error while parsing TargetID `{target.name}` ({e!r})"
                 warnings.warn(msg)
-                continue
+                # Always return at least target name when there is any problem.
+                res.append({"class": target.name})
         return res
diff --git a/LnkParse3/target/network_location.py b/LnkParse3/target/network_location.py
index bb46400..cc8ca30 100644
--- a/LnkParse3/target/network_location.py
+++ b/LnkParse3/target/network_location.py
@@ -32,17 +32,6 @@ class NetworkLocation(LnkTargetBase):
         self.name = "Network location"
         super().__init__(*args, **kwargs)
 
-        it = self._string_data()
-        self._location = next(it)
-
-        self._description = None
-        if self._has_description():
-            self._description = next(it)
-
-        self._comments = None
-        if self._has_comments():
-            self._comments = next(it)
-
     def as_item(self):
         item = super().as_item()
         item["flags"] = self.flags()
@@ -78,21 +67,29 @@ class NetworkLocation(LnkTargetBase):
         binary = self._raw_target[start:]
         return self.text_processor.read_strings(binary)
 
+    def _strings(self):
+        # Any of the strings may be missing from a truncated item.
+        it = self._string_data()
+        location = next(it)
+        description = next(it, None) if self._has_description() else None
+        comments = next(it, None) if self._has_comments() else None
+        return location, description, comments
+
     def location(self):
         """
         Contains the network name or UNC path
         ASCII string with end-of-string character
         """
-        return self._location
+        return self._strings()[0]
 
     def description(self):
         """
         ASCII string with end-of-string character
         """
-        return self._description
+        return self._strings()[1]
 
     def comments(self):
         """
         ASCII string with end-of-string character
         """
-        return self._comments
+        return self._strings()[2]
-- 
2.43.0


From d694ca94f0631c941174327139cdf61fccc224ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:24 +0000
Subject: [PATCH 03/28] fix: do not crash on a file which ends before its ID
 list

---
 LnkParse3/lnk_file.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 897a125..6ac711f 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -9,6 +9,8 @@ import datetime
 import json
 import re
 import textwrap
+import warnings
+from struct import error as StructError  # noqa: N812
 from subprocess import list2cmdline
 
 import yaml
@@ -73,8 +75,11 @@ class LnkFile:
         # Parse ID List
         self.targets = None
         if self.has_target_id_list():
-            self.targets = LnkTargets(indata=self.indata[index:], cp=self.cp)
-            index += self.targets.size()
+            try:
+                self.targets = LnkTargets(indata=self.indata[index:], cp=self.cp)
+                index += self.targets.size()
+            except StructError as e:
+                warnings.warn(f"Error while parsing ID list: {e!r}")
 
         # Parse Link Info
         self.info = None
-- 
2.43.0


From 4271f42e4466149d809cea445a1e5497a93e3798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:26 +0000
Subject: [PATCH 04/28] fix: skip the LinkInfo structure even if it is not
 parsed

---
 LnkParse3/lnk_file.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 6ac711f..f458f1d 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -83,12 +83,16 @@ class LnkFile:
 
         # Parse Link Info
         self.info = None
-        if self.has_link_info() and not self.force_no_link_info():
+        if self.has_link_info():
             info = LnkInfo(indata=self.indata[index:], cp=self.cp)
             info_class = InfoFactory(info).info_class()
-            if info_class:
+            if info_class and not self.force_no_link_info():
                 self.info = info_class(indata=self.indata[index:], cp=self.cp)
-                index += self.info.size()
+            # The structure is present even if it is ignored or of an unknown kind.
+            try:
+                index += info.size()
+            except StructError as e:
+                warnings.warn(f"Error while parsing Link info: {e!r}")
 
         # Parse String Data
         self.string_data = StringData(self, indata=self.indata[index:], cp=self.cp)
-- 
2.43.0


From 4d526f3da75864931a741d8f2d234771448726eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:47 +0000
Subject: [PATCH 05/28] fix: do not crash on a truncated LinkInfo structure

---
 LnkParse3/lnk_file.py | 102 +++++++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 47 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index f458f1d..dfe162b 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -207,6 +207,13 @@ class LnkFile:
             )
         )
 
+    def _read_link_info_field(self, getter):
+        try:
+            return getter()
+        except StructError as e:
+            warnings.warn(f"Error while parsing Link info: {getter.__name__} ({e!r})")
+            return None
+
     def get_json(self, get_all=False):
         res = {
             "size": self.size,
@@ -240,88 +247,89 @@ class LnkFile:
 
         res["link_info"] = {}
         if self.info:
+            read = self._read_link_info_field
             res["link_info"] = {
-                "link_info_size": self.info.size(),
-                "link_info_header_size": self.info.header_size(),
-                "link_info_flags": self.info.flags(),
-                "volume_id_offset": self.info.volume_id_offset(),
-                "local_base_path_offset": self.info.local_base_path_offset(),
-                "common_network_relative_link_offset": self.info.common_network_relative_link_offset(),
-                "common_path_suffix_offset": self.info.common_path_suffix_offset(),
+                "link_info_size": read(self.info.size),
+                "link_info_header_size": read(self.info.header_size),
+                "link_info_flags": read(self.info.flags),
+                "volume_id_offset": read(self.info.volume_id_offset),
+                "local_base_path_offset": read(self.info.local_base_path_offset),
+                "common_network_relative_link_offset": read(self.info.common_network_relative_link_offset),
+                "common_path_suffix_offset": read(self.info.common_path_suffix_offset),
             }
 
-            if self.info.local_base_path_offset():
-                res["link_info"]["local_base_path"] = self.info.local_base_path()
-            if self.info.common_path_suffix_offset():
-                res["link_info"]["common_path_suffix"] = self.info.common_path_suffix()
-            if self.info.local_base_path_offset_unicode():
+            if read(self.info.local_base_path_offset):
+                res["link_info"]["local_base_path"] = read(self.info.local_base_path)
+            if read(self.info.common_path_suffix_offset):
+                res["link_info"]["common_path_suffix"] = read(self.info.common_path_suffix)
+            if read(self.info.local_base_path_offset_unicode):
                 res["link_info"]["local_base_path_offset_unicode"] = (
-                    self.info.local_base_path_offset_unicode()
+                    read(self.info.local_base_path_offset_unicode)
                 )
-                res["link_info"]["local_base_path_unicode"] = self.info.local_base_path_unicode()
-            if self.info.common_path_suffix_offset_unicode():
+                res["link_info"]["local_base_path_unicode"] = read(self.info.local_base_path_unicode)
+            if read(self.info.common_path_suffix_offset_unicode):
                 res["link_info"]["common_path_suffix_offset_unicode"] = (
-                    self.info.common_path_suffix_offset_unicode()
+                    read(self.info.common_path_suffix_offset_unicode)
                 )
                 res["link_info"]["common_path_suffix_unicode"] = (
-                    self.info.common_path_suffix_unicode()
+                    read(self.info.common_path_suffix_unicode)
                 )
 
             res["link_info"]["location_info"] = {}
             if type(self.info).__name__ == "Local":
-                res["link_info"]["location"] = self.info.location()
+                res["link_info"]["location"] = read(self.info.location)
 
                 res["link_info"]["location_info"] = {
-                    "volume_id_size": self.info.volume_id_size(),
-                    "r_drive_type": self.info.r_drive_type(),
-                    "volume_label_offset": self.info.volume_label_offset(),
-                    "drive_serial_number": self.info.drive_serial_number(),
-                    "drive_type": self.info.drive_type(),
-                    "volume_label": self.info.volume_label(),
+                    "volume_id_size": read(self.info.volume_id_size),
+                    "r_drive_type": read(self.info.r_drive_type),
+                    "volume_label_offset": read(self.info.volume_label_offset),
+                    "drive_serial_number": read(self.info.drive_serial_number),
+                    "drive_type": read(self.info.drive_type),
+                    "volume_label": read(self.info.volume_label),
                 }
 
-                if self.info.common_network_relative_link():
+                if read(self.info.common_network_relative_link):
                     res["link_info"]["location_info"]["common_network_relative_link"] = (
-                        self.info.common_network_relative_link()
+                        read(self.info.common_network_relative_link)
                     )
-                if self.info.volume_label_unicode_offset():
+                if read(self.info.volume_label_unicode_offset):
                     res["link_info"]["location_info"]["volume_label_unicode_offset"] = (
-                        self.info.volume_label_unicode_offset()
+                        read(self.info.volume_label_unicode_offset)
                     )
                     res["link_info"]["location_info"]["volume_label_unicode"] = (
-                        self.info.volume_label_unicode()
+                        read(self.info.volume_label_unicode)
                     )
             elif type(self.info).__name__ == "Network":
-                res["link_info"]["location"] = self.info.location()
+                res["link_info"]["location"] = read(self.info.location)
                 res["link_info"]["location_info"] = {
-                    "common_network_relative_link_size": self.info.common_network_relative_link_size(),
-                    "common_network_relative_link_flags": self.info.common_network_relative_link_flags(),
-                    "net_name_offset": self.info.net_name_offset(),
-                    "device_name_offset": self.info.device_name_offset(),
-                    "r_network_provider_type": self.info.r_network_provider_type(),
+                    "common_network_relative_link_size": read(self.info.common_network_relative_link_size),
+                    "common_network_relative_link_flags": read(self.info.common_network_relative_link_flags),
+                    "net_name_offset": read(self.info.net_name_offset),
+                    "device_name_offset": read(self.info.device_name_offset),
+                    "r_network_provider_type": read(self.info.r_network_provider_type),
                 }
-                if self.info.network_provider_type():
+                if read(self.info.network_provider_type):
                     res["link_info"]["location_info"]["network_provider_type"] = (
-                        self.info.network_provider_type()
+                        read(self.info.network_provider_type)
                     )
-                if self.info.net_name_offset_unicode():
+                if read(self.info.net_name_offset_unicode):
                     res["link_info"]["location_info"]["net_name_offset_unicode"] = (
-                        self.info.net_name_offset_unicode()
+                        read(self.info.net_name_offset_unicode)
                     )
                     res["link_info"]["location_info"]["net_name_unicode"] = (
-                        self.info.net_name_unicode()
+                        read(self.info.net_name_unicode)
                     )
-                if self.info.device_name_offset_unicode():
+                if read(self.info.device_name_offset_unicode):
                     res["link_info"]["location_info"]["device_name_offset_unicode"] = (
-                        self.info.device_name_offset_unicode()
+                        read(self.info.device_name_offset_unicode)
                     )
                     res["link_info"]["location_info"]["device_name_unicode"] = (
-                        self.info.device_name_unicode()
+                        read(self.info.device_name_unicode)
                     )
-                if self.info.net_name():
-                    res["link_info"]["location_info"]["net_name"] = self.info.net_name()
-                if self.info.device_name():
-                    res["link_info"]["location_info"]["device_name"] = self.info.device_name()
+                if read(self.info.net_name):
+                    res["link_info"]["location_info"]["net_name"] = read(self.info.net_name)
+                if read(self.info.device_name):
+                    res["link_info"]["location_info"]["device_name"] = read(self.info.device_name)
 
         res["data"] = self.string_data.as_dict()
         res["extra"] = self.extras.as_dict()
-- 
2.43.0


From 3cfc9a696dfdd260e6376247b7bcebcd5cd1708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:47 +0000
Subject: [PATCH 06/28] fix: treat every value less than 4 as the terminal
 block

---
 LnkParse3/extra_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/extra_data.py b/LnkParse3/extra_data.py
index 2d71d5a..60c0f0d 100644
--- a/LnkParse3/extra_data.py
+++ b/LnkParse3/extra_data.py
@@ -35,7 +35,8 @@ class ExtraData:
                 warnings.warn(f"Error while parsing extra data: {e!r}")
                 break
 
-            if not size:
+            if size < 0x00000004:
+                # TerminalBlock
                 break
 
             data, rest = rest[:size], rest[size:]
-- 
2.43.0


From 2655dc0a175af8f6c8bcf0ed518492c153207048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:49 +0000
Subject: [PATCH 07/28] fix: do not report LNK size larger than the data

---
 LnkParse3/lnk_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index dfe162b..287afc3 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -107,8 +107,8 @@ class LnkFile:
         # Add size of the footer if present
         index += min(len(self.indata[index:]), 4)
 
-        # Final LNK size
-        self.size = index
+        # Final LNK size (sizes of damaged structures can exceed the data)
+        self.size = min(index, len(self.indata))
 
     def print_lnk_file(self, print_all=False):
         res = self.get_json(print_all)
-- 
2.43.0


From 13196fc459435efed888a4d93a3cd44c17c9450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:05 +0000
Subject: [PATCH 08/28] fix: reject data shorter than the header with
 LnkParserError

---
 LnkParse3/lnk_file.py   |  2 +-
 LnkParse3/lnk_header.py | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 287afc3..2409a31 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -27,7 +27,7 @@ class LnkFile:
     def __init__(self, fhandle=None, indata=None, cp=None, allow_terminal_blocks=True):
         if fhandle:
             self.indata = fhandle.read()
-        elif indata:
+        else:
             self.indata = indata
 
         self.cp = cp
diff --git a/LnkParse3/lnk_header.py b/LnkParse3/lnk_header.py
index e27d723..a13fb0d 100644
--- a/LnkParse3/lnk_header.py
+++ b/LnkParse3/lnk_header.py
@@ -49,6 +49,8 @@ structures.
 
 
 class LnkHeader:
+    HEADER_SIZE = 0x0000004C
+
     # https://docs.microsoft.com/en-us/windows/win32/api/winuser/nf-winuser-showwindow
     WINDOW_STYLES = {
         1: "SW_SHOWNORMAL",
@@ -299,7 +301,14 @@ class LnkHeader:
         self._lnk_header = {}
         self._stash = {}
 
-        self._raw = self._raw[: self.size()]
+        if len(self._raw) < self.HEADER_SIZE:
+            raise LnkParserError(
+                "Data too short for `LnkHeader`: %s bytes, %s expected"
+                % (len(self._raw), self.HEADER_SIZE)
+            )
+
+        # HeaderSize must be 0x4C, do not trust any other value.
+        self._raw = self._raw[: self.HEADER_SIZE]
 
     @must_be(int("0x0000004C", 16))
     def size(self):
-- 
2.43.0


From 6880b04adec52f581c4f58e5bfd6afeec3021ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:21 +0000
Subject: [PATCH 09/28] fix: do not crash on a malformed Darwin descriptor

---
 LnkParse3/utils.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/LnkParse3/utils.py b/LnkParse3/utils.py
index dcc1819..65a3707 100644
--- a/LnkParse3/utils.py
+++ b/LnkParse3/utils.py
@@ -24,6 +24,9 @@ def _quad_to_hex(quad):
     base_85 = (
         "!$%&'()*+,-.0123456789=?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{}~"
     )
+    if len(quad) != 5 or any(char not in base_85 for char in quad):
+        raise ValueError(f"Invalid quad of a packed UUID: {quad!r}")
+
     i = 5
     ddec = 0
     while i >= 1:
@@ -34,6 +37,9 @@ def _quad_to_hex(quad):
             ddec = ddec * 85
         i -= 1
 
+    if ddec > 0xFFFFFFFF:
+        raise ValueError(f"Invalid quad of a packed UUID: {quad!r}")
+
     return f"{ddec:08X}"
 
 
@@ -43,10 +49,14 @@ def parse_packed_uuid(text):
 
     # An implemetation is based on
     # https://metadataconsulting.blogspot.com/2019/12/CSharp-Convert-a-GUID-to-a-Darwin-Descriptor-and-back.html
-    quad1 = _quad_to_hex(text[0:5])
-    quad2 = _quad_to_hex(text[5:10])
-    quad3 = _quad_to_hex(text[10:15])
-    quad4 = _quad_to_hex(text[15:20])
+    try:
+        quad1 = _quad_to_hex(text[0:5])
+        quad2 = _quad_to_hex(text[5:10])
+        quad3 = _quad_to_hex(text[10:15])
+        quad4 = _quad_to_hex(text[15:20])
+    except ValueError as e:
+        warnings.warn(f"{e}")
+        return None
     quads = quad1 + quad2 + quad3 + quad4
 
     d1 = quads[:8]
-- 
2.43.0


From 77ae9a253154a329c68dde9effc74f74d6d8a88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:24 +0000
Subject: [PATCH 10/28] fix: read VT_I2 property as a 16-bit integer

---
 LnkParse3/extra/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra/metadata.py b/LnkParse3/extra/metadata.py
index 9e43634..f769356 100644
--- a/LnkParse3/extra/metadata.py
+++ b/LnkParse3/extra/metadata.py
@@ -143,7 +143,7 @@ class TypedPropertyValue:
         start = 4
         if self.value_type() == PropertyType.VT_I2:
             end = 6
-            return unpack("<i", self._raw[start:end])[0]
+            return unpack("<h", self._raw[start:end])[0]
         if self.value_type() == PropertyType.VT_LPWSTR:
             unicode_string_size = unpack("<I", self._raw[start : start + 4])[0] * 2
             unicode_string = self._raw[start + 4 : start + 4 + unicode_string_size]
-- 
2.43.0


From d70c6b1d9e4f735644d50e80851d7a5dfb3a3612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 11/28] fix: read name of the shim layer as a Unicode string

---
 LnkParse3/extra/shim_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra/shim_layer.py b/LnkParse3/extra/shim_layer.py
index fe3d03b..43f36ca 100644
--- a/LnkParse3/extra/shim_layer.py
+++ b/LnkParse3/extra/shim_layer.py
@@ -22,7 +22,7 @@ class ShimLayer(LnkExtraBase):
     def layer_name(self):
         start = 8
         binary = self._raw[start:]
-        text = self.text_processor.read_string(binary)
+        text = self.text_processor.read_unicode_string(binary)
         return text
 
     def as_dict(self):
-- 
2.43.0


From e4d19896754f552c0c74f38e7f78d8b86fc0eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:28 +0000
Subject: [PATCH 12/28] fix: read Unicode common path suffix from its offset

---
 LnkParse3/lnk_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_info.py b/LnkParse3/lnk_info.py
index 68e5b20..262c8ec 100644
--- a/LnkParse3/lnk_info.py
+++ b/LnkParse3/lnk_info.py
@@ -237,7 +237,7 @@ class LnkInfo:
         if not self.common_path_suffix_offset_unicode():
             return None
 
-        start = self.common_path_suffix_offset_unicode() + 4
+        start = self.common_path_suffix_offset_unicode()
 
         binary = self._raw[start:]
         # import pdb;pdb.set_trace()
-- 
2.43.0


From e4f49e486f4ff5d87cff6258d1dae9bddbf7716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 13/28] fix: do not read an ItemID behind its end

---
 LnkParse3/target/lnk_target_base.py | 2 +-
 LnkParse3/target/unknown.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/target/lnk_target_base.py b/LnkParse3/target/lnk_target_base.py
index e069341..53bfab2 100644
--- a/LnkParse3/target/lnk_target_base.py
+++ b/LnkParse3/target/lnk_target_base.py
@@ -43,7 +43,7 @@ class LnkTargetBase:
         self.text_processor = TextProcessor(cp=self.cp)
 
         start = self.SIZE_OF_TARGET_SIZE
-        end = start + self.size()
+        end = self.size()
         self._raw_target = self._raw[start:end]
 
     def get_item_shell_fs_folder(self, flags: int) -> str:
diff --git a/LnkParse3/target/unknown.py b/LnkParse3/target/unknown.py
index bb6f740..8143c55 100644
--- a/LnkParse3/target/unknown.py
+++ b/LnkParse3/target/unknown.py
@@ -9,5 +9,5 @@ class Unknown(LnkTargetBase):
 
     def as_item(self):
         item = super().as_item()
-        item["size"] = self.SIZE_OF_TARGET_SIZE + self.size()
+        item["size"] = self.size()
         return item
-- 
2.43.0


From 60b0e935ef7fccc30b19d9760a66fa5d44ed5648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:43 +0000
Subject: [PATCH 14/28] fix: parse extra data in linear time

---
 LnkParse3/extra_data.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/LnkParse3/extra_data.py b/LnkParse3/extra_data.py
index 60c0f0d..28b40cb 100644
--- a/LnkParse3/extra_data.py
+++ b/LnkParse3/extra_data.py
@@ -26,9 +26,10 @@ class ExtraData:
 
     def process(self):
         self.data = []
-        rest = self._raw
-        while rest:
-            factory = ExtraFactory(indata=rest)
+        start = 0
+        while start < len(self._raw):
+            # Slice only what is needed, copying the rest for every block is quadratic.
+            factory = ExtraFactory(indata=self._raw[start : start + 8])
             try:
                 size = factory.item_size()
             except StructError as e:
@@ -39,13 +40,16 @@ class ExtraData:
                 # TerminalBlock
                 break
 
-            data, rest = rest[:size], rest[size:]
+            data = self._raw[start : start + size]
+            start += size
 
             cls = factory.extra_class()
             if cls:
                 extra = cls(indata=data, cp=self.cp)
                 self.data.append(extra)
 
+        rest = self._raw[start:]
+
         # If there is data following the Terminal Block, we should take note of it and tell the user.
         if self.allow_terminal_blocks and len(rest) > 4 and unpack("<I", rest[:4])[0] < 0x00000004:
             extra = Terminal(indata=rest, cp=self.cp)
-- 
2.43.0


From 3e236b6da79f61b4210958fe15b9441a5ca3f342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 15/28] fix: do not read a property storage and its values
 behind their ends

---
 LnkParse3/extra/metadata.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/LnkParse3/extra/metadata.py b/LnkParse3/extra/metadata.py
index f769356..63f1171 100644
--- a/LnkParse3/extra/metadata.py
+++ b/LnkParse3/extra/metadata.py
@@ -283,12 +283,16 @@ class SerializedPropertyStorage:
             serialized_property_value_class = SerializedPropertyValueStringName
 
         while True:
-            value = serialized_property_value_class(self._raw[start:], self._text_processor)
-            if hex(value.value_size()) == hex(0x0):
+            # A value must not exceed its own size.
+            (size,) = unpack("<I", self._raw[start : start + 4])
+            if size == 0:
                 break
 
+            value = serialized_property_value_class(
+                self._raw[start : start + size], self._text_processor
+            )
             result.append(value)
-            start += value.value_size()
+            start += size
 
         return result
 
@@ -314,12 +318,16 @@ class Metadata(LnkExtraBase):
         result = []
 
         while True:
-            storage = SerializedPropertyStorage(self._raw[start:], self.text_processor)
-            if hex(storage.storage_size()) == hex(0x0):
+            # A storage must not exceed its own size.
+            (size,) = unpack("<I", self._raw[start : start + 4])
+            if size == 0:
                 break
 
+            storage = SerializedPropertyStorage(
+                self._raw[start : start + size], self.text_processor
+            )
             result.append(storage)
-            start += storage.storage_size()
+            start += size
 
         return result
 
-- 
2.43.0


From 1ac7386e641aac9f2b7ec35104bd3824607b0584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 16/28] fix: do not let strings of a shortcut forge lines of
 the text output

---
 LnkParse3/lnk_file.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 2409a31..069d3df 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -139,18 +139,12 @@ class LnkFile:
 
         res_json = make_keys_nice(res, uppercase=True)
 
-        # insert placeholders for empty lines
-        res_json = {"EMPTY_LINE_PLACEHOLDER" + k: v for k, v in res_json.items()}
+        def dump(data):
+            return yaml.dump(data, indent=3, sort_keys=False, width=132, allow_unicode=True)
 
-        # remove header key
-        new_res_json = res_json["EMPTY_LINE_PLACEHOLDERHEADER"]
-        res_json.pop("EMPTY_LINE_PLACEHOLDERHEADER")
-        new_res_json.update(res_json)
-
-        res_yaml = yaml.dump(new_res_json, indent=3, sort_keys=False, width=132, allow_unicode=True)
-
-        # replace palceholders for empty lines
-        res_yaml = res_yaml.replace("EMPTY_LINE_PLACEHOLDER", "\n")
+        # print header without its key and separate all other sections by empty lines
+        header = res_json.pop("HEADER")
+        res_yaml = "\n".join([dump(header)] + [dump({k: v}) for k, v in res_json.items()])
 
         print("Windows Shortcut Information:")
         print(textwrap.indent(res_yaml, "   "))
-- 
2.43.0


From 4737ff34e25a93f7b15ca3ebce953072af5eb441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 17/28] fix: do not report a device name which is not present

---
 LnkParse3/info/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LnkParse3/info/network.py b/LnkParse3/info/network.py
index 97975fa..cad66a3 100644
--- a/LnkParse3/info/network.py
+++ b/LnkParse3/info/network.py
@@ -168,6 +168,9 @@ class Network(LnkInfo):
     def device_name(self):
         if self.net_name_offset() > 20:
             return None
+        if not self.device_name_offset():
+            # The device name is not present.
+            return None
 
         start = self.common_network_relative_link_offset()
         start += self.device_name_offset()
-- 
2.43.0


From dd33b8a7b8dc917b2d673c2f4bb373a26c16e43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 18/28] fix: convert FILETIME exactly and as an unsigned value

---
 LnkParse3/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/LnkParse3/utils.py b/LnkParse3/utils.py
index 65a3707..f2ed9f8 100644
--- a/LnkParse3/utils.py
+++ b/LnkParse3/utils.py
@@ -1,6 +1,7 @@
 import sys
 import warnings
 from datetime import datetime
+from datetime import timedelta
 from datetime import timezone
 from struct import unpack
 
@@ -95,18 +96,17 @@ def parse_filetime(binary):
     #   https://stackoverflow.com/questions/38878647/python-convert-filetime-to-datetime-for-dates-before-1970
     #   https://computerforensics.parsonage.co.uk/downloads/TheMeaningofLIFE.pdf
     try:
-        nanosec = unpack("<q", binary)[0]
+        # An unsigned number of 100-nanosecond intervals since January 1, 1601.
+        intervals = unpack("<Q", binary)[0]
 
-        if nanosec == 0:
+        if intervals == 0:
             # If the date is 0 it means that the file has been created in an
             # application, then saved from it, and never ever opened.
             return None
 
-        epoch_as_filetime = 116444736000000000
-        hundreds_of_nanoseconds = 10000000
-
-        timestamp = (nanosec - epoch_as_filetime) / hundreds_of_nanoseconds
-        return datetime.fromtimestamp(timestamp, tz=timezone.utc)
+        # Floats are not able to hold the whole range of FILETIME precisely.
+        microseconds = (intervals + 5) // 10
+        return datetime(1601, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=microseconds)
     except (OSError, OverflowError, ValueError):
         if sys.version_info < (3, 8, 0):
             # HACK for older versions for bytes.hex()
-- 
2.43.0


From c55ba27c00b0de7970eac2e328f645fe12875460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 19/28] fix: read identifier of the Control panel item from its
 offset

---
 LnkParse3/target/control_panel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/target/control_panel.py b/LnkParse3/target/control_panel.py
index 2532f13..6c64022 100644
--- a/LnkParse3/target/control_panel.py
+++ b/LnkParse3/target/control_panel.py
@@ -9,7 +9,7 @@ from LnkParse3.target.lnk_target_base import LnkTargetBase
 | ClassTypeIndicator == 0x70/71 |             Unknown                |
 ----------------------------------------------------------------------
 |                           Unknown                                  |
-|                             12 B                                   |
+|                             10 B                                   |
 ----------------------------------------------------------------------
 |              <GUID> ControlPanelItemIdentifier                     |
 |                             16 B                                   |
@@ -25,7 +25,7 @@ class ControlPanel(LnkTargetBase):
 
     @uuid
     def control_panel_item_identifier(self):
-        start, end = 14, 30
+        start, end = 12, 28
         return self._raw_target[start:end]
 
     def as_item(self):
-- 
2.43.0


From eaefd6680f7ec0093aa76b42cd5bd9e94d58c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 20/28] fix: parse ID lists in linear time

---
 LnkParse3/extra/shell_item.py | 14 ++++++++------
 LnkParse3/lnk_targets.py      | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/LnkParse3/extra/shell_item.py b/LnkParse3/extra/shell_item.py
index 38021b7..01f23e4 100644
--- a/LnkParse3/extra/shell_item.py
+++ b/LnkParse3/extra/shell_item.py
@@ -40,9 +40,11 @@ class ShellItem(LnkExtraBase):
         |         TerminalID           |
         --------------------------------
         """
-        rest = self._raw[8 : self.size()]
-        while rest:
-            factory = TargetFactory(indata=rest)
+        raw = self._raw[8 : self.size()]
+        start = 0
+        while start < len(raw):
+            # Slice only what is needed, copying the rest for every item is quadratic.
+            factory = TargetFactory(indata=raw[start : start + 3])
             try:
                 target_class = factory.target_class()
             except StructError as e:
@@ -53,10 +55,10 @@ class ShellItem(LnkExtraBase):
                 # Empty or unknown target object.
                 break
 
-            target = target_class(indata=rest, cp=self.cp)
-
             size = factory.item_size()
-            rest = rest[size:]
+            target = target_class(indata=raw[start : start + max(size, 2)], cp=self.cp)
+
+            start += size
             yield target
 
     def id_list(self):
diff --git a/LnkParse3/lnk_targets.py b/LnkParse3/lnk_targets.py
index e57701b..d010902 100644
--- a/LnkParse3/lnk_targets.py
+++ b/LnkParse3/lnk_targets.py
@@ -68,9 +68,11 @@ class LnkTargets:
         |         TerminalID           |
         --------------------------------
         """
-        rest = self._raw_targets
-        while rest:
-            factory = TargetFactory(indata=rest)
+        raw = self._raw_targets
+        start = 0
+        while start < len(raw):
+            # Slice only what is needed, copying the rest for every item is quadratic.
+            factory = TargetFactory(indata=raw[start : start + 3])
             try:
                 target_class = factory.target_class()
             except StructError as e:
@@ -81,10 +83,10 @@ class LnkTargets:
                 # Empty or unknown target object.
                 break
 
-            target = target_class(indata=rest, cp=self.cp)
-
             size = factory.item_size()
-            rest = rest[size:]
+            target = target_class(indata=raw[start : start + max(size, 2)], cp=self.cp)
+
+            start += size
             yield target
 
     def as_list(self):
-- 
2.43.0


From 74a3787d2433bf8f18f31ad9f9eba68ed0df99bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:56 +0000
Subject: [PATCH 21/28] fix: do not take the rest of a truncated LinkInfo for
 string data

---
 LnkParse3/lnk_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 069d3df..b2e9e3d 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -93,6 +93,8 @@ class LnkFile:
                 index += info.size()
             except StructError as e:
                 warnings.warn(f"Error while parsing Link info: {e!r}")
+                # What is left of it must not be taken for the following structures.
+                index = len(self.indata)
 
         # Parse String Data
         self.string_data = StringData(self, indata=self.indata[index:], cp=self.cp)
-- 
2.43.0


From 526d9d30cac2cf2691eec6535493c97cb71f565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:29 +0000
Subject: [PATCH 22/28] fix: keep the last character of a Darwin feature name
 without a terminator

---
 LnkParse3/extra/darwin.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/extra/darwin.py b/LnkParse3/extra/darwin.py
index 7a2aaf8..4b3b67a 100644
--- a/LnkParse3/extra/darwin.py
+++ b/LnkParse3/extra/darwin.py
@@ -1,3 +1,5 @@
+import warnings
+
 from LnkParse3.decorators import packed_uuid
 from LnkParse3.extra.lnk_extra_base import LnkExtraBase
 
@@ -67,8 +69,11 @@ class Darwin(LnkExtraBase):
         # None of these characters should be located in a packed GUID.
         # If the character is not found, `find` returns `-1`, i.e. by using max
         # we want to get the one which is present.
-        # An absence of both characters leads to an exception.
         terminator = max(data.find(">"), data.find("<"))
+        if terminator == -1:
+            # Malformed data, do not lose the last character of the name at least.
+            warnings.warn(f"Missing terminator of a feature name: `{data}`")
+            terminator = len(data)
         if terminator == start:
             # If the terminator is found but is the same as the start position,
             # there is no feature name.
-- 
2.43.0


From bc783f1fce3a29c0fb2412715dfe26d0e2935a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:47 +0000
Subject: [PATCH 23/28] fix: answer extension_block() of a root folder item

---
 LnkParse3/target/root_folder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/target/root_folder.py b/LnkParse3/target/root_folder.py
index 17c0e81..c388e1f 100644
--- a/LnkParse3/target/root_folder.py
+++ b/LnkParse3/target/root_folder.py
@@ -75,7 +75,7 @@ class RootFolder(LnkTargetBase):
         return guid
 
     def extension_block(self):
-        if self.item_id_size() > 20:
+        if self.size() > 20:
             # TODO: Extension block
             return
         return
-- 
2.43.0


From 00693727a4da793f7696458c388634b9ef418407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:49 +0000
Subject: [PATCH 24/28] fix: answer volume_identifier() of a volume item with a
 name

---
 LnkParse3/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LnkParse3/utils.py b/LnkParse3/utils.py
index f2ed9f8..343f8b9 100644
--- a/LnkParse3/utils.py
+++ b/LnkParse3/utils.py
@@ -7,6 +7,9 @@ from struct import unpack
 
 
 def parse_uuid(binary):
+    if binary is None:
+        return None
+
     # UUID variants
     # https://docs.microsoft.com/en-us/openspecs/windows_protocols/ms-dtyp/49e490b8-f972-45d6-a3a4-99f924998d97
     # Also see Java implementation (mslinks)
-- 
2.43.0


From 6b94dbcc9d11c4b1f2771f6bb163a7a4c537caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:42 +0000
Subject: [PATCH 25/28] fix: answer None for a Unicode net or device name which
 is not present

---
 LnkParse3/info/network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/info/network.py b/LnkParse3/info/network.py
index cad66a3..196cf1e 100644
--- a/LnkParse3/info/network.py
+++ b/LnkParse3/info/network.py
@@ -126,7 +126,8 @@ class Network(LnkInfo):
         return unpack("<I", self._raw[start:end])[0]
 
     def net_name_unicode(self):
-        if self.net_name_offset() <= 20:
+        if not self.net_name_offset_unicode():
+            # The net name is not present.
             return None
 
         start = self.common_network_relative_link_offset()
@@ -144,7 +145,8 @@ class Network(LnkInfo):
         return unpack("<I", self._raw[start:end])[0]
 
     def device_name_unicode(self):
-        if self.net_name_offset() <= 20:
+        if not self.device_name_offset_unicode():
+            # The device name is not present.
             return None
 
         start = self.common_network_relative_link_offset()
-- 
2.43.0


From c40ae22f31b203eeaff5c211120c8a0f34ef9c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:34 +0000
Subject: [PATCH 26/28] fix: take no texts of LinkInfo from behind its end

---
 LnkParse3/lnk_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index b2e9e3d..afc10b3 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -87,7 +87,8 @@ class LnkFile:
             info = LnkInfo(indata=self.indata[index:], cp=self.cp)
             info_class = InfoFactory(info).info_class()
             if info_class and not self.force_no_link_info():
-                self.info = info_class(indata=self.indata[index:], cp=self.cp)
+                # All strings must fit within the extent of the structure.
+                self.info = info_class(indata=self.indata[index : index + info.size()], cp=self.cp)
             # The structure is present even if it is ignored or of an unknown kind.
             try:
                 index += info.size()
-- 
2.43.0


From 55f0e5aa1264c717f03cfc037fedea28bd0587a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:49 +0000
Subject: [PATCH 27/28] fix: text output failed on characters which the
 encoding of the output does not have

---
 LnkParse3/lnk_file.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index afc10b3..83fa414 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -8,6 +8,7 @@ import argparse
 import datetime
 import json
 import re
+import sys
 import textwrap
 import warnings
 from struct import error as StructError  # noqa: N812
@@ -142,8 +143,18 @@ class LnkFile:
 
         res_json = make_keys_nice(res, uppercase=True)
 
-        def dump(data):
-            return yaml.dump(data, indent=3, sort_keys=False, width=132, allow_unicode=True)
+        # characters which the output is not able to show are escaped
+        encoding = getattr(sys.stdout, "encoding", None) or "utf-8"
+        errors = getattr(sys.stdout, "errors", None) or "strict"
+
+        def dump(data, allow_unicode=True):
+            text = yaml.dump(data, indent=3, sort_keys=False, width=132, allow_unicode=allow_unicode)
+            try:
+                text.encode(encoding, errors)
+            except UnicodeEncodeError:
+                if allow_unicode:
+                    return dump(data, allow_unicode=False)
+            return text
 
         # print header without its key and separate all other sections by empty lines
         header = res_json.pop("HEADER")
-- 
2.43.0


From b6511eb07e1f2038dcfc744f345f4017eb674857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:31 +0000
Subject: [PATCH 28/28] fix: U+0085, U+2028 and U+2029 broke lines of the text
 output and were read back as white space

---
 LnkParse3/lnk_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 83fa414..8cce464 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -151,9 +151,12 @@ class LnkFile:
             text = yaml.dump(data, indent=3, sort_keys=False, width=132, allow_unicode=allow_unicode)
             try:
                 text.encode(encoding, errors)
+                # other line breaks of YAML would be read as white space
+                faithful = not re.search("[\x85\u2028\u2029]", text)
             except UnicodeEncodeError:
-                if allow_unicode:
-                    return dump(data, allow_unicode=False)
+                faithful = False
+            if allow_unicode and not faithful:
+                return dump(data, allow_unicode=False)
             return text
 
         # print header without its key and separate all other sections by empty lines
-- 
2.43.0

