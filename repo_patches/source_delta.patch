From 3916da7bb7fbb86e4c58d5f60dc37ccee84fd520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 01/75] fix: report truncated data as an error instead of
 reading short values

Reading past the end of the data silently produced zeros and shortened
strings. In Vfb.read_stream, a file without its end marker even caused an
endless loop, because the missing bytes were read as entries with ID 0.
---
 src/vfbLib/parsers/base.py     | 40 +++++++++++++++++++++++++++-------
 src/vfbLib/parsers/glyph.py    |  2 +-
 src/vfbLib/parsers/header.py   |  3 ++-
 src/vfbLib/parsers/mm.py       |  6 ++---
 src/vfbLib/parsers/truetype.py |  2 +-
 src/vfbLib/parsers/value.py    | 15 ++++++++++---
 src/vfbLib/vfb/entry.py        | 25 +++++++++++++++------
 7 files changed, 69 insertions(+), 24 deletions(-)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index 7586723..2519931 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -37,6 +37,30 @@ class StreamReader:
         self.encoding = "cp1252"
         self.stream: "BufferedIOBase" = BytesIO()
 
+    def read_bytes(self, size: int) -> bytes:
+        """
+        Return exactly `size` bytes from the stream.
+
+        Args:
+            size (int): The number of bytes to read from the stream
+
+        Raises:
+            EOFError: When the stream is already exhausted.
+            ValueError: When the stream ends before `size` bytes could be read, or when
+                the size is negative.
+
+        Returns:
+            bytes: The data
+        """
+        if size < 0:
+            raise ValueError(f"Invalid data size: {size}")
+        data = self.stream.read(size)
+        if len(data) < size:
+            if not data:
+                raise EOFError("Unexpected end of data")
+            raise ValueError(f"Unexpected end of data, {size} bytes expected: {data!r}")
+        return data
+
     def read_double(self) -> float:
         """
         Return a double-precision float from the stream.
@@ -56,7 +80,7 @@ class StreamReader:
         Returns:
             tuple[float]: The tuple of floats
         """
-        return unpack(num * "d", self.stream.read(num * double_size))
+        return unpack(num * "d", self.read_bytes(num * double_size))
 
     def read_int8(self) -> int:
         """
@@ -66,7 +90,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int8_size), byteorder="little", signed=True
+            self.read_bytes(int8_size), byteorder="little", signed=True
         )
 
     def read_int16(self) -> int:
@@ -77,7 +101,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int16_size), byteorder="little", signed=True
+            self.read_bytes(int16_size), byteorder="little", signed=True
         )
 
     def read_int32(self) -> int:
@@ -88,7 +112,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int32_size), byteorder="little", signed=True
+            self.read_bytes(int32_size), byteorder="little", signed=True
         )
 
     def read_str(self, size: int) -> str:
@@ -104,7 +128,7 @@ class StreamReader:
         """
         if size == 0:
             return ""
-        return self.stream.read(size).decode(self.encoding)
+        return self.read_bytes(size).decode(self.encoding)
 
     def read_str_with_len(self) -> str:
         """
@@ -135,7 +159,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int8_size), byteorder="little", signed=False
+            self.read_bytes(int8_size), byteorder="little", signed=False
         )
 
     def read_uint16(self) -> int:
@@ -146,7 +170,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int16_size), byteorder="little", signed=False
+            self.read_bytes(int16_size), byteorder="little", signed=False
         )
 
     def read_uint32(self) -> int:
@@ -157,7 +181,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int32_size), byteorder="little", signed=False
+            self.read_bytes(int32_size), byteorder="little", signed=False
         )
 
     def read_value(self, signed: bool = True) -> int:
diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 89d9c3d..6a82c94 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -281,7 +281,7 @@ class GlyphParser(BaseParser):
                 case 0x2B:
                     # Instructions
                     num_bytes = self.read_value(signed=False)
-                    instructions = self.stream.read(num_bytes)
+                    instructions = self.read_bytes(num_bytes)
                     p = Program()
                     p.fromBytecode(instructions)
                     imported["instructions"] = p.getAssembly()
diff --git a/src/vfbLib/parsers/header.py b/src/vfbLib/parsers/header.py
index 1c0db07..7cbbd9b 100644
--- a/src/vfbLib/parsers/header.py
+++ b/src/vfbLib/parsers/header.py
@@ -43,6 +43,7 @@ class VfbHeaderParser(StreamReader):
         }
 
         data_offset = self.read_uint32()
-        self.stream.seek(data_offset)
+        # Skip the padding
+        self.read_bytes(data_offset - 12)
 
         return header
diff --git a/src/vfbLib/parsers/mm.py b/src/vfbLib/parsers/mm.py
index 5d3d851..d6c04a0 100644
--- a/src/vfbLib/parsers/mm.py
+++ b/src/vfbLib/parsers/mm.py
@@ -7,14 +7,14 @@ class AnisotropicInterpolationsParser(BaseParser):
         # The graph used for anisotropic interpolation maps, for all axes.
         values = []
         while True:
-            axis_values = []
             try:
                 n = self.read_value()
-                axis_values = [(self.read_value(), self.read_value()) for _ in range(n)]
-                values.append(axis_values)
             except EOFError:
                 return values
 
+            axis_values = [(self.read_value(), self.read_value()) for _ in range(n)]
+            values.append(axis_values)
+
 
 class AxisMappingsCountParser(BaseParser):
     def _parse(self) -> list[int]:
diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 4d86367..bd2ff43 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -165,7 +165,7 @@ class TrueTypeStemsParser(BaseParser):
             for _ in range(num_stems):
                 width = self.read_value()
                 stem_name_length = self.read_uint8()
-                stem_name = self.stream.read(stem_name_length).decode(self.encoding)
+                stem_name = self.read_str(stem_name_length)
                 ppm6 = self.read_value()
 
                 direction.append(
diff --git a/src/vfbLib/parsers/value.py b/src/vfbLib/parsers/value.py
index babc68e..46c0ca3 100644
--- a/src/vfbLib/parsers/value.py
+++ b/src/vfbLib/parsers/value.py
@@ -6,6 +6,14 @@ if TYPE_CHECKING:
     from io import BufferedIOBase
 
 
+def _read_trail(stream: "BufferedIOBase", size: int) -> bytes:
+    # Read the remaining bytes of a multi-byte encoded value
+    data = stream.read(size)
+    if len(data) < size:
+        raise ValueError("Encoded value is incomplete")
+    return data
+
+
 def read_value(stream: "BufferedIOBase", signed=True) -> int:
     """
     Read an encoded value from the stream, decode it to integer and return it.
@@ -24,6 +32,7 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
         ValueError: When the byte that was read from the stream is < 0x20.
         ValueError: When the byte that was read from the stream has any other undefined
             value.
+        ValueError: When the stream ends in the middle of the encoded value.
 
     Returns:
         int: The decoded value.
@@ -41,13 +50,13 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
 
     elif val <= 0xFA:
         # 108 to 1131, represented by 2 bytes
-        val2 = int.from_bytes(stream.read(int8_size), byteorder="little")
+        val2 = int.from_bytes(_read_trail(stream, int8_size), byteorder="little")
         # val - 0x8B + (val - 0xF7) * 0xFF + val2
         return 0x100 * val - 0xF694 + val2
 
     elif val <= 0xFE:
         # -108 to -1131, represented by 2 bytes
-        val2 = int.from_bytes(stream.read(int8_size), byteorder="little")
+        val2 = int.from_bytes(_read_trail(stream, int8_size), byteorder="little")
         # 0x8F - val - (val - 0xFB) * 0xFF - val2
         return -0x100 * val + 0xFA94 - val2
 
@@ -55,7 +64,7 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
         # 32 bit integer follows
         # FIXME: The Type1 spec says that it is always a signed int.
         decoded = int.from_bytes(
-            stream.read(int32_size), byteorder="big", signed=signed
+            _read_trail(stream, int32_size), byteorder="big", signed=signed
         )
         return decoded
 
diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 661c515..4b005ee 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -151,16 +151,23 @@ class VfbEntry(StreamReader):
     def _read_entry(self) -> int:
         """
         Read an entry from the stream and return its data size.
+
+        Raises:
+            EOFError: When the stream is exhausted, i.e. there are no more entries.
+            ValueError: When the stream ends in the middle of the entry header.
         """
         raw_id = self.read_uint16()
         self.id = raw_id & ~0x8000
 
-        if raw_id & 0x8000:
-            # Uses uint32 for data length
-            num_bytes = self.read_uint32()
-        else:
-            # Uses uint16 for data length
-            num_bytes = self.read_uint16()
+        try:
+            if raw_id & 0x8000:
+                # Uses uint32 for data length
+                num_bytes = self.read_uint32()
+            else:
+                # Uses uint16 for data length
+                num_bytes = self.read_uint16()
+        except EOFError as e:
+            raise ValueError(f"Unexpected end of data in entry {self.id}") from e
 
         return num_bytes
 
@@ -260,4 +267,8 @@ class VfbEntry(StreamReader):
             # In this case it can be calculated from the number of masters:
             size = 2 * int32_size + self.vfb.num_masters * 2
 
-        self.data = self.stream.read(size)
+        try:
+            self.data = self.read_bytes(size)
+        except EOFError as e:
+            # Only the end of the stream before an entry is a regular end of file
+            raise ValueError(f"Unexpected end of data in entry {self.id}") from e
-- 
2.43.0


From eb2f35339d92ff16eb0ec56fabb4e2f1a1496b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 02/75] fix: don't alter entries while reading and forget old
 state in Vfb.clear

The entries that are interpreted while reading were written back from their
interpreted values, which lost data they did not use. Reading another file
into the same Vfb object kept the glyphs, master count and platform of the
previous file.
---
 src/vfbLib/vfb/vfb.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 7166493..2a53af6 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -138,6 +138,15 @@ class Vfb:
         """
         self.header = VfbHeader()
         self.entries = []
+        self._glyphs = {}
+        self.glyph_order = []
+        self.num_masters = 0
+        self.ttStemsV_count = 0
+        self.ttStemsH_count = 0
+        self.writer_platform = "macos"
+        self.encoding = "utf-8"
+        self.ps_hinting_options = None
+        self.any_errors = False
 
     def compile(self) -> None:
         """
@@ -248,9 +257,11 @@ class Vfb:
                 break
 
             # Some info needs to be stored for later access, so we decompile a selection
-            # of entries right here.
+            # of entries right here. Their original binary data is put back afterwards, so
+            # that reading a file doesn't change what will be written.
 
             if entry is not None:
+                raw_data = entry.data
                 if entry.id == F.FLVersion:
                     entry.decompile()
                     if entry.data is not None:
@@ -278,6 +289,8 @@ class Vfb:
                         self.ttStemsV_count = len(entry.data.get("ttStemsV", []))
                         self.ttStemsH_count = len(entry.data.get("ttStemsH", []))
 
+                entry.data = raw_data
+
                 if entry.id not in self.drop_keys:
                     self.entries.append(entry)
 
-- 
2.43.0


From 8cd1890c62fcab3f3d9bdd057bbcebbaeed0a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 03/75] fix: compute the entry header and units per em from the
 current data

Both values were cached, so changing an entry after the first access wrote a
wrong size into the file, or used an outdated value.
---
 src/vfbLib/vfb/entry.py | 3 +--
 src/vfbLib/vfb/info.py  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 4b005ee..c603516 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
@@ -59,7 +58,7 @@ class VfbEntry(StreamReader):
             f"compiler: {self.compiler}>"
         )
 
-    @cached_property
+    @property
     def header(self) -> bytes:
         """The entry header.
 
diff --git a/src/vfbLib/vfb/info.py b/src/vfbLib/vfb/info.py
index f7fa52a..8e65aee 100644
--- a/src/vfbLib/vfb/info.py
+++ b/src/vfbLib/vfb/info.py
@@ -1,4 +1,3 @@
-from functools import cached_property
 from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
@@ -9,7 +8,7 @@ class VfbInfo:
     def __init__(self, vfb: "Vfb") -> None:
         self.parent = vfb
 
-    @cached_property
+    @property
     def unitsPerEm(self) -> int:
         for entry in self.parent.entries:
             if entry.key == "upm":
-- 
2.43.0


From 3de41674088666acea913953f261d70d9613e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 04/75] fix: round guide slopes and instance locations instead
 of truncating

The values are stored as integers scaled by 10000. Truncating the float product
changed many values by one when an entry was decompiled and compiled again.
---
 src/vfbLib/compilers/guides.py | 2 +-
 src/vfbLib/compilers/mm.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/guides.py b/src/vfbLib/compilers/guides.py
index 4265373..70d8fac 100644
--- a/src/vfbLib/compilers/guides.py
+++ b/src/vfbLib/compilers/guides.py
@@ -17,7 +17,7 @@ class GuidesCompiler(BaseCompiler):
             for guide in dir_guides:
                 for master_index in range(self.vfb.num_masters):
                     self.write_value(guide[master_index]["pos"])
-                    angle = int(tan(radians(guide[master_index]["angle"])) * 10000)
+                    angle = round(tan(radians(guide[master_index]["angle"])) * 10000)
                     self.write_value(angle)
 
 
diff --git a/src/vfbLib/compilers/mm.py b/src/vfbLib/compilers/mm.py
index cfa3611..fae8102 100644
--- a/src/vfbLib/compilers/mm.py
+++ b/src/vfbLib/compilers/mm.py
@@ -42,4 +42,4 @@ class PrimaryInstancesCompiler(BaseCompiler):
             name = instance["name"]
             self.write_str_with_len(name)
             for value in instance["values"]:
-                self.write_value(int(10000 * value))
+                self.write_value(round(10000 * value))
-- 
2.43.0


From b3cab9bf659c0197819811eb663b7d1a45e613e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 05/75] fix: write the signed PCLT values as signed

stroke_weight and width_type are read as signed values, but negative values
could not be compiled.
---
 src/vfbLib/compilers/pclt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/pclt.py b/src/vfbLib/compilers/pclt.py
index bd037eb..a0e964f 100644
--- a/src/vfbLib/compilers/pclt.py
+++ b/src/vfbLib/compilers/pclt.py
@@ -22,6 +22,6 @@ class PcltCompiler(BaseCompiler):
         for value in data["character_complement"]:
             self.write_uint8(value)
         self.write_str(data["file_name"], 6)
-        self.write_uint8(data["stroke_weight"])
-        self.write_uint8(data["width_type"])
+        self.write_int8(data["stroke_weight"])
+        self.write_int8(data["width_type"])
         self.write_uint8(data["serif_style"])
-- 
2.43.0


From 7e32e8092a2504e9419fb045c2c9fb7636d294c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 06/75] fix: keep unknown options when compiling

Options, option bits and mapping modes without a name are kept as numbers when
decompiling, but compiling them either failed or dropped them. The highest
TrueType option bit caused an endless loop.
---
 src/vfbLib/compilers/base.py     |  7 ++++++-
 src/vfbLib/compilers/options.py  |  9 ++++++---
 src/vfbLib/compilers/truetype.py | 11 +++++++----
 src/vfbLib/parsers/truetype.py   |  2 +-
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index 72c0fa9..b5f9458 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -271,7 +271,12 @@ class MappingModeCompiler(BaseCompiler):
     def _compile(self, data: "MappingModeDict") -> None:
         rev_map = {v: k for k, v in mapping_modes.items()}
         self.write_uint8(1)
-        self.write_value(rev_map[data["mapping_mode"]])
+        mapping_mode = data["mapping_mode"]
+        if mapping_mode in rev_map:
+            self.write_value(rev_map[mapping_mode])
+        else:
+            # Unknown modes are kept as numbers
+            self.write_value(int(mapping_mode))
         self.write_uint8(2)
         self.write_value(data["m2"])
         self.write_uint8(3)
diff --git a/src/vfbLib/compilers/options.py b/src/vfbLib/compilers/options.py
index 0f6c7cf..53f76af 100644
--- a/src/vfbLib/compilers/options.py
+++ b/src/vfbLib/compilers/options.py
@@ -9,9 +9,10 @@ if TYPE_CHECKING:
 
 
 class ExportOptionsCompiler(BaseCompiler):
-    def _compile(self, data: list[str]) -> None:
+    def _compile(self, data: list[str | int]) -> None:
         rev = {v: k for k, v in export_options.items()}
-        options = [rev[k] for k in data]
+        # Unknown bits are kept as numbers by the parser
+        options = [k if isinstance(k, int) else rev[k] for k in data]
         self.write_uint16(intListToBinary(options))
 
 
@@ -20,7 +21,9 @@ class FontOptionsCompiler(BaseCompiler):
         rev = {v: k for k, v in font_options.items()}
         for k, v in data.items():
             raw_key = rev.get(k)
-            assert raw_key is not None
+            if raw_key is None:
+                # Unknown options are keyed by their number
+                raw_key = int(k)
             match k:
                 case "auto_hinting_h_ratio" | "auto_hinting_v_ratio":
                     assert isinstance(v, float)
diff --git a/src/vfbLib/compilers/truetype.py b/src/vfbLib/compilers/truetype.py
index d05b29c..dbc83e7 100644
--- a/src/vfbLib/compilers/truetype.py
+++ b/src/vfbLib/compilers/truetype.py
@@ -22,12 +22,15 @@ def convert_flags_options_to_int(data: "TrueTypeInfoDict") -> int:
     value = intListToBinary(flags_list)
     options: tuple[str, ...]
     if options := tuple(head_flags_options["options"]):
-        option_bits = []
-        for k, v in tt_settings.items():
-            if v in options:
-                option_bits.append(k)
+        rev = {v: k for k, v in tt_settings.items()}
+        # Unknown options are named by their bit number
+        option_bits = {rev[o] if o in rev else int(o) for o in options}
 
         value += intListToBinary(option_bits) << 16
+
+    if value > 0x7FFFFFFF:
+        # The value is stored as a signed number
+        value -= 0x100000000
     return value
 
 
diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index bd2ff43..d989878 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -22,7 +22,7 @@ logger = logging.getLogger(__name__)
 
 def convert_int_to_flags_options(value: int) -> "FlagsOptionsDict":
     flags = binaryToIntList(value & 0xFFFF)
-    options = binaryToIntList(value >> 16)
+    options = binaryToIntList((value >> 16) & 0xFFFF)
     return {
         "flags": flags,
         "options": [tt_settings.get(i, str(i)) for i in options],
-- 
2.43.0


From ff2fcbf776ba2569e59c30e4afa031ea05261ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 07/75] fix: compile MM kern pairs in the structure that the
 parser returns

---
 src/vfbLib/compilers/fl3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/fl3.py b/src/vfbLib/compilers/fl3.py
index 5a42ba4..72e651d 100644
--- a/src/vfbLib/compilers/fl3.py
+++ b/src/vfbLib/compilers/fl3.py
@@ -1,4 +1,5 @@
 import logging
+from typing import Any
 
 from vfbLib.compilers.base import BaseCompiler
 
@@ -6,6 +7,8 @@ logger = logging.getLogger(__name__)
 
 
 class MMKernPairCompiler(BaseCompiler):
-    def _compile(self, data: list[int]) -> None:
-        for value in data:
+    def _compile(self, data: dict[str, Any]) -> None:
+        self.write_uint32(data["l"])
+        self.write_uint32(data["r"])
+        for value in data["values"]:
             self.write_int16(value)
-- 
2.43.0


From e9b8ac56ebaa3e3b3b8b638f18591b477b64a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 08/75] fix: write class flags as signed values, as they are
 read

---
 src/vfbLib/compilers/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index b5f9458..531a826 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -292,8 +292,8 @@ class OpenTypeKerningClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
+            self.write_value(flag1)
+            self.write_value(flag2)
 
 
 class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
@@ -302,6 +302,6 @@ class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2, flag3 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
-            self.write_value(flag3, signed=False)
+            self.write_value(flag1)
+            self.write_value(flag2)
+            self.write_value(flag3)
-- 
2.43.0


From f401e6935f5b30e283017ad527fd58a76f10e7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 09/75] fix: accept OpenType feature code that consists of
 empty lines only

---
 src/vfbLib/parsers/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index f5c809b..018367a 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -101,7 +101,7 @@ class OpenTypeStringParser(BaseParser):
 
         if len(lines) > 1:
             # Remove empty lines at the end, except one
-            while not lines[-1]:
+            while lines and not lines[-1]:
                 lines.pop()
         lines.append("")
         return lines
-- 
2.43.0


From 85fdc3a972294a664766caad5fae079228c86b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 10/75] fix: keep empty glyph names on compile, decode unnamed
 glyphs with guides

---
 src/vfbLib/compilers/glyph.py | 4 ++--
 src/vfbLib/parsers/glyph.py   | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 3ce4376..38476a0 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -199,8 +199,8 @@ class GlyphCompiler(BaseCompiler):
                 self.write_double(component["scaleY"][i])
 
     def _compile_glyph_name(self, data):
-        # Glyph name
-        if not (name := data.get("name")):
+        # Glyph name, which may be empty
+        if (name := data.get("name")) is None:
             return
 
         glyph_name = name.encode("cp1252")
diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 6a82c94..2bd026b 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -158,6 +158,7 @@ class GlyphParser(BaseParser):
         0f
         """
         self.glyphdata = GlyphData()
+        self.name = ""  # The name section may be missing
         start = unpack("<4B", self.stream.read(4))
         if start != (1, 9, 7, 1):
             logger.warning(f"Unexpected glyph constant: {start}")
-- 
2.43.0


From 81d1ccfa38cd0299c238242f3fe9cd96e8347b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 11/75] fix: invert bitmaps for the windows platform on compile

---
 src/vfbLib/compilers/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/bitmap.py b/src/vfbLib/compilers/bitmap.py
index a7b4fd0..a20f1f1 100644
--- a/src/vfbLib/compilers/bitmap.py
+++ b/src/vfbLib/compilers/bitmap.py
@@ -69,7 +69,7 @@ class BaseBitmapCompiler(BaseCompiler):
         # For the "windows" platform, the bitmap must be inverted.
         data = bitmap["data"]
         if self.vfb is not None and self.vfb.writer_platform == "windows":
-            data = [[~b - 0x100 for b in row] for row in data]
+            data = [[~b + 0x100 for b in row] for row in data]
 
         encoded = self._encode_bitmap(data)
         num_values = len(list(chain.from_iterable(encoded)))
-- 
2.43.0


From 7ebaa0d85859f2079c6eb34982749bb96bc2bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 12/75] fix: anchor colours are signed values, as in the parser

---
 src/vfbLib/compilers/glyph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 38476a0..e8912bf 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -40,8 +40,8 @@ class GlyphAnchorsSuppCompiler(BaseCompiler):
     def _compile(self, data: "list[AnchorPropertiesDict]") -> None:
         self.write_value(len(data), signed=False)
         for anchor in data:
-            self.write_value(anchor.get("hue", 0), signed=False)
-            self.write_value(anchor.get("data", 0), signed=False)
+            self.write_value(anchor.get("hue", 0))
+            self.write_value(anchor.get("data", 0))
 
 
 class GlyphGDEFCompiler(BaseCompiler):
-- 
2.43.0


From 9c7bc0f93b67540655091b41334937c84bbed8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 13/75] fix: damaged bitmap data is an error

---
 src/vfbLib/parsers/bitmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/parsers/bitmap.py b/src/vfbLib/parsers/bitmap.py
index fa97f89..86055c7 100644
--- a/src/vfbLib/parsers/bitmap.py
+++ b/src/vfbLib/parsers/bitmap.py
@@ -21,7 +21,7 @@ class BaseBitmapParser(BaseParser):
                 # The next n bytes are actually stored in the data
                 n = v + 1
                 if n > bytes_remaining:
-                    break
+                    raise ValueError("Bitmap data is truncated")
 
                 for _ in range(n):
                     i = self.read_uint8()
@@ -31,7 +31,7 @@ class BaseBitmapParser(BaseParser):
                 # The next n bytes are identical, read only one byte and repeat it
                 n = -v + 1
                 if bytes_remaining < 1:
-                    break
+                    raise ValueError("Bitmap data is truncated")
 
                 i = self.read_uint8()
                 chunk.append(i)
-- 
2.43.0


From 4ffba8f4fa07b461f2b8afbfb4bca2a2c864b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 14/75] fix: a bitmap without pixels is not an error

---
 src/vfbLib/parsers/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/bitmap.py b/src/vfbLib/parsers/bitmap.py
index 86055c7..71c905a 100644
--- a/src/vfbLib/parsers/bitmap.py
+++ b/src/vfbLib/parsers/bitmap.py
@@ -71,7 +71,7 @@ class BaseBitmapParser(BaseParser):
         nice = [
             data[j : j + bytes_per_row]  # noqa: E203
             for j in range(0, len(data), bytes_per_row)
-        ]
+        ] if data else []
         # fmt:on
 
         bitmap = BitmapDataDict(data=nice)
-- 
2.43.0


From 8fce5e7d9adbf4e9d1f37e20b2f1e51457f2d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 15/75] fix: an incomplete gasp range is an error

---
 src/vfbLib/parsers/truetype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index d989878..af952ca 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -43,7 +43,7 @@ class GaspParser(BaseParser):
                 "maxPpem": a,
                 "flags": b,
             }
-            for a, b in zip(it, it)
+            for a, b in zip(it, it, strict=True)
         ]
 
 
-- 
2.43.0


From 0c29e691cd07ff2c1c550eba9d09ddd768e04ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 16/75] fix: looking up glyphs by name does not empty them

---
 src/vfbLib/vfb/glyph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index bf32f84..c643dc7 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -33,7 +33,8 @@ class VfbGlyph:
         self._parent = parent
         self._glyph: UfoMasterGlyph | None = None
         self.master_index = 0
-        self.empty()
+        if self.entry.data is None:
+            self.empty()
 
     # UFO/cu2qu compatibility
 
-- 
2.43.0


From 9ef4e478029f2057d1d50da7fa861c4b1676ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 17/75] fix: glyphs looked up after compiling are decompiled
 again

---
 src/vfbLib/vfb/vfb.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 2a53af6..8f68120 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -202,7 +202,10 @@ class Vfb:
     def __getitem__(self, key: str) -> VfbGlyph:
         if not self._glyphs:
             self._decompile_glyphs()
-        return self._glyphs[key]
+        glyph = self._glyphs[key]
+        # The entry may have been compiled since the last access
+        glyph.entry.decompile()
+        return glyph
 
     def getGlyphMaster(self, key: str, master_index: int) -> VfbGlyphMaster:
         return VfbGlyphMaster(self[key], master_index)
@@ -230,7 +233,7 @@ class Vfb:
     def items(self) -> Iterable[tuple[str, VfbGlyph]]:
         if not self._glyphs:
             self._decompile_glyphs()
-        return self._glyphs.items()
+        return [(name, self[name]) for name in self._glyphs]
 
     def keys(self) -> Iterable[str]:
         if not self._glyphs:
-- 
2.43.0


From a6adc96c43daeb1b4b9ca73135d7304938b937b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 18/75] fix: entries with unknown ids can be compiled again

---
 src/vfbLib/vfb/entry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index c603516..fb4ec73 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -3,7 +3,7 @@ from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
 
-from vfbLib.compilers.base import BaseCompiler
+from vfbLib.compilers.base import BaseCompiler, HexStringCompiler
 from vfbLib.constants import parser_classes
 from vfbLib.enum import F
 from vfbLib.helpers import hexStr, int32_size
@@ -21,6 +21,8 @@ logger = logging.getLogger(__name__)
 
 
 FALLBACK_PARSER = BaseParser
+# Must be able to write what the FALLBACK_PARSER has read
+FALLBACK_COMPILER = HexStringCompiler
 
 
 class VfbEntry(StreamReader):
@@ -142,6 +144,7 @@ class VfbEntry(StreamReader):
                     f"Falling back to parser {FALLBACK_PARSER} for ID {self._id}"
                 )
                 self.parser = FALLBACK_PARSER
+                self.compiler = FALLBACK_COMPILER
             else:
                 self.key, self.parser, self.compiler = entry_info
                 if self.parser is not None:
-- 
2.43.0


From a3ac40efe4ce902965c5afa04d19362cda4a3aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 19/75] fix: cut off unicode ranges are an error

---
 src/vfbLib/parsers/numeric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/parsers/numeric.py b/src/vfbLib/parsers/numeric.py
index 19a5cb4..c2bbdd8 100644
--- a/src/vfbLib/parsers/numeric.py
+++ b/src/vfbLib/parsers/numeric.py
@@ -115,9 +115,9 @@ class SignedInt32Parser(BaseParser):
 
 class UnicodeRangesParser(BaseParser):
     """
-    A parser that reads data as uint64 and returns it as a list of bit numbers.
+    A parser that reads data as uint128 and returns it as a list of bit numbers.
     """
 
     def _parse(self):
-        result = int.from_bytes(self.stream.read(64), byteorder="little", signed=False)
+        result = int.from_bytes(self.read_bytes(16), byteorder="little", signed=False)
         return binaryToIntList(result)
-- 
2.43.0


From 0d63af7c40f12d0b096239526dd818fbae08eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 20/75] fix: a damaged number of masters does not exhaust the
 memory

---
 src/vfbLib/parsers/glyph.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 2bd026b..bd49491 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -386,7 +386,17 @@ class GlyphParser(BaseParser):
         # glyphdata["num_node_values"] = num_node_values
 
         num_nodes = self.read_value()
+        # Each node needs at least 2 bytes per master. Don't allocate anything for a
+        # damaged number of masters that the data can't contain.
+        remaining = self.stream.getbuffer().nbytes - self.stream.tell()
+        if num_nodes > 0 and num_masters > remaining:
+            raise ValueError(f"Unexpected end of data in outlines: {num_masters} masters")
+
         segments: list[MMNode] = []
+        if num_nodes <= 0:
+            target["nodes"] = segments
+            return num_masters
+
         x = [0 for _ in range(num_masters)]
         y = [0 for _ in range(num_masters)]
 
-- 
2.43.0


From c0025c9758295522baac1fb23bed63ef2918ab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 21/75] fix: glyphs after a damaged glyph don't silently go
 missing

---
 src/vfbLib/vfb/vfb.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 8f68120..e35b01a 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -157,6 +157,10 @@ class Vfb:
             e.compile()
 
     def _decompile_glyphs(self) -> None:
+        # Only keep the result when all glyphs could be decompiled, otherwise the glyphs
+        # after a damaged one would appear to be missing on the next access
+        glyphs: dict[str, VfbGlyph] = {}
+        glyph_order: list[str] = []
         name = None
         for entry in self.entries:
             match entry.id:
@@ -165,13 +169,13 @@ class Vfb:
                     name = glyph.decompile()
                     i = 1
                     # Disambiguate duplicate names
-                    if name in self._glyphs:
+                    if name in glyphs:
                         logger.error(f"VFB contains duplicate glyph name: {name}")
-                        while f"{name}#{i}" in self._glyphs:
+                        while f"{name}#{i}" in glyphs:
                             i += 1
                         name = f"{name}#{i}"
-                    self._glyphs[name] = glyph
-                    self.glyph_order.append(name)
+                    glyphs[name] = glyph
+                    glyph_order.append(name)
                 case G.Links:
                     # We need to store the links of the glyph for converting links to
                     # PS hints before writing charstrings
@@ -179,7 +183,7 @@ class Vfb:
                     if name is None:
                         logger.error("Links entry without preceding glyph entry")
                     else:
-                        self._glyphs[name].links_entry = entry
+                        glyphs[name].links_entry = entry
                 case G.HintingOptions:
                     # We need this to decide if we should generate hstem3/vstem3 hints
                     entry.decompile()
@@ -188,11 +192,13 @@ class Vfb:
                             "Glyph Hinting Options entry without preceding glyph entry"
                         )
                     else:
-                        self._glyphs[name].ps_hinting_options = entry
+                        glyphs[name].ps_hinting_options = entry
                 case F.PostScriptHintingOptions:
                     # We need this to decide if we should generate flex hints
                     entry.decompile()
                     self.ps_hinting_options = entry
+        self._glyphs = glyphs
+        self.glyph_order = glyph_order
 
     def __contains__(self, key: str) -> bool:
         if not self._glyphs:
-- 
2.43.0


From 75bd87cdf7c57f9269813a470cb2229992dfec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 22/75] fix: a failing save doesn't truncate the existing VFB
 file

Vfb.write opened the target file before compiling the entries.
---
 src/vfbLib/vfb/vfb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index e35b01a..ac79302 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -1,5 +1,6 @@
 import logging
 from collections.abc import Iterable
+from io import BytesIO
 from pathlib import Path
 from time import time
 from typing import TYPE_CHECKING, Any
@@ -338,8 +339,11 @@ class Vfb:
         """
         Compile any entries with changes, and write the VFB to out_path.
         """
+        # Compile everything before touching an existing file
+        buffer = BytesIO()
+        self.write_bytes(buffer)
         with open(out_path, "wb") as vfb:
-            self.write_bytes(vfb)
+            vfb.write(buffer.getvalue())
 
     def write_bytes(self, buffer: "BufferedIOBase") -> None:
         """
-- 
2.43.0


From 4fff324bc33c98d253d57a4dec6b1d93d946f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 23/75] fix: check all output files before writing UFOs

JSON output replaced existing files without the force option, and an existing
designspace or master UFO was only noticed after other masters had been written.
---
 src/vfbLib/ufo/builder.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index ed8bd27..6d7ce25 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -907,11 +907,19 @@ class VfbToUfoBuilder:
         # Build UFOs and DesignSpace
         ufos, ds = self.get_ufos_designspace(out_path, silent)
 
+        master_paths = [self.get_master_path(out_path, i) for i in range(len(ufos))]
+        ds_path = out_path.with_suffix(".designspace")
+
+        # Refuse before writing anything
+        if not overwrite:
+            for path in master_paths + ([ds_path] if ds else []):
+                if path.exists():
+                    raise FileExistsError(str(path))
+
         # Write the master UFOs
         strct = UFOFileStructure.ZIP if ufoz else None
         indent = None if ufoz else 2
-        for index, ufo in enumerate(ufos):
-            master_path = self.get_master_path(out_path, index)
+        for master_path, ufo in zip(master_paths, ufos):
             if json:
                 ufo.json_dump(master_path, indent=indent, sort_keys=False)
             else:
@@ -923,10 +931,6 @@ class VfbToUfoBuilder:
 
         # Write the Designspace
         if ds:
-            ds_path = out_path.with_suffix(".designspace")
-            if ds_path.exists():
-                if not overwrite:
-                    raise FileExistsError(str(ds_path))
             if not silent:
                 print(f"Writing designspace: {ds_path}")
             ds.write(str(ds_path))
-- 
2.43.0


From a39c35812c072e7717232492fb4a476e68dc510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 24/75] fix: write one UFO per master stored in the VFB

The number of masters was guessed as the square of the number of axes, which gave 9
UFOs for 3 axes and only one for a 1-axis font without master names.
---
 src/vfbLib/ufo/builder.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 6d7ce25..15df4ad 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -102,6 +102,7 @@ class VfbToUfoBuilder:
         self.mm_kerning: "UfoMMKerning" = {}
         self.kerning: dict[tuple[str, str], int] = {}
         self.lib: dict[str, Any] = {}
+        self.num_masters: int = 0
         self.masters: list[str] = []
         self.master_locations: dict[int, list[float]] = {}
         self.masters_ps_info: list[dict] = []
@@ -566,7 +567,7 @@ class VfbToUfoBuilder:
                 case F.GlobalGuideProperties:
                     self.guide_properties = data
                 case F.MasterCount:
-                    self.num_masters: int = data
+                    self.num_masters = data
                 case M.MasterName:
                     self.masters.append(data)
                 case M.MasterLocation:
@@ -681,10 +682,7 @@ class VfbToUfoBuilder:
     def fix_masters_count(self) -> None:
         # Sometimes no master name seems to be stored in the VFB. We need to add
         # synthetic names in this case.
-        if self.axis_count == 0:
-            masters_count = 1
-        else:
-            masters_count = self.axis_count**2
+        masters_count = max(self.num_masters, 1)
         if len(self.masters) < masters_count:
             additional = [f"m{n}" for n in range(len(self.masters), masters_count)]
             self.masters.extend(additional)
-- 
2.43.0


From 2489556ebae0bffdb8e3f366aff8e4bfcd35f04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 25/75] fix: write the designspace of fonts without axis
 mappings

The axes had no minimum and maximum, so writing failed after the UFOs were written.
---
 src/vfbLib/ufo/builder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 15df4ad..e75cfca 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -940,6 +940,11 @@ class VfbToUfoBuilder:
         """
         ds = DesignSpaceDocument()
         ds.axes = self.axes
+        for axis in ds.axes:
+            if isinstance(axis, AxisDescriptor) and axis.minimum is None:
+                # There are no mappings, so the axis uses design coordinates
+                axis.minimum = axis.default = 0
+                axis.maximum = 1000
 
         # Add labels
         if self.axis_count == 1:
-- 
2.43.0


From 1ec9910aaaf08476189e47d1a682a39650704408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 26/75] fix: merge closing points only if they coincide in all
 masters

---
 src/vfbLib/ufo/paths.py | 50 +++++++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 90f40a6..c6c94d2 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -11,7 +11,7 @@ from vfbLib.ufo.vfb2ufo import TT_GLYPH_LIB_KEY, TT_UFO_LIB_KEY
 if TYPE_CHECKING:
     from fontTools.pens.pointPen import AbstractPointPen
 
-    from vfbLib.typing import AnchorDict
+    from vfbLib.typing import AnchorDict, MMNode
     from vfbLib.ufo.glyph import VfbToUfoGlyph
     from vfbLib.ufo.typing import UfoComponent, UfoContour
 
@@ -136,6 +136,8 @@ class UfoMasterGlyph:
 
         path_is_open = False
         in_qcurve = False
+        start_node: "MMNode | None" = None
+        last_node: "MMNode | None" = None
         if True:
             contour: "UfoContour" = []
             for i, n in enumerate(mm_nodes):
@@ -150,8 +152,11 @@ class UfoMasterGlyph:
                 smooth = bool(flags & 1)
 
                 if segment_type == "move":
-                    self._append_contour(contour, path_is_open, to_mask)
+                    self._append_contour(
+                        contour, path_is_open, to_mask, start_node, last_node
+                    )
                     contour = [("move", smooth, name, pt)]
+                    start_node = n
                     path_is_open = bool(flags & 8)
                     in_qcurve = False
 
@@ -177,7 +182,9 @@ class UfoMasterGlyph:
                     logger.error(f"Unknown segment type: {segment_type}")
                     raise ValueError
 
-            self._append_contour(contour, path_is_open, to_mask)
+                last_node = n
+
+            self._append_contour(contour, path_is_open, to_mask, start_node, last_node)
 
         if to_mask:
             # Mask has no components
@@ -314,24 +321,45 @@ class UfoMasterGlyph:
             cmd[key] = self.rename_points[pt_name]
 
     def _append_contour(
-        self, contour: "UfoContour", path_is_open: bool, to_mask: bool = False
+        self,
+        contour: "UfoContour",
+        path_is_open: bool,
+        to_mask: bool = False,
+        start_node: "MMNode | None" = None,
+        last_node: "MMNode | None" = None,
     ) -> None:
         """
         Append the contour to the glyph's contours, applying closepath optimizations.
         """
         if contour:
-            ct = self._flush_contour(contour, path_is_open)
+            # The structure must not differ between masters, so the start and end
+            # points must be equal in all of them to be merged
+            equal = (
+                start_node is None
+                or last_node is None
+                or all(
+                    start[0] == last[0]
+                    for start, last in zip(start_node["points"], last_node["points"])
+                )
+            )
+            ct = self._flush_contour(contour, path_is_open, allow_merge=equal)
             if to_mask:
                 self.mask_contours.append(ct)
             else:
                 self.contours.append(ct)
 
-    def _apply_closepath(self, contour: "UfoContour", to_mask: bool = False) -> None:
+    def _apply_closepath(
+        self, contour: "UfoContour", to_mask: bool = False, allow_merge: bool = True
+    ) -> None:
         """
         Apply closepath optimizations to the contour.
         """
         last_type = contour[-1][0]
-        if contour[-1][3] == contour[0][3] and last_type not in ("line", "qcurve"):
+        if (
+            allow_merge
+            and contour[-1][3] == contour[0][3]
+            and last_type not in ("line", "qcurve")
+        ):
             # Equal coords, use closepath to draw the last line, but not for explicit
             # lines
             name = contour[0][2]
@@ -356,7 +384,11 @@ class UfoMasterGlyph:
             contour[0] = ("line", smooth, name, pt)
 
     def _flush_contour(
-        self, contour: "UfoContour", path_is_open: bool, to_mask: bool = False
+        self,
+        contour: "UfoContour",
+        path_is_open: bool,
+        to_mask: bool = False,
+        allow_merge: bool = True,
     ) -> "UfoContour":
         """
         Post-process a contour before it is appended to the glyph's contours.
@@ -364,7 +396,7 @@ class UfoMasterGlyph:
         if not path_is_open:
             last_type = contour[-1][0]
             if last_type in ("line", "curve", "qcurve"):
-                self._apply_closepath(contour, to_mask=to_mask)
+                self._apply_closepath(contour, to_mask, allow_merge)
 
             elif last_type is None:
                 _, smooth, name, pt = contour[0]
-- 
2.43.0


From e3306219cb07cba49b4d5f3a8f4a57fb70eb50ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 27/75] fix: keep all glyphs with duplicate or empty names

---
 src/vfbLib/ufo/builder.py | 42 ++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index e75cfca..af377bc 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -179,7 +179,9 @@ class VfbToUfoBuilder:
     def build_mm_glyph(self, data: dict[str, Any]) -> None:
         g = self.current_glyph = VfbToUfoGlyph(self)
         g.lib = {}
-        g.name = data["name"]
+        g.name = self.get_unique_glyph_name(data.get("name"))
+        self.glyph_masters[g.name] = g
+        self.glyphOrder.append(g.name)
         g.unicodes = []
 
         # MM Stuff, need to extract later
@@ -212,6 +214,22 @@ class VfbToUfoBuilder:
             if "instructions" in imported:
                 g.set_instructions(imported["instructions"])
 
+    def get_unique_glyph_name(self, name: str | None) -> str:
+        """
+        Return a name that is not used by an earlier glyph of the font.
+        """
+        if not name:
+            logger.error("Glyph without name.")
+            name = "unnamed"
+        if name not in self.glyph_masters:
+            return name
+
+        i = 0
+        while f"{name}#{i}" in self.glyph_masters:
+            i += 1
+        logger.warning(f"Duplicate glyph, renamed from {name} to {name}#{i}.")
+        return f"{name}#{i}"
+
     def set_feature_code(self, data: list[str]) -> None:
         # Make the kern feature compilable
         self.features_code = "\n".join(rename_kern_classes_in_feature_code(data))
@@ -450,24 +468,6 @@ class VfbToUfoBuilder:
 
             match key:
                 case G.Glyph:
-                    if self.current_glyph is not None:
-                        name = self.current_glyph.name
-                        if name in self.glyph_masters:
-                            for i in range(255):
-                                n = f"{name}#{i}"
-                                if n not in self.glyph_masters:
-                                    self.glyph_masters[n] = self.current_glyph
-                                    self.glyphOrder.append(n)
-                                    logger.warning(
-                                        f"Duplicate glyph, renamed from {name} to {n}."
-                                    )
-                                    break
-                        else:
-                            if name is None:
-                                logger.error("Glyph without name.")
-                            else:
-                                self.glyph_masters[name] = self.current_glyph
-                                self.glyphOrder.append(name)
                     self.build_mm_glyph(data)
                 case G.VSB:
                     assert self.current_glyph is not None
@@ -660,10 +660,6 @@ class VfbToUfoBuilder:
                             pass
                     logger.info(f"Unhandled entry: {k}")
 
-        if self.current_glyph is not None:
-            assert self.current_glyph.name is not None
-            self.glyph_masters[self.current_glyph.name] = self.current_glyph
-            self.glyphOrder.append(self.current_glyph.name)
         self.lib["public.glyphOrder"] = self.glyphOrder
         self.build_tt_glyph_lib()
         self.assure_tt_lib()
-- 
2.43.0


From 2b53e28b165ad5a81979661358a933c58d937b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 28/75] fix: write the glyph notes

---
 src/vfbLib/ufo/builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index af377bc..b77c400 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -776,6 +776,7 @@ class VfbToUfoBuilder:
             ufo_glyph.guidelines = master_glyph.guidelines
             ufo_glyph.height = master_glyph.height
             ufo_glyph.lib = master_glyph.lib
+            ufo_glyph.note = mm_glyph.note
             ufo_glyph.width = master_glyph.width
             ufo_glyph.unicodes = master_glyph.unicodes
 
-- 
2.43.0


From d52868d42933cfbae517cfe6c56999f2c80eb608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 29/75] fix: adding kerning groups to the feature code keeps
 them in the groups

---
 src/vfbLib/ufo/builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index b77c400..a469969 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -853,7 +853,9 @@ class VfbToUfoBuilder:
                 continue
 
             self.ufo_features.text += f"@{name} = [{' '.join(glyphs)}];\n"
-            move_groups.add(name)
+            if not name.startswith("public.kern"):
+                # Kerning groups are only added, they are still used in kerning
+                move_groups.add(name)
 
         if self.move_groups_to_fea:
             # Remove groups that were added to the feature code from the groups dict
-- 
2.43.0


From 102ae0a5247cb86ed6740bc0a516d0e216d4d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 30/75] fix: keep zero kerning exceptions of key glyphs whose
 group does not exist

---
 src/vfbLib/ufo/kerning.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/kerning.py b/src/vfbLib/ufo/kerning.py
index 29ae15e..2146ee5 100644
--- a/src/vfbLib/ufo/kerning.py
+++ b/src/vfbLib/ufo/kerning.py
@@ -26,9 +26,14 @@ class UfoKerning:
         self._make_name_based_kerning()
 
     def _is_exception(self, L: str, R: str):
-        L_is_key = (1, L) in self.key_glyphs or L not in self.glyph_group_1
-
-        R_is_key = (2, R) in self.key_glyphs or R not in self.glyph_group_2
+        # A key glyph whose own group doesn't exist can be a member of another group
+        L_is_key = (
+            self.key_glyphs.get((1, L)) in self.groups or L not in self.glyph_group_1
+        )
+
+        R_is_key = (
+            self.key_glyphs.get((2, R)) in self.groups or R not in self.glyph_group_2
+        )
 
         if L_is_key and R_is_key:
             return False
-- 
2.43.0


From 6231a0b64b5ea9161cfe97c115b05bbc1a4ca92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 31/75] fix: do not export links towards smaller coordinates as
 ghost hints

---
 src/vfbLib/ufo/pshints.py | 5 +++--
 src/vfbLib/vfb/glyph.py   | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/pshints.py b/src/vfbLib/ufo/pshints.py
index 5edb782..0e94681 100644
--- a/src/vfbLib/ufo/pshints.py
+++ b/src/vfbLib/ufo/pshints.py
@@ -266,8 +266,9 @@ def get_master_hints(
             else:
                 tgt = mmglyph.mm_nodes[itgt]
                 tgt_pos = tgt["points"][master_index][0][i]
-                width = tgt_pos - src_pos
-                # pos = min(src_pos, tgt_pos)
+                # A stem in the opposite direction must not be taken for a ghost hint
+                pos = min(src_pos, tgt_pos)
+                width = abs(tgt_pos - src_pos)
 
             d = "v" if axis == "x" else "h"
             # Don't normalize those values, the above code already did that
diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index c643dc7..55ae844 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -188,7 +188,10 @@ class VfbGlyph:
                 else:
                     tgt = mm_nodes[itgt]
                     tgt_pos = tgt["points"][self.master_index][0][i]
-                    width = tgt_pos - src_pos
+                    # A stem in the opposite direction must not be taken for a ghost
+                    # hint
+                    pos = min(src_pos, tgt_pos)
+                    width = abs(tgt_pos - src_pos)
 
                 d = "v" if axis == "x" else "h"
                 # Don't normalize those values, the above code already did that
-- 
2.43.0


From 60d4991280e9ea252656eb1101eaaab0305617bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 32/75] fix: label the exported point when contour start and
 end are merged

---
 src/vfbLib/ufo/glyph.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/vfbLib/ufo/glyph.py b/src/vfbLib/ufo/glyph.py
index 377b2be..bad85ec 100644
--- a/src/vfbLib/ufo/glyph.py
+++ b/src/vfbLib/ufo/glyph.py
@@ -81,6 +81,7 @@ class VfbToUfoGlyph:
             )
             return "invalid"
 
+        index = self.get_label_node_index(index)
         if index in self.point_labels:
             # We already have a label for this point index
             return self.point_labels[index]
@@ -103,6 +104,30 @@ class VfbToUfoGlyph:
         self.point_labels[index] = label
         return label
 
+    def get_label_node_index(self, index: int) -> int:
+        """
+        Return the index of the node that carries the label for the node at `index`.
+        They differ for the start of a closed contour which is merged with the end point
+        of a closing curve, because only one of both points is exported.
+        """
+        nodes = self.mm_nodes
+        if not 0 <= index < len(nodes):
+            return index
+
+        start = nodes[index]
+        if start["type"] != "move" or start["flags"] & 8:
+            return index
+
+        last_index = index
+        while last_index + 1 < len(nodes) and nodes[last_index + 1]["type"] != "move":
+            last_index += 1
+        last = nodes[last_index]
+        if last["type"] == "curve" and all(
+            s[0] == e[0] for s, e in zip(start["points"], last["points"])
+        ):
+            return last_index
+        return index
+
     def set_instructions(self, instructions: list[str]) -> None:
         if not instructions:
             return
-- 
2.43.0


From 1b07a78be4b4b50247e6e67e944e7df8ef88f0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 33/75] fix: keep hint sets apart that start at merged contour
 points

---
 src/vfbLib/ufo/pshints.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/ufo/pshints.py b/src/vfbLib/ufo/pshints.py
index 0e94681..e809dbe 100644
--- a/src/vfbLib/ufo/pshints.py
+++ b/src/vfbLib/ufo/pshints.py
@@ -149,6 +149,7 @@ def build_ps_glyph_hints(
     <dict>
     """
     hint_sets = []
+    nodes: list[int] = []
     stems: "list[HintTuple]" = []
     hint_set: HintSet = HintSet(pointTag="0", stems=stems)
     if mmglyph.hintmasks:
@@ -166,6 +167,7 @@ def build_ps_glyph_hints(
                             f"glyph {glyph.name}, but hint list is empty."
                         )
             if mask[0] == "r":
+                nodes.append(int(hint_set["pointTag"]))
                 hint_set["pointTag"] = mmglyph.get_point_label(
                     index=int(hint_set["pointTag"]),
                     code="PSHintReplacement",
@@ -181,6 +183,7 @@ def build_ps_glyph_hints(
 
         if hint_set["stems"]:
             # Append the last hint set
+            nodes.append(int(hint_set["pointTag"]))
             hint_set["pointTag"] = mmglyph.get_point_label(
                 index=int(hint_set["pointTag"]),
                 code="PSHintReplacement",
@@ -198,11 +201,13 @@ def build_ps_glyph_hints(
                 code="PSHintReplacement",
                 start_count=0,
             )
+            nodes = [0]
             hint_sets = [hint_set]
 
     # Reformat stems from sortable tuples to str required by UFO spec
+    # The sets are collected by node, as different nodes may share a point label
     ufo_hint_sets = {}
-    for hint_set in hint_sets:
+    for node, hint_set in zip(nodes, hint_sets):
         point_tag = hint_set["pointTag"]
         ufo_hint_set = UfoHintSet(
             pointTag=point_tag,
@@ -210,17 +215,17 @@ def build_ps_glyph_hints(
         )
         if ufo_hint_set["stems"]:
             # Only add if the set has stems
-            if ufo_hint_set["pointTag"] in ufo_hint_sets:
-                if ufo_hint_sets[point_tag] != ufo_hint_set:
+            if node in ufo_hint_sets:
+                if ufo_hint_sets[node] != ufo_hint_set:
                     # Warn about duplicate hint sets per point, but use the last one
                     logger.warning(
                         f"Duplicate hint sets for point '{point_tag}' "
                         f"in glyph '{glyph.name}':"
                     )
-                    logger.warning(f"    Old: {ufo_hint_sets[point_tag]}")
+                    logger.warning(f"    Old: {ufo_hint_sets[node]}")
                     logger.warning(f"    New: {ufo_hint_set}")
                     logger.warning("    Using the new hint set.")
-            ufo_hint_sets[point_tag] = ufo_hint_set
+            ufo_hint_sets[node] = ufo_hint_set
 
     if ufo_hint_sets:
         if not hasattr(glyph, "lib"):
-- 
2.43.0


From 79f476a85c117929e02816c376addc32eda3efce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 34/75] fix: name the points of hint sets before any glyph is
 exported

---
 src/vfbLib/ufo/builder.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index a469969..133f724 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -28,6 +28,7 @@ from vfbLib.ufo.info import VfbToUfoInfo, default_tt_lib
 from vfbLib.ufo.instructions import format_assembly
 from vfbLib.ufo.kerning import UfoKerning
 from vfbLib.ufo.paths import UfoMasterGlyph
+from vfbLib.ufo.pshints import build_ps_glyph_hints, get_master_hints
 from vfbLib.ufo.tth import TTGlyphHints, transform_stem_rounds
 from vfbLib.ufo.typing import (
     TUfoRawStemsDict,
@@ -425,6 +426,21 @@ class VfbToUfoBuilder:
         if self.tt_zones:
             self.lib[TT_LIB_KEY]["zones"] = self.tt_zones
 
+    def build_ps_point_labels(self) -> None:
+        """
+        Label the points of the hint sets in all glyphs before any outline is exported,
+        because composites label points in other glyphs.
+        """
+        if not self.include_ps_hints:
+            return
+
+        for glyph in self.glyph_masters.values():
+            build_ps_glyph_hints(
+                mmglyph=glyph,
+                glyph=UfoMasterGlyph(glyph, self.glyphOrder, 0),
+                master_hints=get_master_hints(glyph),
+            )
+
     def build_tt_glyph_lib(self) -> None:
         for glyph in sorted(self.glyph_masters.values()):
             if glyph.tt_glyph_hints is None:
@@ -662,6 +678,7 @@ class VfbToUfoBuilder:
 
         self.lib["public.glyphOrder"] = self.glyphOrder
         self.build_tt_glyph_lib()
+        self.build_ps_point_labels()
         self.assure_tt_lib()
         self.build_tt_stems_lib()
         self.build_tt_zones_lib()
-- 
2.43.0


From 626c944abba1f61d7624c8fbea86cd80fed91b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 35/75] fix: fonts with the style bits regular and italic can
 be converted

---
 src/vfbLib/ufo/info.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/info.py b/src/vfbLib/ufo/info.py
index 1dbfd99..2aaa1d3 100644
--- a/src/vfbLib/ufo/info.py
+++ b/src/vfbLib/ufo/info.py
@@ -267,7 +267,9 @@ class VfbToUfoInfo(Info):
 
         name_parts = []
         if 6 in intlist:
-            name_parts.append("regular")
+            # There is no style "regular italic"
+            if 0 not in intlist:
+                name_parts.append("regular")
         elif 5 in intlist:
             name_parts.append("bold")
         if 0 in intlist:
-- 
2.43.0


From 66ce6a55d448c5b8815863444bcf6c6a3f60d2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 36/75] fix: UFO file names in the designspace are relative to
 its folder

---
 src/vfbLib/ufo/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 133f724..8628841 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -980,7 +980,8 @@ class VfbToUfoBuilder:
             ds.addSourceDescriptor(
                 # designLocation=,
                 familyName=self.info.ds_family_name,
-                filename=f"{self.get_master_path(out_path, i)}",
+                # Relative to the designspace, which is in the same folder
+                filename=self.get_master_path(out_path, i).name,
                 location=get_ds_location(self.axes, self.master_locations[i + 1]),
                 name=self.masters[i].strip(),
                 styleName=f"Master {i}",
-- 
2.43.0


From ab840317ff547a9a8d45dae8f69d41507b202509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 37/75] fix: a font with one master gets no designspace

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 8628841..0001877 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -905,7 +905,7 @@ class VfbToUfoBuilder:
             raise ValueError
 
         ds: DesignSpaceDocument | None = None
-        if self.axes:
+        if self.axes and self.num_masters > 1:
             ds = self.get_designspace(out_path)
         return ufo_masters, ds
 
-- 
2.43.0


From 88760e1d4c33a68645f62c58522272c656fe2746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 38/75] fix: export the one pixel thresholds of TrueType stems
 to tth

---
 src/vfbLib/tth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 27ec4fd..0adb496 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -207,7 +207,8 @@ def extract_tt_stem_ppem_1(data: dict, target: dict) -> None:
             direction_data = data[direction]
             for stem_data in direction_data:
                 stem_index = stem_data["stem"]
-                target[direction][stem_index]["1"] = stem_data["round"]["1"]
+                rounding = target[direction].setdefault(stem_index, {})
+                rounding.update(stem_data["round"])
 
 
 def extract_tt_stem_ppems(data: dict, target: dict) -> None:
-- 
2.43.0


From 756a75b0daeede81befc7e1c41a24e36df77ad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 39/75] fix: export TrueType stems without ppem data to tth

---
 src/vfbLib/tth.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 0adb496..60cc25c 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -314,22 +314,20 @@ def merge_stem_information(data: dict, font: dict) -> None:
     """
     stems_dict = {}
     for direction in ("ttStemsV", "ttStemsH"):
-        if direction in data:
-            direction_data = data[direction]
-            for stem_index, rounding in direction_data.items():
-                stem = font["stems"][direction][stem_index]
-                stem["round"].update(rounding)
-                # Sort the rounding dict by value (px)
-                rd = transform_stem_rounds(stem["round"], stem["name"])
-                srtl = sorted(rd.items(), key=lambda item: item[1])
-                srd = {k: v for k, v in srtl}
-                stem["round"] = srd
-                stems_dict[stem["name"]] = deepcopy(stem)
-                del stems_dict[stem["name"]]["name"]
+        rounds = data.get(direction, {})
+        for stem_index, stem in enumerate(font.get("stems", {}).get(direction, [])):
+            stem["round"].update(rounds.get(stem_index, {}))
+            # Sort the rounding dict by value (px)
+            rd = transform_stem_rounds(stem["round"], stem["name"])
+            srtl = sorted(rd.items(), key=lambda item: item[1])
+            srd = {k: v for k, v in srtl}
+            stem["round"] = srd
+            stems_dict[stem["name"]] = deepcopy(stem)
+            del stems_dict[stem["name"]]["name"]
     if stems_dict:
         font["stems"] = stems_dict
     else:
-        del font["stems"]
+        font.pop("stems", None)
 
 
 def merge_zone_information(font: dict) -> None:
-- 
2.43.0


From 216e5f3597dffe6c9b71e6d7a15fb96dd016210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 40/75] fix: fonts without TrueType zones, deltas or stems can
 be exported to tth

---
 src/vfbLib/tth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 60cc25c..dc3cc60 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -187,7 +187,7 @@ def extract_glyph_hints(
             IndexVfbToUfoGlyph(),
             data=tth,
             zone_names=zone_names,
-            stems=font_hints["stems"],
+            stems=font_hints.get("stems", {"ttStemsV": [], "ttStemsH": []}),
         )
         tr = ttg.get_tt_glyph_hints()
         target[data["name"]] = tr
@@ -340,7 +340,7 @@ def merge_zone_information(font: dict) -> None:
     """
     all_zones = []
     for side in ("ttZonesB", "ttZonesT"):
-        for zone in font["zones"].get(side, []):
+        for zone in font.get("zones", {}).get(side, []):
             all_zones.append(zone)
     for zone_index, zone_delta in font.get("zone_deltas", {}).items():
         zone = all_zones[zone_index]
@@ -354,5 +354,5 @@ def merge_zone_information(font: dict) -> None:
     if zones_dict:
         font["zones"] = zones_dict
     else:
-        del font["zones"]
-    del font["zone_deltas"]
+        font.pop("zones", None)
+    font.pop("zone_deltas", None)
-- 
2.43.0


From 9a94eb7f0110dcdf957e4b515388368c2b603877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 41/75] fix: the bigger stem width wins when rounding
 thresholds coincide

---
 src/vfbLib/ufo/tth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/tth.py b/src/vfbLib/ufo/tth.py
index 575eec2..03dced0 100644
--- a/src/vfbLib/ufo/tth.py
+++ b/src/vfbLib/ufo/tth.py
@@ -75,10 +75,10 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
     """
     d: dict[str, int] = {}
     for k, v in data.items():
-        key = v
+        key = str(v)
         val = k
         if key in d:
-            if val > v:
+            if val > d[key]:
                 logger.warning(
                     f"Duplicate rounding ppm {key} in TT stem '{name}', "
                     f"choosing bigger value {val}px over {d[key]}px. {data}"
@@ -90,7 +90,7 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
                     f"keeping value {d[key]}px, ignoring {val}px. {data}"
                 )
         else:
-            d[str(key)] = val
+            d[key] = val
     return d
 
 
-- 
2.43.0


From 78db05e9003bff30a29d48a0c39f60d7bb6ccb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 42/75] fix: TrueType stems without ppem data can be converted

---
 src/vfbLib/ufo/builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 0001877..9d9ad4b 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -330,6 +330,9 @@ class VfbToUfoBuilder:
                 rv = str(r[rk])
 
                 # Take the other rounding ppm values (2-5) from self.stem_ppms
+                if i >= len(self.stem_ppms[d]):
+                    # There are none for this stem
+                    self.stem_ppms[d].append({"stem": i, "round": {}})
                 stem_ppms = self.stem_ppms[d][i]
                 assert i == stem_ppms["stem"]
 
-- 
2.43.0


From 750b9be720218f45c23f6702afe4689ee0496111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 43/75] fix: keep TrueType zones with duplicate names

---
 src/vfbLib/ufo/builder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 9d9ad4b..39bc592 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -369,7 +369,14 @@ class VfbToUfoBuilder:
                 )
                 name = dz["name"]
                 if name in self.tt_zones:
-                    logger.warning(f"Duplicate zone name: {name}, overwriting.")
+                    oldname = name
+                    i = 1
+                    while name in self.tt_zones:
+                        name = f"{oldname}#{i:02}"
+                        i += 1
+                    logger.warning(
+                        f"Duplicate zone name '{oldname}', renamed to '{name}'."
+                    )
                 self.tt_zones[name] = zone
                 self.tt_zone_names.append(name)  # for deltas
                 self.zone_names[d].append(name)  # for AlignTop/AlignBottom
-- 
2.43.0


From 78e747d800efca13f9440213ac96940235a0d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 44/75] fix: glyph hints refer to unnamed and duplicate stems
 by their new names

---
 src/vfbLib/ufo/builder.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 39bc592..725619a 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -408,26 +408,38 @@ class VfbToUfoBuilder:
             zone_name = self.tt_zone_names[int(zone_index)]
             self.tt_zones[zone_name]["delta"] = {str(k): v for k, v in deltas.items()}
 
-    def build_tt_stems_lib(self) -> None:
-        lib = {}
+    def name_tt_stems(self) -> None:
+        """
+        Give each stem a name of its own, by which the glyph hints can refer to it.
+        """
+        names: set[str] = set()
         for d in ("ttStemsH", "ttStemsV"):
             i = 0
             direction_stems = self.stems[d]
             for stem in direction_stems:
                 name = stem["name"]
-                del stem["name"]
                 if name == "":
                     dname = "v" if d == "ttStemsH" else "h"
                     name = "%s%02i" % (dname, i)
                     i += 1
-                if name in lib:
+                if name in names:
                     oldname = name
-                    name = "%s#%02i" % (oldname, i)
+                    n = i
+                    while name in names:
+                        name = "%s#%02i" % (oldname, n)
+                        n += 1
                     logger.warning(
                         f"Duplicate TrueType stem name '{oldname}', renamed to '{name}'"
                         ". Preferably make stem names unique in VFB."
                     )
-                lib[name] = stem
+                names.add(name)
+                stem["name"] = name
+
+    def build_tt_stems_lib(self) -> None:
+        lib = {}
+        for d in ("ttStemsH", "ttStemsV"):
+            for stem in self.stems[d]:
+                lib[stem["name"]] = {k: v for k, v in stem.items() if k != "name"}
         if lib:
             self.lib[TT_LIB_KEY]["stems"] = lib
 
@@ -687,6 +699,7 @@ class VfbToUfoBuilder:
                     logger.info(f"Unhandled entry: {k}")
 
         self.lib["public.glyphOrder"] = self.glyphOrder
+        self.name_tt_stems()
         self.build_tt_glyph_lib()
         self.build_ps_point_labels()
         self.assure_tt_lib()
-- 
2.43.0


From ca730e313202be63b3c5db66390c7ed67dca6958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 45/75] fix: base64 encoded glyph hints may contain names that
 are not ASCII

---
 src/vfbLib/ufo/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index c6c94d2..6fc61f3 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -263,7 +263,7 @@ class UfoMasterGlyph:
         if encode_data_base64 and TT_GLYPH_LIB_KEY in self.lib:
             data = self.lib[TT_GLYPH_LIB_KEY]
             if not isinstance(data, bytes):
-                self.lib[TT_GLYPH_LIB_KEY] = b64encode(data.encode("ascii"))
+                self.lib[TT_GLYPH_LIB_KEY] = b64encode(data.encode("utf-8"))
         if TT_UFO_LIB_KEY in self.lib:
             self.lib[TT_UFO_LIB_KEY] = deepcopy(self.lib[TT_UFO_LIB_KEY])
 
-- 
2.43.0


From d7800f3a538805ae541979d7bd11fe97025ce61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 46/75] fix: keep the text of positioning rules when renaming
 kerning classes

Spaces inside of the rules and empty comments were changed, rules with tabs or
several spaces between the operands were not renamed, and of a set of classes
in square brackets the last one got the prefix of the wrong side.
---
 src/vfbLib/ufo/features.py | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/vfbLib/ufo/features.py b/src/vfbLib/ufo/features.py
index 738fbf5..76c69b7 100644
--- a/src/vfbLib/ufo/features.py
+++ b/src/vfbLib/ufo/features.py
@@ -1,4 +1,11 @@
-from re import search
+import re
+
+# [enum] pos, the first operand, and the second one before the value
+pair_rule = re.compile(
+    r"^(\s*(?:enum\s+)?pos\s+)(\[[^\]]*\]|\S+)(\s+)(\[[^\]]*\]|\S+)(?=\s+\S)"
+)
+# The start of a kerning class name, also inside of square brackets
+kern_class = re.compile(r"(?<![^\s\[])@_")
 
 
 def rename_kern_classes_in_feature_code(data: list[str]) -> list[str]:
@@ -8,25 +15,12 @@ def rename_kern_classes_in_feature_code(data: list[str]) -> list[str]:
     """
     features = []
     for line in data:
-        if "#" in line:
-            code, comment = line.split("#", 1)
-        else:
-            code = line
-            comment = None
-
-        if m := search(r"^([\t\s]*)(enum )?(pos) +([\S]+) ([\S]+) +([\S]+.*)$", code):
-            indent, enum, pos, L, R, value = m.groups()
-            if L.startswith("@_"):
-                L = f"@public.kern1.{L[1:]}"
-            if R.startswith("@_"):
-                R = f"@public.kern2.{R[1:]}"
-            if enum is None:
-                enum = ""
-            code = f"{indent}{enum}{pos} {L} {R} {value}"
-            if comment:
-                code += f"#{comment}"
-            features.append(code)
-        else:
-            features.append(line)
+        code, sep, comment = line.partition("#")
+        if m := pair_rule.match(code):
+            pos, L, space, R = m.groups()
+            L = kern_class.sub("@public.kern1._", L)
+            R = kern_class.sub("@public.kern2._", R)
+            code = f"{pos}{L}{space}{R}{code[m.end() :]}"
+        features.append(f"{code}{sep}{comment}")
 
     return features
-- 
2.43.0


From dbecc4968d2c06c5dda5dd25a9de601fb6a88f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 47/75] fix: keep the prefix of feature code without features

build_fea_dict dropped the whole code if there was no feature in it, and
returned a feature without a tag. Features with other tags than lower case
ones, or with useExtension, were taken for a part of the feature before.
---
 src/vfbLib/parsers/text.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index 018367a..0055e29 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -62,7 +62,9 @@ class OpenTypeStringParser(BaseParser):
             else:
                 code = line
 
-            if s := search(r"\s*feature\s*([a-z0-9]{4})\s*\{", code):
+            if s := search(
+                r"^\s*feature\s+([^\s{]{1,4})\s*(?:useExtension\s*)?\{", code
+            ):
                 # New feature
 
                 if in_prefix:
@@ -80,8 +82,12 @@ class OpenTypeStringParser(BaseParser):
             else:
                 feature.append(line)
 
-        # Flush the last feature
-        fea["features"].append({"tag": tag, "code": feature})
+        if in_prefix:
+            # There are no features
+            fea["prefix"] = prefix
+        else:
+            # Flush the last feature
+            fea["features"].append({"tag": tag, "code": feature})
 
         return fea
 
-- 
2.43.0


From f6565cc19396fa50d9eeb530eebd06e5c46f27b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 48/75] fix: break feature code into lines at line ends only

Form feeds and other separators that str.splitlines knows became line ends,
which turned the rest of a comment into code.
---
 src/vfbLib/parsers/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index 0055e29..04c8f87 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -1,3 +1,4 @@
+from io import StringIO
 from re import search
 
 from vfbLib.parsers.base import BaseParser
@@ -96,7 +97,9 @@ class OpenTypeStringParser(BaseParser):
         # Filter more than 2 consecutive empty lines
         lines = []
         c = 0
-        for line in s.splitlines():
+        # str.splitlines would also break lines at form feeds and the like
+        for line in StringIO(s, newline=None):
+            line = line.removesuffix("\n")
             if line.strip():
                 c = 0
                 lines.append(line)
-- 
2.43.0


From 2c99532c6aa70a47890f7731aca9ea3ee51f2f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 49/75] fix: vfbdiff compares lines of JSON, not parts of texts

splitlines() also splits at U+0085, U+2028 and U+2029 inside of texts, so
that texts which differ only in which of them they have compared equal.
---
 src/vfbLib/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/diff.py b/src/vfbLib/diff.py
index 0af044d..be3768e 100644
--- a/src/vfbLib/diff.py
+++ b/src/vfbLib/diff.py
@@ -47,7 +47,7 @@ def diffvfb():
             option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS | orjson.OPT_SORT_KEYS,
         )
         .decode()
-        .splitlines()
+        .split("\n")
     )
     vfb2_str = (
         orjson.dumps(
@@ -55,7 +55,7 @@ def diffvfb():
             option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS | orjson.OPT_SORT_KEYS,
         )
         .decode()
-        .splitlines()
+        .split("\n")
     )
     if args.html:
         html_diff = HtmlDiff()
-- 
2.43.0


From bcbea17a76e8a617a2d0674f498b0c86bff94fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 50/75] fix: vfbdiff --html compares lines, not single
 characters

---
 src/vfbLib/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/diff.py b/src/vfbLib/diff.py
index be3768e..0952d73 100644
--- a/src/vfbLib/diff.py
+++ b/src/vfbLib/diff.py
@@ -60,8 +60,8 @@ def diffvfb():
     if args.html:
         html_diff = HtmlDiff()
         html = html_diff.make_file(
-            str(vfb1_str),
-            str(vfb2_str),
+            vfb1_str,
+            vfb2_str,
             str(vfb1_path),
             str(vfb2_path),
             context=True,
-- 
2.43.0


From 72566cbcbe7142e483f7987cedacc265d09432f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 51/75] fix: Converting to UFO does not change the VFB

---
 src/vfbLib/ufo/builder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 725619a..13b8673 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -494,10 +494,13 @@ class VfbToUfoBuilder:
             if key in skip_keys:
                 continue
 
-            data = e.data
-            if data is None:
+            if e.data is None:
                 continue
 
+            # The data in the VFB must not be changed by the conversion, or be referenced
+            # by the results
+            data = deepcopy(e.data)
+
             # Font Info
             attr = self.info.mapping.get(key, None)
             if attr is not None:
-- 
2.43.0


From 56b85e6d0ad2a5d6d5b4a58faefda03e0f127a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 52/75] fix: Master UFOs do not share their lib

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 13b8673..09513e8 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -798,7 +798,7 @@ class VfbToUfoBuilder:
             groups=deepcopy(self.ufo_groups),
             info=master_info,
             kerning=master_kerning,
-            lib=self.lib,
+            lib=deepcopy(self.lib),
         )
 
         mask_glyphs: list[Glyph] = []
-- 
2.43.0


From 2ba8588648c31b95fd40feadc487570db430ee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 53/75] fix: Building the designspace again gives the same axis
 labels

---
 src/vfbLib/ufo/builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 09513e8..0c30f9e 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -981,7 +981,7 @@ class VfbToUfoBuilder:
         construct the UFO paths assigned to the source descriptors.
         """
         ds = DesignSpaceDocument()
-        ds.axes = self.axes
+        ds.axes = deepcopy(self.axes)
         for axis in ds.axes:
             if isinstance(axis, AxisDescriptor) and axis.minimum is None:
                 # There are no mappings, so the axis uses design coordinates
@@ -992,7 +992,7 @@ class VfbToUfoBuilder:
         if self.axis_count == 1:
             # Only support the simple case here
             for p in self.primary_instances:
-                self.axes[0].axisLabels.append(
+                ds.axes[0].axisLabels.append(
                     AxisLabelDescriptor(name=p["name"], userValue=p["values"][0])
                 )
         else:
-- 
2.43.0


From 95f88cee856f8451809984b552d9ea86109bd48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 54/75] fix: Drawing into an additional master without clearing
 it first

---
 src/vfbLib/vfb/pens.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index b49f17a..dd17bb7 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -27,7 +27,9 @@ class VfbGlyphPointPen(AbstractPointPen):
             self.target = self.glyph.entry.data
         else:
             if self.glyph.entry.temp_masters is None:
-                self.glyph.entry.temp_masters = [[] * self.glyphSet.num_masters]
+                self.glyph.entry.temp_masters = [
+                    {} for _ in range(self.glyphSet.num_masters)
+                ]
             self.target = self.glyph.entry.temp_masters[self.glyph.master_index]
 
     def beginPath(
-- 
2.43.0


From 4a2d6f7d85ec24edcbd258ef71c521af82231e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 55/75] fix: Draw all kinds of paths through the point pen

Cubic curves were not supported, paths that start with an off-curve point got a
wrong start node, and smooth points were not marked as such.
---
 src/vfbLib/vfb/pens.py | 104 +++++++++++++++++++++++++----------------
 1 file changed, 64 insertions(+), 40 deletions(-)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index dd17bb7..df592bc 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -12,7 +12,6 @@ logger = logging.getLogger(__name__)
 
 
 class VfbGlyphPointPen(AbstractPointPen):
-    # FIXME: Only supports TrueType curves
     def __init__(self, glyph: "VfbGlyph | VfbGlyphMaster", glyphSet: "Vfb") -> None:
         """A PointPen to draw into the VFB glyph.
 
@@ -22,7 +21,6 @@ class VfbGlyphPointPen(AbstractPointPen):
         self.glyph = glyph
         self.glyphSet = glyphSet
         self.currentPath = None
-        self.in_qcurve = False
         if self.glyph.master_index == 0:
             self.target = self.glyph.entry.data
         else:
@@ -47,8 +45,68 @@ class VfbGlyphPointPen(AbstractPointPen):
         if self.currentPath is None:
             raise TypeError
 
-        self.target["nodes"].extend(self.currentPath)
+        path = self.currentPath
         self.currentPath = None
+        self.target["nodes"].extend(self._get_path_nodes(path))
+
+    def _get_node(
+        self, node_type: str, smooth: bool, *pts: tuple[float, float], flags: int = 0
+    ) -> dict[str, Any]:
+        return {
+            "type": node_type,
+            "flags": flags | int(bool(smooth)),
+            "points": [
+                [(round(x), round(y)) for x, y in pts]
+                for _ in range(self.glyphSet.num_masters)
+            ],
+        }
+
+    def _get_path_nodes(self, path: list[tuple]) -> list[dict[str, Any]]:
+        """
+        Convert the points of a path to VFB nodes.
+        """
+        if not path:
+            return []
+
+        is_open = path[0][1] == "move"
+        if not is_open:
+            # VFB paths always start with an on-curve point
+            on_curve = [i for i, (_, t, _) in enumerate(path) if t is not None]
+            if on_curve:
+                path = path[on_curve[0] :] + path[: on_curve[0]]
+            else:
+                (x0, y0), (x1, y1) = path[-1][0], path[0][0]
+                path = [(((x0 + x1) / 2, (y0 + y1) / 2), "qcurve", True)] + path
+
+        # VFB first node always has type "move"
+        pt, segment_type, smooth = path[0]
+        nodes = [self._get_node("move", smooth, pt, flags=8 if is_open else 0)]
+
+        segments = path[1:]
+        if segment_type == "curve" and path[-1][1] is None:
+            # A closing curve has a node of its own
+            segments.append(path[0])
+
+        off_curves: list[tuple[float, float]] = []
+        for pt, segment_type, smooth in segments:
+            if segment_type is None:
+                off_curves.append(pt)
+                continue
+
+            if segment_type == "curve" and off_curves:
+                if len(off_curves) != 2:
+                    raise ValueError(
+                        f"Unsupported number of off-curve points: {len(off_curves)}"
+                    )
+                nodes.append(self._get_node("curve", smooth, pt, *off_curves))
+            else:
+                nodes.extend(self._get_node("qcurve", False, p) for p in off_curves)
+                nodes.append(self._get_node("line", smooth, pt))
+            off_curves = []
+
+        # The remaining off-curve points belong to a curve that ends in the first node
+        nodes.extend(self._get_node("qcurve", False, p) for p in off_curves)
+        return nodes
 
     def addPoint(
         self,
@@ -61,44 +119,10 @@ class VfbGlyphPointPen(AbstractPointPen):
     ) -> None:
         assert self.currentPath is not None
 
-        flags = 0
-        x, y = pt
-        node = {
-            "type": None,
-            "flags": flags,
-            "points": [
-                [(round(x), round(y))] for _ in range(self.glyphSet.num_masters)
-            ],
-        }
-
-        if segmentType == "qcurve":
-            self.in_qcurve = True
-
-        if not self.currentPath:
-            # Begin a new path
-
-            if segmentType == "move":  # Open path
-                flags += 8
-
-            # VFB first node always has type "move"
-            node["type"] = "move"
-
-        else:
-            # During path
-            if segmentType is None:
-                node["type"] = "qcurve"
-            elif segmentType == "qcurve":
-                if self.in_qcurve:
-                    node["type"] = "line"
-                    self.in_qcurve = False
-            elif segmentType == "line":
-                node["type"] = "line"
-            else:
-                print(f"Unsupported segment type: {segmentType}")
-                raise ValueError
+        if segmentType not in (None, "move", "line", "curve", "qcurve"):
+            raise ValueError(f"Unsupported segment type: {segmentType}")
 
-        node["flags"] = flags
-        self.currentPath.append(node)
+        self.currentPath.append((pt, segmentType, smooth))
 
     def addComponent(
         self,
-- 
2.43.0


From 6533841082196eeaef7f2d6ec610b10e192024f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 56/75] fix: Refuse components that can not be represented,
 round their offsets

---
 src/vfbLib/vfb/pens.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index df592bc..f072d84 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -132,11 +132,14 @@ class VfbGlyphPointPen(AbstractPointPen):
         **kwargs: Any,
     ) -> None:
         assert self.currentPath is None
-        base_index = self.glyphSet.glyph_order.index(baseGlyphName)
-        if base_index == -1:
+        if baseGlyphName not in self.glyphSet.glyph_order:
             raise KeyError(f"Base glyph not found: '{baseGlyphName}'")
 
+        base_index = self.glyphSet.glyph_order.index(baseGlyphName)
+
         xx, xy, yx, yy, dx, dy = transformation
+        if xy or yx:
+            raise ValueError("Components can only be scaled and moved.")
 
         if not isinstance(self.target, dict):
             raise TypeError
@@ -146,8 +149,8 @@ class VfbGlyphPointPen(AbstractPointPen):
         self.target["components"].append(
             {
                 "gid": base_index,
-                "offsetX": [dx] * self.glyphSet.num_masters,
-                "offsetY": [dy] * self.glyphSet.num_masters,
+                "offsetX": [round(dx)] * self.glyphSet.num_masters,
+                "offsetY": [round(dy)] * self.glyphSet.num_masters,
                 "scaleX": [xx] * self.glyphSet.num_masters,
                 "scaleY": [yy] * self.glyphSet.num_masters,
             }
-- 
2.43.0


From 01dc86b06cebbcf6b808f3f9f5234052a0092aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 57/75] fix: Merge masters that were drawn into only once

What was drawn into an additional master without clearing it belongs to the last
nodes and components of the glyph. The check for compatibility comes before any
change.
---
 src/vfbLib/compilers/glyph.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index e8912bf..600d83d 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -85,24 +85,43 @@ class GlyphCompiler(BaseCompiler):
             master_data = masters_data[m]
             # See if there is any data to merge
             if "nodes" in master_data:
-                assert "nodes" in data
-                for i, tgt in enumerate(data["nodes"]):
-                    src = master_data["nodes"][i]
+                targets = cls._get_merge_targets(master_data, data, "nodes")
+                for src, tgt in targets:
                     for key in ("type", "flags"):
                         assert src[key] == tgt[key]
+                for src, tgt in targets:
                     tgt["points"][m] = src["points"][m]
 
             if "components" in master_data:
-                assert "components" in data
-                for i, tgt in enumerate(data["components"]):
-                    src = master_data["components"][i]
+                targets = cls._get_merge_targets(master_data, data, "components")
+                for src, tgt in targets:
                     for key in ("gid",):
                         assert src[key] == tgt[key]
+                for src, tgt in targets:
                     tgt["offsetX"][m] = src["offsetX"][m]
                     tgt["offsetY"][m] = src["offsetY"][m]
                     tgt["scaleX"][m] = src["scaleX"][m]
                     tgt["scaleY"][m] = src["scaleY"][m]
 
+            # Don't merge this again
+            master_data.clear()
+
+    @staticmethod
+    def _get_merge_targets(
+        master_data: dict[str, Any], data: dict[str, Any], key: str
+    ) -> list[tuple[Any, Any]]:
+        """
+        Return pairs of the elements drawn into an additional master, and the elements of
+        the glyph they belong to. If the master has not been cleared before drawing,
+        those are the last ones.
+        """
+        sources = master_data[key]
+        targets = data.get(key, [])
+        assert len(sources) <= len(targets)
+        if master_data.get("cleared") and key == "nodes":
+            assert len(sources) == len(targets)
+        return list(zip(sources, targets[len(targets) - len(sources) :]))
+
     def _compile(self, data: dict[str, Any]) -> None:
         # Constants
         self.write_bytes(pack("<4B", *GLYPH_CONSTANT))
-- 
2.43.0


From 5b2ccc14ecff19484d5fdf27da7fa9abf3accfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 58/75] fix: A master that was cleared must be drawn completely

---
 src/vfbLib/vfb/glyph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 55ae844..3a92279 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -434,6 +434,8 @@ class VfbGlyphMaster:
         except KeyError:
             pass
         target["nodes"] = []
+        if self.master_index != 0:
+            target["cleared"] = True
 
     def drawPoints(self, pen: AbstractPointPen) -> None:
         """
-- 
2.43.0


From 4c1c716c15b73ca05800fb7251161c3acd6dc45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 59/75] fix: Draw closing quadratic curves to the start of
 their own path

---
 src/vfbLib/vfb/glyph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 3a92279..20acc6c 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -213,6 +213,7 @@ class VfbGlyph:
         in_path = False
         in_qcurve = False
         qcurve = []
+        start = None
 
         for n in glyph.get("nodes", []):
             node_type = n.get("type")
@@ -220,8 +221,8 @@ class VfbGlyph:
             pt = n["points"][self.master_index][0]
             if node_type == "move":
                 if in_qcurve:
-                    qcurve.append(pt)
-                    pen.qCurveTo(*qcurve)
+                    # The curve ends in the first point of its own path
+                    pen.qCurveTo(*qcurve, start)
                 if in_path:
                     if path_is_open:
                         pen.endPath()
@@ -231,6 +232,7 @@ class VfbGlyph:
                 in_qcurve = False
                 qcurve = []
                 pen.moveTo(pt)
+                start = pt
                 in_path = True
                 path_is_open = bool(flags & 8)
 
@@ -252,6 +254,8 @@ class VfbGlyph:
                 qcurve.append(pt)
             else:
                 raise ValueError(f"Unknown node type: '{node_type}'")
+        if in_qcurve:
+            pen.qCurveTo(*qcurve, start)
         if in_path:
             if path_is_open:
                 pen.endPath()
-- 
2.43.0


From 0531d787128ead6d43bc3404a155d769e3067e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 60/75] fix: Draw closed paths as such in drawPointsDirect

---
 src/vfbLib/vfb/glyph.py | 50 +++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 20acc6c..9f0a6d4 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -299,39 +299,41 @@ class VfbGlyph:
 
         glyph = self.entry.data
 
-        in_path = False
-        in_qcurve = False
+        path: list[tuple] = []
+        path_is_open = False
+
+        def end_path() -> None:
+            if not path:
+                return
+
+            if not path_is_open:
+                # Closing lines are implied, as are quadratic curves which end in the
+                # first point
+                pt, _ = path[0]
+                path[0] = (pt, "qcurve" if path[-1][1] is None else "line")
+            pen.beginPath()
+            for pt, segment_type in path:
+                pen.addPoint(pt, segment_type)
+            pen.endPath()
+            path.clear()
 
         for n in glyph.get("nodes", []):
             node_type = n.get("type")
+            pt = n["points"][self.master_index][0]
             if node_type == "move":
-                if in_qcurve:
-                    pen.addPoint(n["points"][self.master_index][0], "qcurve")
-                    in_qcurve = False
-                if in_path:
-                    pen.endPath()
-                pen.beginPath()
-                in_path = True
-                pen.addPoint(n["points"][self.master_index][0], "move")
+                end_path()
+                path_is_open = bool(n.get("flags", 0) & 8)
+                path.append((pt, "move"))
             elif node_type == "line":
-                if in_qcurve:
-                    pen.addPoint(n["points"][self.master_index][0], "qcurve")
-                    in_qcurve = False
-                else:
-                    pen.addPoint(n["points"][self.master_index][0], "line")
+                path.append((pt, "qcurve" if path[-1][1] is None else "line"))
             elif node_type == "curve":
-                pt3, pt1, pt2 = n["points"][self.master_index]
-                pen.addPoint(pt1, None)
-                pen.addPoint(pt2, None)
-                pen.addPoint(pt3, "curve")
+                pt, c1, c2 = n["points"][self.master_index]
+                path.extend([(c1, None), (c2, None), (pt, "curve")])
             elif node_type == "qcurve":
-                if not in_qcurve:
-                    in_qcurve = True
-                pen.addPoint(n["points"][self.master_index][0], None)
+                path.append((pt, None))
             else:
                 raise ValueError(f"Unknown node type: '{node_type}'")
-        if in_path:
-            pen.endPath()
+        end_path()
 
         for c in glyph.get("components", []):
             baseGlyphName = self._parent.glyph_order[c["gid"]]
-- 
2.43.0


From 8ab550f1bd7c74618526c8c953a43abb7e6b7c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 61/75] fix: Draw glyphs as they are now

---
 src/vfbLib/vfb/glyph.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 9f0a6d4..3d1982b 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -281,8 +281,8 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph()
+        # The glyph may have changed since it was last drawn
+        self._copy_to_ufo_glyph()
 
         if self._glyph is None:
             raise ValueError
@@ -450,8 +450,10 @@ class VfbGlyphMaster:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph(self.master_index)
+        # Include what was drawn into the master, the glyph may have changed since it was
+        # last drawn
+        self.entry.merge_masters_data()
+        self._copy_to_ufo_glyph(self.master_index)
 
         if self._glyph is None:
             raise ValueError
-- 
2.43.0


From a1acdf2f4f2d1180cbf57dde23a9f77458a06084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 62/75] fix: Drawing into a glyph which has been compiled

---
 src/vfbLib/vfb/glyph.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 3d1982b..c6603fb 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -360,11 +360,10 @@ class VfbGlyph:
         """
         # FIXME: Add test!!!
         if self.entry.data is None:
-            if self.entry.data is None:
-                # Make an empty glyph
-                self.empty()
-            else:
-                self.decompile()
+            # Make an empty glyph
+            self.empty()
+        else:
+            self.decompile()
         return VfbGlyphPointPen(self, self._parent)
 
 
@@ -473,9 +472,8 @@ class VfbGlyphMaster:
         """
         # FIXME: Add test!!!
         if self.entry.data is None:
-            if self.entry.data is None:
-                # Make an empty glyph
-                self.glyph.empty()
-            else:
-                self.entry.decompile()
+            # Make an empty glyph
+            self.glyph.empty()
+        else:
+            self.entry.decompile()
         return VfbGlyphPointPen(self, self.glyph._parent)
-- 
2.43.0


From 56c6e32c632d63ca951441d567c83072baf62f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 63/75] fix: Draw glyphs which were compiled or drawn into

---
 src/vfbLib/vfb/glyph.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index c6603fb..69c5ee1 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -80,6 +80,15 @@ class VfbGlyph:
     def empty(self) -> None:
         self.entry.data = get_empty_glyph(self._parent.num_masters)
 
+    def _update(self) -> None:
+        """
+        Prepare the data for reading: The entry may have been compiled since the last
+        access, or may have been drawn into.
+        """
+        if isinstance(self.entry.data, bytes):
+            self.entry.decompile()
+        self.entry.merge_masters_data()
+
     def _copy_to_ufo_glyph(self) -> None:
         """
         Copy minimal data to the VfbToUfoGlyph. Only data that is necessary for the pen
@@ -207,6 +216,7 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
+        self._update()
         glyph = self.entry.data
 
         path_is_open = False
@@ -282,6 +292,7 @@ class VfbGlyph:
             raise ValueError
 
         # The glyph may have changed since it was last drawn
+        self._update()
         self._copy_to_ufo_glyph()
 
         if self._glyph is None:
@@ -297,6 +308,7 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
+        self._update()
         glyph = self.entry.data
 
         path: list[tuple] = []
@@ -451,7 +463,7 @@ class VfbGlyphMaster:
 
         # Include what was drawn into the master, the glyph may have changed since it was
         # last drawn
-        self.entry.merge_masters_data()
+        self.glyph._update()
         self._copy_to_ufo_glyph(self.master_index)
 
         if self._glyph is None:
-- 
2.43.0


From bbf7575ad34dce4ad737e3f26a0da26fb58ab653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 64/75] fix: Name and number of paths of glyphs which were not
 drawn yet

---
 src/vfbLib/vfb/glyph.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 69c5ee1..193dad3 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from typing import TYPE_CHECKING
 
 from fontTools.pens.pointPen import AbstractPointPen, SegmentToPointPen
@@ -45,20 +44,19 @@ class VfbGlyph:
         Returns:
             int: The number of paths, or contours.
         """
-        if not self.entry.data["nodes"]:
-            return 0
-
-        node_types = [node["type"] for node in self.entry.data["nodes"]]
-        return node_types.count("move")
+        self._update()
+        nodes = self.entry.data.get("nodes", [])
+        return [node["type"] for node in nodes].count("move")
 
-    @cached_property
+    @property
     def name(self) -> str | None:
-        if self._glyph is None:
-            return None
-
-        return self._glyph.name
+        if isinstance(self.entry.data, bytes):
+            self.entry.decompile()
+        return self.entry.data.get("name")
 
     def clearContours(self):
+        if isinstance(self.entry.data, bytes):
+            self.entry.decompile()
         try:
             del self.entry.data["hints"]
         except KeyError:
@@ -393,18 +391,11 @@ class VfbGlyphMaster:
         Returns:
             int: The number of paths, or contours.
         """
-        if not self.entry.data["nodes"]:
-            return 0
-
-        node_types = [node["type"] for node in self.entry.data["nodes"]]
-        return node_types.count("move")
+        return len(self.glyph)
 
-    @cached_property
+    @property
     def name(self) -> str | None:
-        if self._glyph is None:
-            return None
-
-        return self._glyph.name
+        return self.glyph.name
 
     def _copy_to_ufo_glyph(self, master_index):
         """
@@ -438,6 +429,8 @@ class VfbGlyphMaster:
         self._glyph.build()
 
     def clearContours(self):
+        if isinstance(self.entry.data, bytes):
+            self.entry.decompile()
         if self.master_index == 0:
             target = self.entry.data
         else:
-- 
2.43.0


From 655221878e13c2a6e5544ab345dcfbe7b7fb48ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 65/75] fix: The items of a master are the glyphs in that
 master

---
 src/vfbLib/vfb/vfb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index ac79302..8a329b0 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -46,8 +46,8 @@ class VfbMaster:
     def info(self) -> VfbInfo:
         return self.vfb.info
 
-    def items(self) -> Iterable[tuple[str, VfbGlyph]]:
-        return self.vfb.items()
+    def items(self) -> Iterable[tuple[str, VfbGlyphMaster]]:
+        return [(name, self[name]) for name in self.keys()]
 
     def keys(self) -> Iterable[str]:
         return self.vfb.keys()
-- 
2.43.0


From f64926528e8bfa515921592643fefb4ce7234b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 66/75] fix: Draw into additional masters of glyphs with other
 node flags

---
 src/vfbLib/compilers/glyph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 600d83d..4841e9c 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -87,8 +87,9 @@ class GlyphCompiler(BaseCompiler):
             if "nodes" in master_data:
                 targets = cls._get_merge_targets(master_data, data, "nodes")
                 for src, tgt in targets:
-                    for key in ("type", "flags"):
-                        assert src[key] == tgt[key]
+                    assert src["type"] == tgt["type"]
+                    # The other flags can't be drawn through a pen
+                    assert src["flags"] & 9 == tgt["flags"] & 9
                 for src, tgt in targets:
                     tgt["points"][m] = src["points"][m]
 
-- 
2.43.0


From 7eacfd4e926c3ac0f89a1c24f54362f8285820d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 67/75] fix: Drawing into the first master again after drawing
 into an additional master

---
 src/vfbLib/vfb/pens.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index f072d84..fb051fb 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -22,6 +22,12 @@ class VfbGlyphPointPen(AbstractPointPen):
         self.glyphSet = glyphSet
         self.currentPath = None
         if self.glyph.master_index == 0:
+            # What was drawn into additional masters until now belongs to the existing
+            # paths, unless the matching paths are yet to be drawn
+            try:
+                self.glyph.entry.merge_masters_data()
+            except AssertionError:
+                pass
             self.target = self.glyph.entry.data
         else:
             if self.glyph.entry.temp_masters is None:
-- 
2.43.0


From a8b5dcae0188fd5d130ad4ee1858edbdf64ebad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 68/75] fix: Smooth flags may be guessed differently in
 additional masters

---
 src/vfbLib/compilers/glyph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 4841e9c..1fbfbb4 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -88,8 +88,10 @@ class GlyphCompiler(BaseCompiler):
                 targets = cls._get_merge_targets(master_data, data, "nodes")
                 for src, tgt in targets:
                     assert src["type"] == tgt["type"]
-                    # The other flags can't be drawn through a pen
-                    assert src["flags"] & 9 == tgt["flags"] & 9
+                    # Only open paths have another structure. The other flags can't be
+                    # drawn through a pen, or may be guessed from the coordinates of
+                    # each master.
+                    assert src["flags"] & 8 == tgt["flags"] & 8
                 for src, tgt in targets:
                     tgt["points"][m] = src["points"][m]
 
-- 
2.43.0


From 6e2980c99bc49277f7d838e0938c3d34b5bdb724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 69/75] fix: hint sets with negative node index are told for
 the node

---
 src/vfbLib/vfb/glyph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 193dad3..bad8795 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -132,7 +132,8 @@ class VfbGlyph:
                         if set_index in hint_sets:
                             logger.warning(f"Duplicate hint sets for node {set_index}")
                         hint_sets[set_index] = set_hints
-                    set_index = index
+                    # Negative indices are interpreted as in the UFO export
+                    set_index = index if index >= 0 else abs(index) - 1
                     set_hints = []
                 else:
                     set_hints.append(hints[kind][index])
-- 
2.43.0


From 4ac751f08e16089e396e3b3ed149369889e49306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 70/75] fix: hint masks which refer to missing hints don't
 prevent telling the hint sets

---
 src/vfbLib/vfb/glyph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index bad8795..483937e 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -135,7 +135,8 @@ class VfbGlyph:
                     # Negative indices are interpreted as in the UFO export
                     set_index = index if index >= 0 else abs(index) - 1
                     set_hints = []
-                else:
+                elif index < len(hints[kind]):
+                    # Other hints don't exist, they are ignored in the UFO export, too
                     set_hints.append(hints[kind][index])
             if set_hints:
                 # TODO: Filter out any consecutive identical hintmasks
-- 
2.43.0


From 47fe0f85e53d7da3b5914dfd1abcaff5b2c91f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 71/75] fix: glyphs tell their hints after the font was
 compiled

---
 src/vfbLib/vfb/glyph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 483937e..cb6e7ba 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -149,6 +149,7 @@ class VfbGlyph:
     def resolve_hints(self) -> "dict[str, list[HintTuple]]":
         hints: "dict[str, list[HintTuple]]" = {"h": [], "v": []}
 
+        self._update()
         mm_hints = self.entry.data.get("hints", {"h": [], "v": []})
 
         # Hints
@@ -174,6 +175,8 @@ class VfbGlyph:
         if self.links_entry is None:
             return hints
 
+        # The entry may have been compiled since the last access
+        self.links_entry.decompile()
         links = self.links_entry.data
         assert isinstance(links, dict)
         if not (links["x"] or links["y"]):
-- 
2.43.0


From 491b23d4a05f7dc1936440bcedc5f729cacc0b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:51 +0000
Subject: [PATCH 72/75] fix: yuri --long writes the longest notation

---
 src/vfbLib/value.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/value.py b/src/vfbLib/value.py
index cfcb271..d70ec25 100644
--- a/src/vfbLib/value.py
+++ b/src/vfbLib/value.py
@@ -1,7 +1,7 @@
 from argparse import ArgumentParser
 from io import BytesIO
 
-from vfbLib.compilers.value import write_value
+from vfbLib.compilers.value import write_value, write_value_long
 from vfbLib.helpers import deHexStr, hexStr
 from vfbLib.parsers.value import read_value
 
@@ -45,8 +45,9 @@ def yuri():
     if args:
         if args.encode:
             stream = BytesIO()
+            write = write_value_long if args.long else write_value
             for value in args.hexstring:
-                write_value(int(value), stream, args.signed)
+                write(int(value), stream, args.signed)
             print(hexStr(stream.getvalue()))
         else:
             data = deHexStr("".join(args.hexstring))
-- 
2.43.0


From 198cbc786280d7eaef6b617d678cf48328d652aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:36 +0000
Subject: [PATCH 73/75] fix: don't take the parts of a glyph class for the
 operands of a positioning rule

---
 src/vfbLib/ufo/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/features.py b/src/vfbLib/ufo/features.py
index 76c69b7..2fa6576 100644
--- a/src/vfbLib/ufo/features.py
+++ b/src/vfbLib/ufo/features.py
@@ -2,7 +2,7 @@ import re
 
 # [enum] pos, the first operand, and the second one before the value
 pair_rule = re.compile(
-    r"^(\s*(?:enum\s+)?pos\s+)(\[[^\]]*\]|\S+)(\s+)(\[[^\]]*\]|\S+)(?=\s+\S)"
+    r"^(\s*(?:enum\s+)?pos\s+)(\[[^\]]*\]|[^\s\[]\S*)(\s+)(\[[^\]]*\]|[^\s\[]\S*)(?=\s+\S)"
 )
 # The start of a kerning class name, also inside of square brackets
 kern_class = re.compile(r"(?<![^\s\[])@_")
-- 
2.43.0


From a82a73397f31f2e1685ccc5ab71962bdc30de316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 74/75] fix: a damaged number of guides doesn't use up the
 memory

---
 src/vfbLib/parsers/guides.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/parsers/guides.py b/src/vfbLib/parsers/guides.py
index dadfb68..0aa9a17 100644
--- a/src/vfbLib/parsers/guides.py
+++ b/src/vfbLib/parsers/guides.py
@@ -39,13 +39,15 @@ def parse_guides(stream: "BytesIO", num_masters: int, name: str) -> "MMGuidesDic
         if num_guides == 0:
             continue
 
-        guides[direction] = [[] for _ in range(num_guides)]
-        for i in range(num_guides):
+        for _ in range(num_guides):
+            # The number may be damaged, don't rely on it before there is data
+            guide: "list[GuideDict]" = []
+            guides[direction].append(guide)
             for _ in range(num_masters):
                 try:
                     pos = read_value(stream)
                     angle = degrees(atan2(read_value(stream), 10000))
-                    guides[direction][i].append(GuideDict(pos=pos, angle=angle))
+                    guide.append(GuideDict(pos=pos, angle=angle))
                 except ValueError:
                     logger.error(f"Missing {direction} guideline data ({name})")
                     raise
-- 
2.43.0


From 81055a77f78926441c301d949773bd90489dcafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:59 +0000
Subject: [PATCH 75/75] fix: damaged counts of items without masters don't hang
 the parser

---
 src/vfbLib/parsers/base.py   | 16 ++++++++++++++++
 src/vfbLib/parsers/glyph.py  |  4 +++-
 src/vfbLib/parsers/guides.py |  3 ++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index 2519931..f151e22 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -25,6 +25,22 @@ if TYPE_CHECKING:
 logger = logging.getLogger(__name__)
 
 
+def check_masters(count: int, num_masters: int) -> None:
+    """
+    Make sure that `count` items, which store their values per master, take any data.
+    Without masters, a damaged count would never reach the end of the data.
+
+    Args:
+        count (int): The number of items
+        num_masters (int): The number of masters
+
+    Raises:
+        ValueError: When there are items, but no masters.
+    """
+    if count > 0 and num_masters < 1:
+        raise ValueError(f"Invalid number of masters: {num_masters}")
+
+
 class StreamReader:
     """
     Base class that reads values from the input stream.
diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index bd49491..14f1495 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -7,7 +7,7 @@ from fontTools.ttLib.tables.ttProgram import Program
 
 from vfbLib import DIRECTIONS, gdef_class_names, replace_types
 from vfbLib.helpers import hexStr
-from vfbLib.parsers.base import BaseParser
+from vfbLib.parsers.base import BaseParser, check_masters
 from vfbLib.parsers.guides import parse_guides
 from vfbLib.truetype import TT_COMMANDS
 from vfbLib.typing import (
@@ -65,6 +65,7 @@ class GlyphAnchorsParser(BaseParser):
         anchors = []
         num_anchors = self.read_value()
         num_masters = self.read_value()
+        check_masters(num_anchors, num_masters)
         for _ in range(num_anchors):
             anchor = MMAnchorDict(x=[], y=[])
             for _ in range(num_masters):
@@ -322,6 +323,7 @@ class GlyphParser(BaseParser):
         hints = MMHintsDict(v=[], h=[])
         for direction in DIRECTIONS:
             num_hints = self.read_value()
+            check_masters(num_hints, self.num_masters)
             for _ in range(num_hints):
                 master_hints = []
                 for _ in range(self.num_masters):
diff --git a/src/vfbLib/parsers/guides.py b/src/vfbLib/parsers/guides.py
index 0aa9a17..84eeb8e 100644
--- a/src/vfbLib/parsers/guides.py
+++ b/src/vfbLib/parsers/guides.py
@@ -3,7 +3,7 @@ from math import atan2, degrees
 from typing import TYPE_CHECKING
 
 from vfbLib import DIRECTIONS
-from vfbLib.parsers.base import BaseParser
+from vfbLib.parsers.base import BaseParser, check_masters
 from vfbLib.typing import GuideDict, GuidePropertiesDict, GuidePropertyDict
 from vfbLib.value import read_value
 
@@ -39,6 +39,7 @@ def parse_guides(stream: "BytesIO", num_masters: int, name: str) -> "MMGuidesDic
         if num_guides == 0:
             continue
 
+        check_masters(num_guides, num_masters)
         for _ in range(num_guides):
             # The number may be damaged, don't rely on it before there is data
             guide: "list[GuideDict]" = []
-- 
2.43.0

