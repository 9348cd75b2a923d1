From 9924b2b503a9f9b4e89b4149ed236bae3e975ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:21 +0000
Subject: [PATCH 001/161] fix: keep a negative read size inside the data range

---
 dtformats/data_range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_range.py b/dtformats/data_range.py
index e46e42d..7596555 100644
--- a/dtformats/data_range.py
+++ b/dtformats/data_range.py
@@ -56,7 +56,7 @@ class DataRange:
         if self._current_offset >= self.data_size:
             return b""
 
-        if size is None:
+        if size is None or size < 0:
             size = self.data_size
         if self._current_offset + size > self.data_size:
             size = self.data_size - self._current_offset
-- 
2.43.0


From d39d0ba2a4fcc472f5f837663f54c23adbc4e79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:17 +0000
Subject: [PATCH 002/161] fix: print the IP address of an utmp entry as an
 address

---
 dtformats/utmp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dtformats/utmp.py b/dtformats/utmp.py
index 311b1ca..b703098 100644
--- a/dtformats/utmp.py
+++ b/dtformats/utmp.py
@@ -64,11 +64,13 @@ class LinuxLibc6UtmpFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Microseconds", f"{entry.microseconds:d}")
 
         if entry.ip_address[4:] == self._EMPTY_IP_ADDRESS[4:]:
-            value_string = self._FormatArrayOfIntegersAsIPv4Address(
+            value_string, _ = self._FormatArrayOfIntegersAsIPv4Address(
                 entry.ip_address[:4]
             )
         else:
-            value_string = self._FormatArrayOfIntegersAsIPv6Address(entry.ip_address)
+            value_string, _ = self._FormatArrayOfIntegersAsIPv6Address(
+                entry.ip_address
+            )
 
         self._DebugPrintValue("IP address", value_string)
 
-- 
2.43.0


From 0e276e832f45e388a9505c1e63e69d5c188b97b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:17 +0000
Subject: [PATCH 003/161] fix: do not fail on utmp strings that are not UTF-8

---
 dtformats/utmp.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/dtformats/utmp.py b/dtformats/utmp.py
index b703098..a2c6688 100644
--- a/dtformats/utmp.py
+++ b/dtformats/utmp.py
@@ -39,18 +39,15 @@ class LinuxLibc6UtmpFile(data_format.BinaryDataFile):
 
         self._DebugPrintValue("PID", f"{entry.pid:d}")
 
-        value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(entry.terminal.replace(b"\0", b""))
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
-        value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(entry.username.replace(b"\0", b""))
         self._DebugPrintValue("Username", value_string)
 
-        value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(entry.hostname.replace(b"\0", b""))
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintValue("Termination status", f"0x{entry.termination_status:04x}")
@@ -151,14 +148,12 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
         Args:
           entry (macosx_utmpx_entry): entry.
         """
-        value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(entry.username.replace(b"\0", b""))
         self._DebugPrintValue("Username", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
-        value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(entry.terminal.replace(b"\0", b""))
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("PID", f"{entry.pid:d}")
@@ -174,8 +169,7 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
 
         self._DebugPrintValue("Microseconds", f"{entry.microseconds:d}")
 
-        value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(entry.hostname.replace(b"\0", b""))
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintData("Unknown2", entry.unknown2)
-- 
2.43.0


From 688e19c0d123df4aee49bda540149bec63899766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:05 +0000
Subject: [PATCH 004/161] fix: escape byte value 0xff when formatting a stream
 as a string

---
 dtformats/data_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 0646983..740bbe1 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -49,7 +49,7 @@ class BinaryDataFormat:
     # Byte values that are considered non-printable characters.
     _NON_PRINTABLE_BYTE_VALUES = {value: f"\\x{value:02x}" for value in range(0, 0x20)}
     _NON_PRINTABLE_BYTE_VALUES.update(
-        {value: f"\\x{value:02x}" for value in range(0x7F, 0xFF)}
+        {value: f"\\x{value:02x}" for value in range(0x7F, 0x100)}
     )
     _NON_PRINTABLE_BYTE_VALUES_TRANSLATION_TABLE = str.maketrans(
         _NON_PRINTABLE_BYTE_VALUES
-- 
2.43.0


From a81a40692f87666215910b425d8f94ffabd8bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:08 +0000
Subject: [PATCH 005/161] fix: reject a CPIO file entry with a truncated path

---
 dtformats/cpio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index c11c9b7..b8e7887 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -239,7 +239,9 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintFileEntry(file_entry)
 
-        path_data = file_object.read(file_entry.path_size)
+        path_data = self._ReadData(
+            file_object, file_offset, file_entry.path_size, "path"
+        )
 
         if self._debug:
             self._DebugPrintData("Path data", path_data)
-- 
2.43.0


From a32ac6fb2824627af90748caadf3732d864e5660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:08 +0000
Subject: [PATCH 006/161] fix: raise ParseError on a CPIO path that is not
 ASCII

---
 dtformats/cpio.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index b8e7887..8a0b42e 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -249,7 +249,13 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         file_offset += file_entry.path_size
 
         # TODO: should this be ASCII?
-        path = path_data.decode("ascii")
+        try:
+            path = path_data.decode("ascii")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode path with error: {exception!s}"
+            )
+
         path, _, _ = path.partition("\x00")
 
         if self._debug:
-- 
2.43.0


From 64c4e018708b71ea640c2ac13370c900734c3b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:08 +0000
Subject: [PATCH 007/161] fix: return no file entry from an empty CPIO archive

---
 dtformats/cpio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index 8a0b42e..e3df30e 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -392,7 +392,7 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
           CPIOArchiveFileEntry: CPIO archive file entry or None.
         """
         if not self._file_entries:
-            return False
+            return None
 
         return self._file_entries.get(path)
 
-- 
2.43.0


From 9ae2504148cd7b1e8b7a503b3c5ff88d42f54ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:08 +0000
Subject: [PATCH 008/161] fix: reject negative numbers in a CPIO file entry

---
 dtformats/cpio.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index e3df30e..1df1b05 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -212,6 +212,9 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
                 try:
                     value = int(value, 8)
                 except ValueError:
+                    value = -1
+
+                if value < 0:
                     raise errors.ParseError(
                         (
                             f"Unable to convert attribute: {attribute_name:s} into an "
@@ -227,6 +230,9 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
                 try:
                     value = int(value, 16)
                 except ValueError:
+                    value = -1
+
+                if value < 0:
                     raise errors.ParseError(
                         (
                             f"Unable to convert attribute: {attribute_name:s} into an "
-- 
2.43.0


From b6ffd7e70c8402a630d744c52a8198b9aebadbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:27 +0000
Subject: [PATCH 009/161] fix: print the values of the INFO2 file header

---
 dtformats/recycler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/recycler.py b/dtformats/recycler.py
index 8bb6783..4961b56 100644
--- a/dtformats/recycler.py
+++ b/dtformats/recycler.py
@@ -117,7 +117,7 @@ class RecyclerInfo2File(data_format.BinaryDataFile):
             file_object, 0, data_type_map, "file header"
         )
         if self._debug:
-            debug_info = self._DEBUG_INFORMATION.get("recycler_info2_file_entry", None)
+            debug_info = self._DEBUG_INFORMATION.get("recycler_info2_file_header", None)
             self._DebugPrintStructureObject(file_header, debug_info)
 
         if file_header.file_entry_size not in (280, 800):
-- 
2.43.0


From 2c7e93d14ee17810db79063b66d4b69aea868681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:27 +0000
Subject: [PATCH 010/161] fix: stop an INFO2 ANSI filename at its end-of-string
 character

---
 dtformats/recycler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/recycler.py b/dtformats/recycler.py
index 4961b56..b0f2ac2 100644
--- a/dtformats/recycler.py
+++ b/dtformats/recycler.py
@@ -42,6 +42,9 @@ class RecyclerInfo2File(data_format.BinaryDataFile):
         Raises:
           ParseError: if the string could not be decoded.
         """
+        # Ignore remnant data after the end-of-string character.
+        string, _, _ = string.partition(b"\x00")
+
         try:
             return string.decode(self._codepage)
         except UnicodeDecodeError as exception:
-- 
2.43.0


From 4d34ae05297eb38b4744415dd136148937ac103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:10 +0000
Subject: [PATCH 011/161] fix: use separate debug information for a Chrome
 cache entry

---
 dtformats/chrome_cache.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/chrome_cache.debug.yaml b/dtformats/chrome_cache.debug.yaml
index a19a4b6..00668b1 100644
--- a/dtformats/chrome_cache.debug.yaml
+++ b/dtformats/chrome_cache.debug.yaml
@@ -39,7 +39,7 @@ attributes:
   description: "User"
   format: custom:array_of_decimals
 ---
-data_type_map: chrome_cache_data_block_file_header
+data_type_map: chrome_cache_entry
 attributes:
 - name: hash
   description: "Hash"
-- 
2.43.0


From 36767235d0026c03d8779cca5c145d2b19864c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:10 +0000
Subject: [PATCH 012/161] fix: print the last block range of a Chrome cache
 allocation bitmap

---
 dtformats/chrome_cache.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 6020080..26bd075 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -265,6 +265,16 @@ class DataBlockFile(data_format.BinaryDataFile):
                 value_32bit >>= 1
                 block_number += 1
 
+        if in_block_range and self._debug:
+            block_range_size = block_range_end - block_range_start
+            self._DebugPrintValue(
+                "Block range",
+                (
+                    f"{block_range_start:d} - {block_range_end:d} "
+                    f"({block_range_size:d})"
+                ),
+            )
+
     def _DebugPrintCacheEntryDataStreamSizes(self, array_of_integers):
         """Prints cache entry data stream sizes debug information.
 
-- 
2.43.0


From e2ca627b419939962af6c2f0b5a22552bb346f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:10 +0000
Subject: [PATCH 013/161] fix: describe a Chrome cache address with an unknown
 file type

---
 dtformats/chrome_cache.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 26bd075..8fae2a7 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -159,6 +159,12 @@ class CacheAddress:
                 f"file type: {file_type_description:s}, filename: {self.filename:s})"
             )
 
+        if self.filename is None:
+            return (
+                f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
+                f"file type: {file_type_description:s})"
+            )
+
         # TODO: print reserved bits.
         return (
             f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
-- 
2.43.0


From cb2fa7ad655bf98b344f9ce330ac75ee5978604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:10 +0000
Subject: [PATCH 014/161] fix: format a Chrome cache timestamp that is out of
 bounds

---
 dtformats/chrome_cache.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 8fae2a7..473feff 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -358,9 +358,13 @@ class DataBlockFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
+        try:
+            date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
+                microseconds=integer
+            )
+        except OverflowError:
+            return f"0x{integer:08x}"
+
         return f"{date_string!s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
@@ -537,9 +541,13 @@ class IndexFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
+        try:
+            date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
+                microseconds=integer
+            )
+        except OverflowError:
+            return f"0x{integer:08x}"
+
         return f"{date_string!s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
-- 
2.43.0


From ee54eb776898b23ca2b66dd9b334884edcf94b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:10 +0000
Subject: [PATCH 015/161] fix: raise ParseError on a Chrome cache file without
 signature

---
 dtformats/chrome_cache.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 473feff..4b3a259 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -789,7 +789,10 @@ class ChromeCacheParser:
 
             try:
                 signature = self._UINT32LE.MapByteStream(signature_data)
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to signature with error: {exception!s}"
                 )
-- 
2.43.0


From 56fd41d131a861631d9e37f78df89b4f882a297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:10 +0000
Subject: [PATCH 016/161] fix: make Chrome cache directory parsing work

---
 dtformats/chrome_cache.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 4b3a259..a5f8861 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -689,7 +689,7 @@ class ChromeCacheParser:
         Raises:
           ParseError: if the directory cannot be read.
         """
-        index_file_path = self._file_system_helper.JoinPath(path, "index")
+        index_file_path = self._file_system_helper.JoinPath([path, "index"])
         if not self._file_system_helper.CheckFileExistsByPath(index_file_path):
             raise errors.ParseError(f"Missing index file: {index_file_path:s}")
 
@@ -701,7 +701,7 @@ class ChromeCacheParser:
         for cache_address in index_file.index_table.values():
             if cache_address.filename not in data_block_files:
                 data_block_file_path = self._file_system_helper.JoinPath(
-                    path, cache_address.filename
+                    [path, cache_address.filename]
                 )
                 if not self._file_system_helper.CheckFileExistsByPath(
                     data_block_file_path
@@ -740,20 +740,7 @@ class ChromeCacheParser:
                     # print(f'Cache address\t: {cache_address_string:s}')
                     cache_entry = data_file.ReadCacheEntry(cache_address.block_offset)
 
-                    try:
-                        cache_entry_key = cache_entry.key.decode("ascii")
-                    except UnicodeDecodeError:
-                        logging.warning(
-                            f"Unable to decode cache entry key at cache address: "
-                            f"0x{cache_address.value:08x}. Characters that cannot be "
-                            f'decoded will be replaced with "?" or "\\ufffd".'
-                        )
-                        cache_entry_key = cache_entry.key.decode(
-                            "ascii", errors="replace"
-                        )
-
-                    # TODO: print(f'Url\t\t: {cache_entry_key:s}')
-                    _ = cache_entry_key
+                    # TODO: print(f'Url\t\t: {cache_entry.key:s}')
 
                     date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
                         microseconds=cache_entry.creation_time
-- 
2.43.0


From 1c22ca642903ccbad5875c021bbba58c543e0e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:39 +0000
Subject: [PATCH 017/161] fix: read the second TZif header instead of the first
 one again

---
 dtformats/tzif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 9532327..866bff5 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -108,10 +108,11 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file header cannot be read.
         """
+        file_offset = file_object.tell()
         data_type_map = self._GetDataTypeMap("tzif_file_header")
 
         file_header, _ = self._ReadStructureFromFileObject(
-            file_object, 0, data_type_map, "file header"
+            file_object, file_offset, data_type_map, "file header"
         )
 
         if self._debug:
-- 
2.43.0


From 9865728a8c0cf1f30f2bd6c7856f1061513d5667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:39 +0000
Subject: [PATCH 018/161] fix: read 12 byte leap second records in 64-bit TZif
 data

---
 dtformats/tzif.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 866bff5..438cb34 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -128,18 +128,19 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
 
         return file_header
 
-    def _ReadLeapSecondRecords(self, file_object, file_header):
+    def _ReadLeapSecondRecords(self, file_object, file_header, record_size=8):
         """Reads the lead second records.
 
         Args:
           file_object (file): file-like object.
           file_header (tzif_file_header): file header.
+          record_size (Optional[int]): size of a leap second record.
 
         Raises:
           ParseError: if the leap second records cannot be read.
         """
         file_offset = file_object.tell()
-        data_size = 8 * file_header.number_of_leap_seconds
+        data_size = record_size * file_header.number_of_leap_seconds
 
         data = self._ReadData(
             file_object, file_offset, data_size, "leap second records"
@@ -289,7 +290,7 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         self._ReadTransitionTimeIndex(file_object, file_header)
         self._ReadLocalTimeTypesTable(file_object, file_header)
         self._ReadTimeZoneAbbreviationStrings(file_object, file_header)
-        self._ReadLeapSecondRecords(file_object, file_header)
+        self._ReadLeapSecondRecords(file_object, file_header, record_size=12)
         self._ReadStandardTimeIndicators(file_object, file_header)
         self._ReadUTCTimeIndicators(file_object, file_header)
 
-- 
2.43.0


From d9ff62907c0baafc9c82473bc506aa8f961dee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:39 +0000
Subject: [PATCH 019/161] fix: print a Safari cookie timestamp that is out of
 bounds

---
 dtformats/safari_cookies.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index 96fdb22..27e086f 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -53,20 +53,28 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Value offset", f"{record_header.value_offset:d}")
         self._DebugPrintValue("Unknown3", f"0x{record_header.unknown3:08x}")
 
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.expiration_time)
-        )
-        self._DebugPrintValue(
-            "Expiration time", f"{date_time!s} ({record_header.expiration_time:f})"
-        )
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.creation_time)
-        )
-        self._DebugPrintValue(
-            "Creation time", f"{date_time!s} ({record_header.creation_time:f})"
-        )
+        self._DebugPrintTimestamp("Expiration time", record_header.expiration_time)
+        self._DebugPrintTimestamp("Creation time", record_header.creation_time)
         self._DebugPrintText("\n")
 
+    def _DebugPrintTimestamp(self, description, timestamp):
+        """Prints a timestamp value for debugging.
+
+        Args:
+          description (str): description.
+          timestamp (float): number of seconds since January 1, 2001.
+        """
+        value_string = f"{timestamp:f}"
+        try:
+            date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
+                seconds=int(timestamp)
+            )
+            value_string = f"{date_time!s} ({value_string:s})"
+        except (OverflowError, ValueError):
+            pass
+
+        self._DebugPrintValue(description, value_string)
+
     def _ReadCString(self, page_data, string_offset):
         """Reads a string from the page data.
 
-- 
2.43.0


From 1a03532b0ade15a6c0cd7b0bf99a0315500857f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:48 +0000
Subject: [PATCH 020/161] fix: read TZif files without transition times

---
 dtformats/tzif.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 438cb34..0feaa30 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -267,8 +267,10 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
 
         self.format_version = file_header.format_version
 
-        self._ReadTransitionTimes32bit(file_object, file_header)
-        self._ReadTransitionTimeIndex(file_object, file_header)
+        if file_header.number_of_transition_times > 0:
+            self._ReadTransitionTimes32bit(file_object, file_header)
+            self._ReadTransitionTimeIndex(file_object, file_header)
+
         self._ReadLocalTimeTypesTable(file_object, file_header)
         self._ReadTimeZoneAbbreviationStrings(file_object, file_header)
         self._ReadLeapSecondRecords(file_object, file_header)
@@ -286,8 +288,10 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         """
         file_header = self._ReadFileHeader(file_object)
 
-        self._ReadTransitionTimes64bit(file_object, file_header)
-        self._ReadTransitionTimeIndex(file_object, file_header)
+        if file_header.number_of_transition_times > 0:
+            self._ReadTransitionTimes64bit(file_object, file_header)
+            self._ReadTransitionTimeIndex(file_object, file_header)
+
         self._ReadLocalTimeTypesTable(file_object, file_header)
         self._ReadTimeZoneAbbreviationStrings(file_object, file_header)
         self._ReadLeapSecondRecords(file_object, file_header, record_size=12)
-- 
2.43.0


From 6f6c37ab8a9d67c3eb4b2291012f2528dc724f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:48 +0000
Subject: [PATCH 021/161] fix: read Safari cookies files without pages

---
 dtformats/safari_cookies.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index 27e086f..ac7bbed 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -138,6 +138,10 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintFileHeader(file_header)
 
+        self._page_sizes = []
+        if file_header.number_of_pages == 0:
+            return
+
         file_offset = file_header_data_size
 
         # TODO: move page sizes array into file header, this will require dtFabric
@@ -169,16 +173,14 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
                 f"error: {exception!s}"
             )
 
-        self._page_sizes = []
-        if file_header.number_of_pages > 0:
-            for index, page_size in enumerate(page_sizes_array):
-                self._page_sizes.append(page_size)
-
-                if self._debug:
-                    self._DebugPrintValue(f"Page: {index:d} size", f"{page_size:d}")
+        for index, page_size in enumerate(page_sizes_array):
+            self._page_sizes.append(page_size)
 
             if self._debug:
-                self._DebugPrintText("\n")
+                self._DebugPrintValue(f"Page: {index:d} size", f"{page_size:d}")
+
+        if self._debug:
+            self._DebugPrintText("\n")
 
     def _ReadPage(self, file_object, file_offset, page_size):
         """Reads a page.
-- 
2.43.0


From a470e1c8b75d6e2e73fd12da6f0b771e50ad483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:29 +0000
Subject: [PATCH 022/161] fix: raise ParseError on a CUPS IPP string value that
 cannot be decoded

---
 dtformats/cups_ipp.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index 3af6999..82b1cc4 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -165,13 +165,23 @@ class CupsIppFile(data_format.BinaryDataFile):
             pass
 
         elif attribute.tag_value in self._STRING_WITHOUT_LANGUAGE_VALUES:
-            value = attribute.value_data.decode(self._last_charset_attribute)
+            try:
+                value = attribute.value_data.decode(self._last_charset_attribute)
+            except (LookupError, ValueError) as exception:
+                raise errors.ParseError(
+                    f"Unable to decode string value with error: {exception!s}"
+                )
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
 
         elif attribute.tag_value in self._ASCII_STRING_VALUES:
-            value = attribute.value_data.decode("ascii")
+            try:
+                value = attribute.value_data.decode("ascii")
+            except UnicodeDecodeError as exception:
+                raise errors.ParseError(
+                    f"Unable to decode ASCII string value with error: {exception!s}"
+                )
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
-- 
2.43.0


From 9b46350f0d377b529cf7237bc05d80c1083bca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:29 +0000
Subject: [PATCH 023/161] fix: raise ParseError on a CUPS IPP date and time
 value that is out of bounds

---
 dtformats/cups_ipp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index 82b1cc4..c0ff3ff 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -285,9 +285,14 @@ class CupsIppFile(data_format.BinaryDataFile):
             value.hours_from_utc,
             value.minutes_from_utc,
         )
-        return dfdatetime_rfc2579_date_time.RFC2579DateTime(
-            rfc2579_date_time_tuple=rfc2579_date_time_tuple
-        )
+        try:
+            return dfdatetime_rfc2579_date_time.RFC2579DateTime(
+                rfc2579_date_time_tuple=rfc2579_date_time_tuple
+            )
+        except ValueError as exception:
+            raise errors.ParseError(
+                f"Unable to parse date-time value with error: {exception!s}"
+            )
 
     def _ReadIntegerValue(self, byte_stream, file_offset):
         """Reads an integer value.
-- 
2.43.0


From 78048ae31187084a0dcc66bacb5b04e5a2611d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:29 +0000
Subject: [PATCH 024/161] fix: read the footer of an empty gzip member and
 raise ParseError on corrupt compressed data

---
 dtformats/gzipfile.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dtformats/gzipfile.py b/dtformats/gzipfile.py
index 422a310..7395235 100644
--- a/dtformats/gzipfile.py
+++ b/dtformats/gzipfile.py
@@ -44,15 +44,21 @@ class GZipFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[bytes, bytes]: decompressed data and remaining data.
+
+        Raises:
+          ParseError: if the compressed data cannot be decompressed.
         """
         data_segments = []
-        while compressed_data:
-            data = zlib_decompressor.decompress(compressed_data)
-            if not data:
-                break
+        while compressed_data and not zlib_decompressor.eof:
+            try:
+                data = zlib_decompressor.decompress(compressed_data)
+            except zlib.error as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress data with error: {exception!s}"
+                )
 
             data_segments.append(data)
-            compressed_data = getattr(zlib_decompressor, "unused_data", b"")
+            compressed_data = zlib_decompressor.unused_data
 
         return b"".join(data_segments), compressed_data
 
@@ -65,13 +71,13 @@ class GZipFile(data_format.BinaryDataFile):
         zlib_decompressor = zlib.decompressobj(-zlib.MAX_WBITS)
         compressed_data = file_object.read(self._BUFFER_SIZE)
         while compressed_data:
-            data, compressed_data = self._ReadCompressedData(
+            _, compressed_data = self._ReadCompressedData(
                 zlib_decompressor, compressed_data
             )
             if compressed_data:
                 file_object.seek(-len(compressed_data), os.SEEK_CUR)
 
-            if not data:
+            if zlib_decompressor.eof:
                 break
 
             compressed_data = file_object.read(self._BUFFER_SIZE)
-- 
2.43.0


From 90745a79423912b9e2e6c065d2b382bb2be1e4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:30 +0000
Subject: [PATCH 025/161] fix: raise ParseError on a fseventsd file that is not
 gzip compressed

---
 dtformats/fseventsd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dtformats/fseventsd.py b/dtformats/fseventsd.py
index 079f414..c734a54 100644
--- a/dtformats/fseventsd.py
+++ b/dtformats/fseventsd.py
@@ -3,6 +3,7 @@
 import pygzipf
 
 from dtformats import data_format
+from dtformats import errors
 
 
 class FseventsFile(data_format.BinaryDataFile):
@@ -103,7 +104,13 @@ class FseventsFile(data_format.BinaryDataFile):
           ParseError: if the file cannot be read.
         """
         gzipf_file = pygzipf.file()
-        gzipf_file.open_file_object(file_object)
+
+        try:
+            gzipf_file.open_file_object(file_object)
+        except OSError as exception:
+            raise errors.ParseError(
+                f"Unable to open gzip file with error: {exception!s}"
+            )
 
         try:
             file_offset = 0
-- 
2.43.0


From 0752de2f8ff71160dee3cc13fbf337106bf9496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:21 +0000
Subject: [PATCH 026/161] fix: raise ParseError on data at an offset or of a
 size out of bounds

---
 dtformats/data_format.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 740bbe1..c26a5ff 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -607,11 +607,11 @@ class BinaryDataFormat:
         if not file_object:
             raise ValueError("Missing file-like object.")
 
-        file_object.seek(file_offset, os.SEEK_SET)
-
         read_error = ""
 
         try:
+            file_object.seek(file_offset, os.SEEK_SET)
+
             data = file_object.read(data_size)
             read_count = len(data)
 
@@ -620,8 +620,8 @@ class BinaryDataFormat:
                     f"missing data (read: {read_count:d}, requested: {data_size:d})"
                 )
 
-        except OSError as exception:
-            read_error = f"{exception!s}"
+        except (MemoryError, OSError, OverflowError) as exception:
+            read_error = f"{exception!s}" or "out of memory"
 
         if read_error:
             raise errors.ParseError(
-- 
2.43.0


From 34596aa975f7b3d7f1bba3aa2ef8f87685603289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:24 +0000
Subject: [PATCH 027/161] fix: read BSM tokens without debug information or
 description in debug mode

---
 dtformats/bsm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index ce1e2f1..71ebbec 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -783,6 +783,7 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         0x3C: "token exec_args",
         0x3D: "token exec_env",
         0x3E: "token attr32",
+        0x52: "token exit",
         0x60: "token zonename",
         0x71: "token arg64",
         0x72: "token return64",
@@ -968,7 +969,8 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         if self._debug:
             debug_info_name = self._DEBUG_INFO_NAME.get(token.token_type)
             debug_info = self._DEBUG_INFORMATION.get(debug_info_name)
-            self._DebugPrintStructureObject(token, debug_info)
+            if debug_info:
+                self._DebugPrintStructureObject(token, debug_info)
 
         return token
 
-- 
2.43.0


From ba384fae3daee5766881ccec19b3e734f7bf9090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:24 +0000
Subject: [PATCH 028/161] fix: read the header token of a BSM record once and
 raise ParseError if the trailer token is missing

---
 dtformats/bsm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index 71ebbec..4abd8bf 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -925,6 +925,8 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
 
         header_record_size = token.record_size
         record_end_offset = file_offset + header_record_size
+        file_offset = file_object.tell()
+
         while file_offset < record_end_offset:
             token = self._ReadToken(file_object, file_offset)
 
@@ -936,6 +938,9 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
             if token.token_type == self._TRAILER_TOKEN_TYPE:
                 break
 
+        if token.token_type != self._TRAILER_TOKEN_TYPE:
+            raise errors.ParseError("Missing trailer token.")
+
         if token.record_size != header_record_size:
             raise errors.ParseError(
                 "Mismatch of event record size between header and trailer token."
-- 
2.43.0


From 75189ae508c58e8dfc8fc316668961e978eab692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:24 +0000
Subject: [PATCH 029/161] fix: raise ParseError on an unsupported BSM net type
 regardless of debug mode

---
 dtformats/bsm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index 4abd8bf..ed9cd89 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -971,6 +971,10 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         if not token:
             raise errors.ParseError(f"Unsupported token type: {token_type:d}")
 
+        net_type = getattr(token, "net_type", None)
+        if net_type not in (None, 4, 16):
+            raise errors.ParseError(f"Unsupported net type: {net_type:d}")
+
         if self._debug:
             debug_info_name = self._DEBUG_INFO_NAME.get(token.token_type)
             debug_info = self._DEBUG_INFORMATION.get(debug_info_name)
-- 
2.43.0


From 9dc8c0de0aa78bb5024eb24115bbea8f7340e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:24 +0000
Subject: [PATCH 030/161] fix: use the element data type to determine the size
 of the data of a BSM data token

---
 dtformats/bsm.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/bsm.yaml b/dtformats/bsm.yaml
index 611fda7..734083e 100644
--- a/dtformats/bsm.yaml
+++ b/dtformats/bsm.yaml
@@ -162,7 +162,7 @@ members:
 - name: data
   type: stream
   element_data_type: byte
-  elements_data_size: bsm_token_data.number_of_elements
+  elements_data_size: bsm_token_data.number_of_elements << bsm_token_data.element_data_type
 ---
 name: bsm_token_exec_args
 type: structure
-- 
2.43.0


From d8a6214aa8d548161b2849f2212a4606033de3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:24 +0000
Subject: [PATCH 031/161] fix: format systemd journal offsets and hashes as
 hexadecimal values

---
 dtformats/systemd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index 040f9d1..800a7a0 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -84,13 +84,13 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, entry_item in enumerate(entry_items):
-            value_string = self._FormatIntegerAsHexadecimal8(entry_item.object_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_item.object_offset)
             line = self._FormatValue(
                 f"    Entry item: {index:d} object offset", value_string
             )
             lines.append(line)
 
-            value_string = self._FormatIntegerAsHexadecimal8(entry_item.hash)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_item.hash)
             line = self._FormatValue(f"    Entry item: {index:d} hash", value_string)
             lines.append(line)
 
@@ -107,7 +107,7 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, entry_object_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(entry_object_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_object_offset)
             line = self._FormatValue(
                 f"    Entry object offset: {index:d}", value_string
             )
-- 
2.43.0


From 906c5f729281aa76af0beed00c8f26035b61d57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:24 +0000
Subject: [PATCH 032/161] fix: print the data size of a systemd journal object
 header

---
 dtformats/systemd.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/systemd.debug.yaml b/dtformats/systemd.debug.yaml
index 6e09977..9a3c187 100644
--- a/dtformats/systemd.debug.yaml
+++ b/dtformats/systemd.debug.yaml
@@ -137,6 +137,6 @@ attributes:
 - name: reserved1
   description: "Reserved"
   format: binary_data
-- name: data_sizes
+- name: data_size
   description: "Data size"
   format: decimal
-- 
2.43.0


From df4ada35f6fa2ed3bc36ece7160ed3ee02d08450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:24 +0000
Subject: [PATCH 033/161] fix: read a systemd journal without entries and
 reject a loop of entry arrays

---
 dtformats/systemd.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index 800a7a0..dc00180 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -353,16 +353,23 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         file_header = self._ReadFileHeader(file_object)
 
-        entry_array_object = self._ReadEntryArrayObject(
-            file_object, file_header.entry_array_offset
-        )
+        entry_object_offsets = []
+        entry_array_offsets = set()
+
+        entry_array_offset = file_header.entry_array_offset
+        while entry_array_offset != 0:
+            if entry_array_offset in entry_array_offsets:
+                raise errors.ParseError(
+                    f"Entry array object at offset: 0x{entry_array_offset:08x} "
+                    f"already read."
+                )
+            entry_array_offsets.add(entry_array_offset)
 
-        entry_object_offsets = list(entry_array_object.entry_object_offsets)
-        while entry_array_object.next_entry_array_offset != 0:
             entry_array_object = self._ReadEntryArrayObject(
-                file_object, entry_array_object.next_entry_array_offset
+                file_object, entry_array_offset
             )
             entry_object_offsets.extend(entry_array_object.entry_object_offsets)
+            entry_array_offset = entry_array_object.next_entry_array_offset
 
         for entry_object_offset in entry_object_offsets:
             if entry_object_offset == 0:
-- 
2.43.0


From e39a056e9e1e0eb38564801054a8dedc029accac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:24 +0000
Subject: [PATCH 034/161] fix: reject a loop of ASL records

---
 dtformats/asl.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dtformats/asl.py b/dtformats/asl.py
index 9d90156..34915fd 100644
--- a/dtformats/asl.py
+++ b/dtformats/asl.py
@@ -260,6 +260,13 @@ class AppleSystemLogFile(data_format.BinaryDataFile):
         if file_header.first_log_entry_offset > 0:
             file_offset = file_header.first_log_entry_offset
             while file_offset < self._file_size:
-                file_offset = self._ReadRecord(file_object, file_offset)
-                if file_offset == 0:
+                next_record_offset = self._ReadRecord(file_object, file_offset)
+                if next_record_offset == 0:
                     break
+
+                if next_record_offset <= file_offset:
+                    raise errors.ParseError(
+                        f"Unsupported next record offset: 0x{next_record_offset:08x}."
+                    )
+
+                file_offset = next_record_offset
-- 
2.43.0


From e015663e42fce0feb868f8a8ff7a111d58d7add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:20 +0000
Subject: [PATCH 035/161] fix: read the strings of a BSM exec token one by one

---
 dtformats/bsm.py   | 31 +++++++++++++++++++++++++++++++
 dtformats/bsm.yaml |  4 ----
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index ed9cd89..5f319bb 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -803,6 +803,8 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         0x82: "token sockunix",
     }
 
+    _EXEC_TOKEN_TYPES = frozenset([0x3C, 0x3D])
+
     _HEADER_TOKEN_TYPES = frozenset([0x14, 0x15, 0x74, 0x79])
 
     _TRAILER_TOKEN_TYPE = 0x13
@@ -946,6 +948,32 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
                 "Mismatch of event record size between header and trailer token."
             )
 
+    def _ReadStrings(self, file_object, number_of_strings):
+        """Reads strings from the current position in the file-like object.
+
+        Args:
+          file_object (file): file-like object.
+          number_of_strings (int): number of strings.
+
+        Returns:
+          list[str]: strings.
+
+        Raises:
+          ParseError: if the strings cannot be read.
+        """
+        # Note that the strings are read one by one since the size hint of
+        # a sequence of strings can exceed the size of the sequence.
+        data_type_map = self._GetDataTypeMap("cstring")
+
+        strings = []
+        for _ in range(number_of_strings):
+            string, _ = self._ReadStructureFromFileObject(
+                file_object, file_object.tell(), data_type_map, "string"
+            )
+            strings.append(string)
+
+        return strings
+
     def _ReadToken(self, file_object, file_offset):
         """Reads a token.
 
@@ -971,6 +999,9 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         if not token:
             raise errors.ParseError(f"Unsupported token type: {token_type:d}")
 
+        if token_type in self._EXEC_TOKEN_TYPES:
+            token.strings = self._ReadStrings(file_object, token.number_of_strings)
+
         net_type = getattr(token, "net_type", None)
         if net_type not in (None, 4, 16):
             raise errors.ParseError(f"Unsupported net type: {net_type:d}")
diff --git a/dtformats/bsm.yaml b/dtformats/bsm.yaml
index 734083e..493e8c1 100644
--- a/dtformats/bsm.yaml
+++ b/dtformats/bsm.yaml
@@ -174,10 +174,6 @@ members:
   values: [0x3c, 0x3d]
 - name: number_of_strings
   data_type: uint32
-- name: strings
-  type: sequence
-  element_data_type: cstring
-  number_of_elements: bsm_token_exec_args.number_of_strings
 ---
 name: bsm_token_exit
 type: structure
-- 
2.43.0


From 590bcd958bca98cacf8b258a41b234e99bbf8815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:53 +0000
Subject: [PATCH 036/161] fix: print keychain offsets and identifiers as
 hexadecimal values

---
 dtformats/keychain.debug.yaml |  2 +-
 dtformats/keychain.py         | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/dtformats/keychain.debug.yaml b/dtformats/keychain.debug.yaml
index 46658ea..947eef5 100644
--- a/dtformats/keychain.debug.yaml
+++ b/dtformats/keychain.debug.yaml
@@ -65,7 +65,7 @@ attributes:
 - name: number_of_records
   description: "Number of records"
   format: decimal
-- name: record_array_offset
+- name: records_array_offset
   description: "Record array offset"
   format: hexadecimal_8digits
 - name: unknown1
diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 4ccfadf..a87ccad 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -140,7 +140,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, record_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(record_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(record_offset)
             line = self._FormatValue(f"Record offset: {index:d}", value_string)
             lines.append(line)
 
@@ -158,7 +158,8 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if integer is None:
             return "NULL"
 
-        return self._FormatIntegerAsHexadecimal8(integer)
+        value_string, _ = self._FormatIntegerAsHexadecimal8(integer)
+        return value_string
 
     def _FormatIntegerAsRecordType(self, integer):
         """Formats an integer as a record type.
@@ -183,7 +184,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, table_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(table_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(table_offset)
             line = self._FormatValue(f"Table offset: {index:d}", value_string)
             lines.append(line)
 
@@ -525,7 +526,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         if self._debug:
             for index, attribute_value_offset in enumerate(attribute_value_offsets):
-                value_string = self._FormatIntegerAsHexadecimal8(attribute_value_offset)
+                value_string, _ = self._FormatIntegerAsHexadecimal8(
+                    attribute_value_offset
+                )
                 self._DebugPrintValue(
                     f"Attribute value offset: {index:d}", value_string
                 )
-- 
2.43.0


From 77f5859dd9a54ef31db3aec74d8d00504e0a5687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:08 +0000
Subject: [PATCH 037/161] fix: raise ParseError on out of bounds, missing or
 undecodable keychain values

---
 dtformats/keychain.py | 116 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 97 insertions(+), 19 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index a87ccad..307deb2 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -190,6 +190,38 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         return "".join(lines)
 
+    def _GetAttributeValueData(
+        self,
+        attribute_values_data,
+        attribute_values_data_offset,
+        attribute_value_offset,
+        description,
+    ):
+        """Retrieves the data of an attribute value.
+
+        Args:
+          attribute_values_data (bytes): attribute values data.
+          attribute_values_data_offset (int): offset of the attribute values data
+              relative to the start of the record.
+          attribute_value_offset (int): offset of the attribute relative to
+              the start of the record.
+          description (str): description of the attribute value.
+
+        Returns:
+          bytes: attribute values data starting with the attribute value.
+
+        Raises:
+          ParseError: if the attribute value offset is out of bounds.
+        """
+        data_offset = attribute_value_offset - (attribute_values_data_offset + 1)
+        if data_offset < 0 or data_offset >= len(attribute_values_data):
+            raise errors.ParseError(
+                f"Attribute value: {description:s} offset: "
+                f"0x{attribute_value_offset:08x} value out of bounds"
+            )
+
+        return attribute_values_data[data_offset:]
+
     def _ReadAttributeValueBinaryData(
         self,
         attribute_values_data,
@@ -225,8 +257,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         string_attribute_value = self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -269,8 +305,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         date_time_attribute_value = self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -313,8 +353,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         return self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -355,8 +399,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         string_attribute_value = self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -420,7 +468,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             record_data_offset = file_offset - record_offset
             record_data_size = record_header.data_size
-            record_data = file_object.read(record_data_size - record_data_offset)
+            record_data = self._ReadData(
+                file_object,
+                file_offset,
+                record_data_size - record_data_offset,
+                "record data",
+            )
 
             if self._debug:
                 if record_header.key_data_size > 0:
@@ -437,8 +490,6 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                     for offset in sorted(attribute_value_offsets)
                     if offset > record_data_offset
                 ]
-                data_offsets.append(record_data_size - record_data_offset)
-                data_offsets.pop(0)
 
             for index, column in enumerate(table.columns):
                 if self._debug:
@@ -449,10 +500,11 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                         attribute_value_offset = (
                             attribute_value_offsets[index] - record_data_offset - 1
                         )
-                        attribute_value_end_offset = data_offsets[0]
-                        while attribute_value_end_offset <= attribute_value_offset:
-                            data_offsets.pop(0)
-                            attribute_value_end_offset = data_offsets[0]
+                        attribute_value_end_offset = record_data_size
+                        for data_offset in data_offsets:
+                            if data_offset > attribute_value_offset:
+                                attribute_value_end_offset = data_offset
+                                break
 
                     description = (
                         f"Attribute value: {index:d} ({column.attribute_name:s}) data"
@@ -505,7 +557,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         offsets_data_size = number_of_attribute_values * 4
 
-        offsets_data = file_object.read(offsets_data_size)
+        offsets_data = self._ReadData(
+            file_object,
+            file_offset,
+            offsets_data_size,
+            "record attribute value offsets",
+        )
 
         if self._debug:
             self._DebugPrintData("Attribute value offsets data", offsets_data)
@@ -586,7 +643,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         attribute_values_data_size = record_header.data_size - (
             file_offset - record_offset
         )
-        attribute_values_data = file_object.read(attribute_values_data_size)
+        attribute_values_data = self._ReadData(
+            file_object,
+            file_offset,
+            attribute_values_data_size,
+            "attribute values data",
+        )
 
         if self._debug:
             self._DebugPrintData("Attribute values data", attribute_values_data)
@@ -675,6 +737,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintText("\n")
 
+        if relation_identifier is None:
+            raise errors.ParseError("Missing relation identifier.")
+
         table = tables.get(relation_identifier)
         if not table:
             raise errors.ParseError(
@@ -688,7 +753,15 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             attribute_name = attribute_values_data[
                 attribute_value_offset : attribute_value_offset + 4
             ]
-            attribute_name = attribute_name.decode("ascii")
+            try:
+                attribute_name = attribute_name.decode("ascii")
+            except UnicodeDecodeError as exception:
+                raise errors.ParseError(
+                    f"Unable to decode attribute name with error: {exception!s}"
+                )
+
+        if attribute_name is None:
+            raise errors.ParseError("Missing attribute name.")
 
         column = KeychainDatabaseColumn()
         column.attribute_data_type = attribute_data_type
@@ -807,7 +880,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_object, file_offset, data_type_map, "schema information record values"
         )
 
-        relation_name = record_values.relation_name.decode("ascii")
+        try:
+            relation_name = record_values.relation_name.decode("ascii")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode relation name with error: {exception!s}"
+            )
 
         if self._debug:
             self._DebugPrintValue(
-- 
2.43.0


From 4e5902445e807f79424c59d8a09060b016486e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:05 +0000
Subject: [PATCH 038/161] fix: print the record data size of a LevelDB log
 block

---
 dtformats/leveldb.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/leveldb.debug.yaml b/dtformats/leveldb.debug.yaml
index e9ae673..ffdeff6 100644
--- a/dtformats/leveldb.debug.yaml
+++ b/dtformats/leveldb.debug.yaml
@@ -5,7 +5,7 @@ attributes:
 - name: checksum
   description: "Checksum"
   format: hexadecimal_8digits
-- name: data_size
+- name: record_data_size
   description: "Record data size"
   format: decimal
 - name: record_type
-- 
2.43.0


From 2b2e2b4974d461d4ac40f7fca3c0637ba39ab773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:05 +0000
Subject: [PATCH 039/161] fix: raise ParseError on truncated or out of bounds
 LevelDB values

---
 dtformats/leveldb.py | 87 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 77 insertions(+), 10 deletions(-)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 4ba5e17..6edeab2 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -84,9 +84,15 @@ class LevelDBDatabaseFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
         data_size = len(data)
 
+        if not data:
+            raise errors.ParseError("Missing variable size integer data")
+
         byte_value = data[0]
         bytes_read = 1
         bit_shift = 0
@@ -100,7 +106,11 @@ class LevelDBDatabaseFile(data_format.BinaryDataFile):
 
             integer_value |= (int(byte_value) & 0x7F) << bit_shift
 
-            # TODO: check maximum size
+            if bytes_read > 10:
+                raise errors.ParseError("Unsupported variable size integer size")
+
+        if byte_value & 0x80:
+            raise errors.ParseError("Missing variable size integer data")
 
         return integer_value, bytes_read
 
@@ -201,6 +211,9 @@ class LevelDBDatabaseLogFile(LevelDBDatabaseFile):
         """
         data_type_map = self._GetDataTypeMap("leveldb_log_value_header")
 
+        if not data:
+            raise errors.ParseError("Missing value header data")
+
         value_header = self._ReadStructureFromByteStream(
             data, file_offset, data_type_map, "Value header"
         )
@@ -226,6 +239,11 @@ class LevelDBDatabaseLogFile(LevelDBDatabaseFile):
         """
         data_size, bytes_read = self._ReadVariableSizeInteger(data)
 
+        if data_size > len(data) - bytes_read:
+            raise errors.ParseError(
+                f"Invalid {description:s} size: {data_size:d} value out of bounds"
+            )
+
         value_data = data[bytes_read : bytes_read + data_size]
 
         if self._debug:
@@ -247,21 +265,32 @@ class LevelDBDatabaseLogFile(LevelDBDatabaseFile):
         """
         file_offset = 0
         page_size = 32 * 1024
-        record_data = b""
+        record_data = None
         record_offset = 0
 
         while file_offset < self._file_size:
             log_block, bytes_read = self._ReadBlock(file_object, file_offset)
 
+            if bytes_read > page_size:
+                raise errors.ParseError(
+                    f"Invalid block at offset: 0x{file_offset:08x} value exceeds page"
+                )
+
             if log_block.record_type in (1, 2):
                 record_data = log_block.record_data
                 record_offset = file_offset
 
             elif log_block.record_type in (3, 4):
+                if record_data is None:
+                    raise errors.ParseError(
+                        f"Missing first block of record at offset: 0x{file_offset:08x}"
+                    )
+
                 record_data = b"".join([record_data, log_block.record_data])
 
             if log_block.record_type in (1, 4):
                 self._ReadRecord(record_offset, record_data, len(record_data))
+                record_data = None
 
             file_offset += bytes_read
             page_size -= bytes_read
@@ -424,9 +453,19 @@ class LevelDBDatabaseDescriptorFile(LevelDBDatabaseLogFile):
         """
         data_size, bytes_read = self._ReadVariableSizeInteger(data)
 
+        if data_size > len(data) - bytes_read:
+            raise errors.ParseError(
+                f"Invalid {description:s} size: {data_size:d} value out of bounds"
+            )
+
         string_data = data[bytes_read : bytes_read + data_size]
 
-        string_value = string_data.decode("utf-8")
+        try:
+            string_value = string_data.decode("utf-8")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode {description:s} string with error: {exception!s}"
+            )
 
         if self._debug:
             value_string, _ = self._FormatIntegerAsDecimal(data_size)
@@ -498,11 +537,17 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
                 f"Unsupported compression type: {block_trailer.compression_type!s}"
             )
 
-        if block_trailer.compression_type == 1:
-            block_data = snappy.decompress(block_data)
+        try:
+            if block_trailer.compression_type == 1:
+                block_data = snappy.decompress(block_data)
+
+            elif block_trailer.compression_type == 2:
+                block_data = zstd.decompress(block_data)
 
-        elif block_trailer.compression_type == 2:
-            block_data = zstd.decompress(block_data)
+        except (snappy.UncompressError, zstd.Error) as exception:
+            raise errors.ParseError(
+                f"Unable to decompress block data with error: {exception!s}"
+            )
 
         return block_data
 
@@ -666,6 +711,11 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
         if self._debug:
             self._DebugPrintData(f"{description:s} table data", table_data)
 
+        if table_data_size < 4:
+            raise errors.ParseError(
+                f"Unsupported {description:s} table data size: {table_data_size:d}"
+            )
+
         data_type_map = self._GetDataTypeMap("uint32le")
         table_data_end_offset = table_data_size - 4
 
@@ -683,6 +733,14 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
         data_type_map = self._GetDataTypeMap("array_of_uint32le")
         table_data_end_offset -= 4 * number_of_restart_values
 
+        if number_of_restart_values < 1 or table_data_end_offset < 0:
+            raise errors.ParseError(
+                (
+                    f"Unsupported number of restart values: "
+                    f"{number_of_restart_values:d}"
+                )
+            )
+
         context = dtfabric_data_maps.DataTypeMapContext(
             values={"number_of_elements": number_of_restart_values}
         )
@@ -716,17 +774,17 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
                 self._DebugPrintValue("Offset", value_string)
 
             shared_key_data_size, bytes_read = self._ReadVariableSizeInteger(
-                table_data[data_offset:]
+                table_data[data_offset:table_data_end_offset]
             )
             data_offset += bytes_read
 
             non_shared_key_data_size, bytes_read = self._ReadVariableSizeInteger(
-                table_data[data_offset:]
+                table_data[data_offset:table_data_end_offset]
             )
             data_offset += bytes_read
 
             value_data_size, bytes_read = self._ReadVariableSizeInteger(
-                table_data[data_offset:]
+                table_data[data_offset:table_data_end_offset]
             )
             data_offset += bytes_read
 
@@ -746,6 +804,15 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
                     f"Entry: {entry_index:d} value data size", value_string
                 )
 
+            if (
+                shared_key_data_size > len(shared_key_data)
+                or non_shared_key_data_size + value_data_size
+                > table_data_end_offset - data_offset
+            ):
+                raise errors.ParseError(
+                    f"Invalid entry: {entry_index:d} data sizes value out of bounds"
+                )
+
             key_data_size = non_shared_key_data_size
 
             key_data_end_offset = data_offset + key_data_size
-- 
2.43.0


From 051af36b62f0df3f96a82a8ddd8edead1bd67e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:05 +0000
Subject: [PATCH 040/161] fix: raise ParseError on truncated IndexedDB keys

---
 dtformats/indexeddb.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dtformats/indexeddb.py b/dtformats/indexeddb.py
index c12e233..ff8498d 100644
--- a/dtformats/indexeddb.py
+++ b/dtformats/indexeddb.py
@@ -1,5 +1,6 @@
 """IndexedDB database files."""
 
+from dtformats import errors
 from dtformats import leveldb
 
 
@@ -40,10 +41,22 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
 
         Returns:
           tuple[tuple[int, int, int], int]: key prefix and number of bytes read.
+
+        Raises:
+          ParseError: if the key prefix cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing key prefix data")
+
         byte_value = data[0]
         bytes_read = 1
 
+        key_prefix_size = (
+            4 + (byte_value >> 5) + ((byte_value & 0x1F) >> 2) + (byte_value & 0x03)
+        )
+        if key_prefix_size > len(data):
+            raise errors.ParseError("Missing key prefix data")
+
         database_identifier = 0
         object_store_identifier = 0
         index_identifier = 0
@@ -87,6 +100,9 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
             key_segments = [f"{value:d}" for value in key_prefix]
 
             if key_prefix == (0, 0, 0):
+                if bytes_read >= len(table_entry.key):
+                    raise errors.ParseError("Missing metadata type data")
+
                 metadata_type = int(table_entry.key[bytes_read])
                 bytes_read += 1
 
-- 
2.43.0


From 97b17cea709b8aee19bd33897055ae40d9e97307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 041/161] fix: raise ParseError on truncated Spotlight values

---
 dtformats/spotlight_storedb.py | 78 ++++++++++++++++++++++++++++------
 1 file changed, 66 insertions(+), 12 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 657103e..0d8e8a8 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -174,7 +174,13 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing variable size integer data")
+
         byte_value = data[0]
         bytes_read = 1
 
@@ -184,6 +190,9 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
                 break
             number_of_additional_bytes += 1
 
+        if number_of_additional_bytes >= len(data):
+            raise errors.ParseError("Missing variable size integer data")
+
         if number_of_additional_bytes > 4:
             byte_value = 0
         elif number_of_additional_bytes > 0:
@@ -361,7 +370,10 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
         try:
             offsets_array = data_type_map.MapByteStream(data, context=context)
 
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit offsets with error: {exception!s}"
             )
@@ -595,7 +607,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             lz4_block_header = data_type_map.MapByteStream(compressed_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to map LZ4 block header at offset: 0x{file_offset:08x} "
                 f"with error: {exception!s}"
@@ -764,7 +779,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:]
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -787,7 +805,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     page_data[page_data_offset + page_value_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 page_data_offset += page_value_size
                 raise errors.ParseError(
                     f"Unable to parse index data at offset: 0x{page_data_offset:08x} "
@@ -880,7 +901,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     stream_value[data_offset + padding_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -1111,7 +1135,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of byte values with error: {exception!s}"
             )
@@ -1156,7 +1183,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit floating-point values with error: "
                 f"{exception!s}"
@@ -1202,7 +1232,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 64-bit floating-point values with error: "
                 f"{exception!s}"
@@ -1259,7 +1292,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -1376,7 +1412,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
             try:
                 property_value = data_type_map.MapByteStream(stream_value[data_offset:])
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -1417,7 +1456,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of string values with error: {exception!s}"
             )
@@ -1676,7 +1718,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(data, context=context)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to map record at offset: 0x{page_data_offset:08x} with "
                 f"error: {exception!s}"
@@ -1899,7 +1944,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing variable size integer data")
+
         byte_value = data[0]
         bytes_read = 1
 
@@ -1909,6 +1960,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 break
             number_of_additional_bytes += 1
 
+        if number_of_additional_bytes >= len(data):
+            raise errors.ParseError("Missing variable size integer data")
+
         if number_of_additional_bytes > 4:
             byte_value = 0
         elif number_of_additional_bytes > 0:
-- 
2.43.0


From 0b0ac3e3236a97b733ee398c06a7f0f75cf30ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 042/161] fix: read the values of a Spotlight integer array
 behind its size

---
 dtformats/spotlight_storedb.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 0d8e8a8..03d0e1a 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1486,6 +1486,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[object, int]: value and number of bytes read.
+
+        Raises:
+          ParseError: if the metadata attribute variable size integer value cannot
+              be read.
         """
         if property_type & 0x02 == 0x00:
             return self._ReadVariableSizeInteger(data)
@@ -1496,17 +1500,17 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         array_of_values = []
 
-        data_offset = 0
-        while data_offset < data_size:
+        data_offset = bytes_read
+        bytes_read += data_size
+
+        while data_offset < bytes_read:
             integer_value, integer_value_size = self._ReadVariableSizeInteger(
-                data[data_offset:data_size]
+                data[data_offset:bytes_read]
             )
             data_offset += integer_value_size
 
             array_of_values.append(integer_value)
 
-        bytes_read += data_size
-
         return array_of_values, bytes_read
 
     def _ReadPropertyPage(self, file_object, file_offset, property_table):
-- 
2.43.0


From a64dd43048e4b857dee8f156e63834e40e3c4c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 043/161] fix: read a Spotlight record up to its end

---
 dtformats/spotlight_storedb.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 03d0e1a..3f4f1a3 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1031,10 +1031,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Returns:
           tuple[SpotlightStoreMetadataAttribute, int]: metadata attribute and
               number of bytes read.
+
+        Raises:
+          ParseError: if the metadata attribute cannot be read.
         """
         value_type = getattr(metadata_type, "value_type", None)
         if value_type is None:
-            return None, 0
+            raise errors.ParseError("Missing metadata attribute type")
 
         key_name = getattr(metadata_type, "key_name", None)
         property_type = getattr(metadata_type, "property_type", None)
@@ -1647,8 +1650,14 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         record_header, bytes_read = self._ReadRecordHeader(
             page_data[page_data_offset:], page_data_offset
         )
+        record_data_end_offset = page_data_offset + 4 + record_header.data_size
         page_data_offset += bytes_read
-        record_data_offset = bytes_read
+
+        if record_data_end_offset > len(page_data):
+            raise errors.ParseError(
+                f"Invalid record data size: {record_header.data_size:d} value out of "
+                f"bounds"
+            )
 
         metadata_item = SpotlightStoreMetadataItem()
         metadata_item.identifier = record_header.identifier
@@ -1659,9 +1668,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         metadata_attribute_index = 0
         metadata_type_index = 0
 
-        record_data_end_offset = page_data_offset + record_header.data_size
-
-        while record_data_offset < record_header.data_size:
+        while page_data_offset < record_data_end_offset:
             relative_metadata_type_index, bytes_read = self._ReadVariableSizeInteger(
                 page_data[page_data_offset:record_data_end_offset]
             )
@@ -1672,7 +1679,6 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 )
 
             page_data_offset += bytes_read
-            record_data_offset += bytes_read
 
             metadata_type_index += relative_metadata_type_index
 
@@ -1694,7 +1700,6 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
 
             page_data_offset += bytes_read
-            record_data_offset += bytes_read
 
             metadata_item.attributes[metadata_attribute.key] = metadata_attribute
             metadata_attribute_index += 1
@@ -1838,8 +1843,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
 
             if self._debug:
+                record_data_offset = page_data_offset + 4
                 record_data = page_data[
-                    page_data_offset + 4 : page_data_offset + record_header.data_size
+                    record_data_offset : record_data_offset + record_header.data_size
                 ]
                 self._DebugPrintData("Record data", record_data)
 
-- 
2.43.0


From 657d15bb78adaaef28baf8d00430e7a40eda433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 044/161] fix: support debug output of a Spotlight store
 without records

---
 dtformats/spotlight_storedb.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 3f4f1a3..3edaf81 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -2092,8 +2092,5 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         if self._debug:
             for record_identifier in sorted(self._record_descriptors.keys()):
-                metadata_item = self._GetMetadataItemByIdentifier(
-                    file_object, record_identifier
-                )
-            # TODO: do something with metadata_item or remove.
-            _ = metadata_item
+                # TODO: do something with metadata_item or remove.
+                _ = self._GetMetadataItemByIdentifier(file_object, record_identifier)
-- 
2.43.0


From 5d5043c41bc47de57de3fbade33d2c1772207a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 045/161] fix: reject a loop of Spotlight property pages and
 pages without size

---
 dtformats/spotlight_storedb.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 3edaf81..ad283ac 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -965,6 +965,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
             self._DebugPrintStructureObject(page_header, debug_info)
 
+        if page_header.page_size < page_header_size:
+            raise errors.ParseError(
+                f"Unsupported map page size: {page_header.page_size:d}"
+            )
+
         file_offset += page_header_size
 
         self._ReadMapPageValues(page_header, file_object, file_offset)
@@ -1593,6 +1598,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         page_header, bytes_read = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "property page header"
         )
+        if page_header.page_size < max(bytes_read, page_header.used_page_size):
+            raise errors.ParseError(
+                f"Unsupported property page size: {page_header.page_size:d}"
+            )
+
         if self._debug:
             block_number = file_offset // 0x1000
             self._DebugPrintDecimalValue("Block number", block_number)
@@ -1621,8 +1631,17 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the property pages cannot be read.
         """
+        read_offsets = set()
+
         file_offset = block_number * 0x1000
         while file_offset != 0:
+            if file_offset in read_offsets:
+                raise errors.ParseError(
+                    f"Property page at offset: 0x{file_offset:08x} already read"
+                )
+
+            read_offsets.add(file_offset)
+
             _, next_block_number = self._ReadPropertyPage(
                 file_object, file_offset, property_table
             )
-- 
2.43.0


From d4f8e8f7f69b8a186ee5db4369aa9826dd1326e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 046/161] fix: raise ParseError on truncated Spotlight pages,
 streams and records

---
 dtformats/spotlight_storedb.py | 59 +++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index ad283ac..55b696b 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -218,7 +218,7 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
-        data = file_object.read(self._data_size)
+        data = self._ReadData(file_object, 0, self._data_size, "stream values")
 
         for index, value_range in enumerate(self._ranges):
             value_offset, value_size = value_range
@@ -360,7 +360,7 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
           ParseError: if the file cannot be read.
         """
         data_size = self._number_of_entries * 4
-        data = file_object.read(data_size)
+        data = self._ReadData(file_object, 0, data_size, "offsets")
 
         data_type_map = self._GetDataTypeMap("array_of_uint32le")
 
@@ -625,11 +625,17 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         if lz4_block_header.signature == b"bv41":
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
 
-            uncompressed_data = lz4.block.decompress(
-                compressed_data[12:end_of_data_offset],
-                uncompressed_size=lz4_block_header.uncompressed_data_size,
-                dict=previous_uncompressed_data,
-            )
+            try:
+                uncompressed_data = lz4.block.decompress(
+                    compressed_data[12:end_of_data_offset],
+                    uncompressed_size=lz4_block_header.uncompressed_data_size,
+                    dict=previous_uncompressed_data,
+                )
+            except (lz4.block.LZ4BlockError, MemoryError, OverflowError) as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress LZ4 block at offset: 0x{file_offset:08x} "
+                    f"with error: {exception!s}"
+                )
 
         elif lz4_block_header.signature == b"bv4-":
             end_of_data_offset = 8 + lz4_block_header.uncompressed_data_size
@@ -1092,6 +1098,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             value = data[bytes_read : bytes_read + data_size]
             bytes_read += data_size
 
+            if bytes_read > len(data):
+                raise errors.ParseError(
+                    f"Invalid binary data size: {data_size:d} value out of bounds"
+                )
+
             # TODO: decode binary data e.g. UUID
 
         elif value_type == 0x0F:
@@ -1472,6 +1483,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 f"Unable to parse array of string values with error: {exception!s}"
             )
 
+        if not array_of_values and property_type & 0x03 != 0x02:
+            raise errors.ParseError("Missing string value")
+
         if property_type & 0x03 == 0x03:
             value = array_of_values[0]
             if "\x16\x02" in value:
@@ -1550,13 +1564,21 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 f"0x{page_header.property_table_type:08x}"
             )
 
-        page_data = file_object.read(page_header.page_size - bytes_read)
+        page_data = self._ReadData(
+            file_object,
+            file_offset + bytes_read,
+            page_header.page_size - bytes_read,
+            "property page",
+        )
 
         data_type_map = self._GetDataTypeMap(
             "spotlight_store_db_property_values_header"
         )
         file_offset += bytes_read
 
+        if not page_data:
+            raise errors.ParseError("Missing property values header data")
+
         page_values_header = self._ReadStructureFromByteStream(
             page_data, file_offset, data_type_map, "property values header"
         )
@@ -1761,6 +1783,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         data_offset += bytes_read
 
+        if data_offset >= len(data):
+            raise errors.ParseError("Missing record flags")
+
         flags = data[data_offset]
 
         data_offset += 1
@@ -1811,10 +1836,15 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 f"0x{page_header.property_table_type:08x}"
             )
 
-        page_data = file_object.read(page_header.page_size - bytes_read)
-
         file_offset += bytes_read
 
+        page_data = self._ReadData(
+            file_object,
+            file_offset,
+            page_header.page_size - bytes_read,
+            "record page",
+        )
+
         if page_header.uncompressed_page_size > 0:
             compressed_page_data = page_data
 
@@ -1825,8 +1855,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                     compressed_page_data, file_offset
                 )
 
-            elif compressed_page_data[0] == 0x78:
-                page_data = zlib.decompress(compressed_page_data)
+            elif compressed_page_data[0:1] == b"\x78":
+                try:
+                    page_data = zlib.decompress(compressed_page_data)
+                except zlib.error as exception:
+                    raise errors.ParseError(
+                        f"Unable to decompress page data with error: {exception!s}"
+                    )
 
             # TODO: add support for other compression types.
             else:
-- 
2.43.0


From 53dd04cfe742249261dc832025820145e5d9af6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:30 +0000
Subject: [PATCH 047/161] fix: only read the used part of an uncompressed
 Spotlight record page

---
 dtformats/spotlight_storedb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 55b696b..ea98f19 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1870,6 +1870,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
                 raise errors.ParseError("Unsupported compression type")
 
+        else:
+            page_data = page_data[: max(page_header.used_page_size - bytes_read, 0)]
+
         return page_header, page_data
 
     def _ReadRecordPageValues(self, page_data, page_offset):
-- 
2.43.0


From eb740253693c22b6beb87d89acc4d3b3db6cb84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:50 +0000
Subject: [PATCH 048/161] fix: show Spotlight timestamps that are out of range
 as floating-point

---
 dtformats/spotlight_storedb.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index ea98f19..f8d712d 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -466,11 +466,15 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             date_time_string = "Not set (0)"
         else:
             date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=value)
-            date_time_string = date_time.CopyToDateTimeString()
+            try:
+                date_time_string = date_time.CopyToDateTimeString()
+            except (OverflowError, ValueError):
+                date_time_string = None
+
             if date_time_string:
                 date_time_string = f"{date_time_string:s} UTC"
             else:
-                date_time_string = f"0x{value:08x}"
+                date_time_string = f"{value:f}"
 
         self._DebugPrintValue(description, date_time_string)
 
-- 
2.43.0


From 774d6c6c96c993c0f58570175fe46e15a699b7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 049/161] fix: print the minor product version of a job file

---
 dtformats/job.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/job.py b/dtformats/job.py
index c78b96d..6af46a7 100644
--- a/dtformats/job.py
+++ b/dtformats/job.py
@@ -121,7 +121,7 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
           str: integer formatted as a product version.
         """
         major_version = (integer >> 8) & 0xFF
-        minor_version = (integer >> 8) & 0xFF
+        minor_version = integer & 0xFF
         return f"0x{integer:04x} ({major_version:d}.{minor_version:d})"
 
     def _FormatString(self, string):
-- 
2.43.0


From a5888c4984f47bfdc21b8b30fca5d1ce7bccf984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 050/161] fix: read the USN records of every block, also when a
 block is padded

---
 dtformats/usn_journal.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dtformats/usn_journal.py b/dtformats/usn_journal.py
index bbd2345..7c83a1d 100644
--- a/dtformats/usn_journal.py
+++ b/dtformats/usn_journal.py
@@ -64,22 +64,22 @@ class USNRecords(data_format.BinaryDataFile):
         Raises:
           ParseError: if a record cannot be read.
         """
-        self._file_object.seek(0, os.SEEK_SET)
-
         file_offset = 0
         while file_offset < self._file_size:
-            block_size = min(4096, self._file_size)
+            block_end_offset = file_offset - (file_offset % 4096) + 4096
+            block_end_offset = min(block_end_offset, self._file_size)
 
-            while block_size > 60:
-                usn_record_header = self._file_object.read(60)
+            while block_end_offset - file_offset > 60:
+                usn_record_header = self._ReadData(
+                    self._file_object, file_offset, 60, "USN record header"
+                )
                 if usn_record_header == self._EMPTY_USN_RECORD_HEADER:
                     break
 
-                self._file_object.seek(-60, os.SEEK_CUR)
+                self._file_object.seek(file_offset, os.SEEK_SET)
                 usn_record, data_size = self._ReadRecordV2(self._file_object)
                 yield usn_record
 
                 file_offset += data_size
-                block_size -= data_size
 
-            file_offset += block_size
+            file_offset = max(file_offset, block_end_offset)
-- 
2.43.0


From 383e71e28b90bf52ba9b05dfd650ffbc5113dd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 051/161] fix: do not cut the last character of a change.log
 process name

---
 dtformats/rp_change_log.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 00d66c4..2120a11 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -237,7 +237,7 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         if self._debug:
             self._DebugPrintValue(
-                "Process name", change_log_entry_record2.process_name[:-1]
+                "Process name", change_log_entry_record2.process_name
             )
 
             self._DebugPrintText("\n")
@@ -249,7 +249,7 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
             change_log_entry_record.file_attribute_flags
         )
         change_log_entry.sequence_number = change_log_entry_record.sequence_number
-        change_log_entry.process_name = change_log_entry_record2.process_name[:-1]
+        change_log_entry.process_name = change_log_entry_record2.process_name
 
         sub_record_data_offset = context.byte_size
         sub_record_data_size = record_size - 4
-- 
2.43.0


From 2afb5f27164e5229cd022a762a979939bd2125f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 052/161] fix: set the volume path of a change.log file

---
 dtformats/rp_change_log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 2120a11..b95260d 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -479,6 +479,8 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
                 f"Unsupported record type: {volume_path_record.record_type:d}"
             )
 
+        self.volume_path = volume_path_record.volume_path[:-1]
+
     def ReadFileObject(self, file_object):
         """Reads a Windows Restore Point change.log file-like object.
 
-- 
2.43.0


From 99260cd9d696ba1162fd9a886f50e9427a255efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 053/161] fix: raise ParseError on a change.log record with a
 size that is out of bounds

---
 dtformats/rp_change_log.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index b95260d..c62c477 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -210,7 +210,9 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         # TODO: refactor to use size hints
         record_size = change_log_entry_record.record_size - data_size
-        record_data = file_object.read(record_size)
+        record_data = self._ReadData(
+            file_object, file_offset + data_size, record_size, "record"
+        )
         file_offset += data_size
 
         if self._debug:
@@ -335,7 +337,7 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         file_offset = file_header_data_size
         record_size = file_header.record_size - file_header_data_size
-        record_data = file_object.read(record_size)
+        record_data = self._ReadData(file_object, file_offset, record_size, "record")
 
         if self._debug:
             self._DebugPrintData("Record data", record_data)
-- 
2.43.0


From 0d9299c84c2da8f0ae63997019c013d46a988f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 054/161] fix: only read the value string of change.log records
 that contain one

---
 dtformats/rp_change_log.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index c62c477..3615814 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -410,23 +410,24 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintRecordHeader(record_header)
 
+        record_data_end_offset = record_data_offset + record_header.record_size
         record_data_offset += context.byte_size
 
         value_string = ""
         if record_header.record_type in (4, 5, 9):
             data_type_map = self._GetDataTypeMap("utf16le_string")
 
-        try:
-            value_string = self._ReadStructureFromByteStream(
-                record_data[record_data_offset:],
-                record_data_offset,
-                data_type_map,
-                "value string",
-            )
-        except (ValueError, errors.ParseError) as exception:
-            raise errors.ParseError(
-                f"Unable to parse UTF-16 string with error: {exception!s}"
-            )
+            try:
+                value_string = self._ReadStructureFromByteStream(
+                    record_data[record_data_offset:record_data_end_offset],
+                    record_data_offset,
+                    data_type_map,
+                    "value string",
+                )
+            except (ValueError, errors.ParseError) as exception:
+                raise errors.ParseError(
+                    f"Unable to parse UTF-16 string with error: {exception!s}"
+                )
 
         # TODO: add support for other record types.
         # TODO: store record values in runtime objects.
-- 
2.43.0


From 967b5757d8162f80d050eabbc30a8ea8a9c4bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 055/161] fix: only print the data of a rp.log file in debug
 mode

---
 dtformats/rp_log.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dtformats/rp_log.py b/dtformats/rp_log.py
index 00cdd19..7443800 100644
--- a/dtformats/rp_log.py
+++ b/dtformats/rp_log.py
@@ -119,8 +119,11 @@ class RestorePointLogFile(data_format.BinaryDataFile):
         """
         self._ReadFileHeader(file_object)
 
-        data_size = (self._file_size - 8) - file_object.tell()
-        data = file_object.read(data_size)
-        self._DebugPrintData("Unknown1", data)
+        file_offset = file_object.tell()
+        data_size = (self._file_size - 8) - file_offset
+        data = self._ReadData(file_object, file_offset, data_size, "unknown1")
+
+        if self._debug:
+            self._DebugPrintData("Unknown1", data)
 
         self._ReadFileFooter(file_object)
-- 
2.43.0


From 25753c3b887cd35d724f2bf1b24ea3039f716246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 056/161] fix: print the name of a custom destinations category

---
 dtformats/jump_list.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/jump_list.debug.yaml b/dtformats/jump_list.debug.yaml
index 702d549..c664bce 100644
--- a/dtformats/jump_list.debug.yaml
+++ b/dtformats/jump_list.debug.yaml
@@ -14,7 +14,7 @@ attributes:
 - name: number_of_characters
   description: "Number of characters"
   format: decimal
-- name: cateogy_name
+- name: category_name
   description: "Category name"
   format: string
 - name: category_identifier
-- 
2.43.0


From 126d8a5ea8d5c10d929949d9d49c2ef19426d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 057/161] fix: stop reading custom destinations entries at the
 category footer

---
 dtformats/jump_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 575ba62..4417159 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -510,7 +510,10 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
                         f"0x{file_offset:08x}"
                     )
 
-                file_object.seek(file_offset, os.SEEK_SET)
+                else:
+                    break
+
+            file_object.seek(file_offset, os.SEEK_SET)
 
             self._ReadCategoryFooter(file_object)
 
-- 
2.43.0


From 0a5e06e991274d4076e69a09e485aa5e9ffa1f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:52 +0000
Subject: [PATCH 058/161] fix: format the fraction of second of a 64-bit HFS
 time as milliseconds

---
 dtformats/alias_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/alias_data.py b/dtformats/alias_data.py
index 9393f62..d81ecba 100644
--- a/dtformats/alias_data.py
+++ b/dtformats/alias_data.py
@@ -50,7 +50,9 @@ class MacOSLoginItemAliasData(data_format.BinaryDataFile):
         if not date_time_string:
             return f"0x{integer:08x}"
 
-        return f"{date_time_string:s}.{fraction_of_second:03d} UTC"
+        milliseconds = (fraction_of_second * 1000) // 65536
+
+        return f"{date_time_string:s}.{milliseconds:03d} UTC"
 
     def _ReadRecordHeader(self, file_object, file_offset):
         """Reads a record header.
-- 
2.43.0


From 3b40f7c806eeca41878cdf1b3df8eb2faa63b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:52 +0000
Subject: [PATCH 059/161] fix: raise ParseError on a bookmark data record of an
 unexpected type

---
 dtformats/bookmark_data.py | 43 ++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/dtformats/bookmark_data.py b/dtformats/bookmark_data.py
index 464db90..6d3483f 100644
--- a/dtformats/bookmark_data.py
+++ b/dtformats/bookmark_data.py
@@ -50,6 +50,27 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
         )
         return f"{value:s}\n"
 
+    def _GetDataRecordValue(self, data_record, name):
+        """Retrieves the value of a data record.
+
+        Args:
+          data_record (bookmark_data_record): data record.
+          name (str): name of the value.
+
+        Returns:
+          object: value of the data record.
+
+        Raises:
+          ParseError: if the data record has no such value.
+        """
+        value = getattr(data_record, name, None)
+        if value is None or value == b"":
+            raise errors.ParseError(
+                f"Unsupported data type: 0x{data_record.data_type:08x} - missing {name:s}"
+            )
+
+        return value
+
     def _ReadDataRecord(self, file_object, file_offset):
         """Reads a data record.
 
@@ -120,7 +141,7 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
-            integers_array.append(data_record.integer)
+            integers_array.append(self._GetDataRecordValue(data_record, "integer"))
 
         return integers_array
 
@@ -143,7 +164,7 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
-            strings_array.append(data_record.string)
+            strings_array.append(self._GetDataRecordValue(data_record, "string"))
 
         return strings_array
 
@@ -225,7 +246,10 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 # TODO: change dtFabric to support setting float64be directly in struct
                 data_type_map = self._GetDataTypeMap("float64be")
                 cocoa_timestamp = self._ReadStructureFromByteStream(
-                    data_record.data, 0, data_type_map, "Floating-point 64-bit"
+                    self._GetDataRecordValue(data_record, "data"),
+                    0,
+                    data_type_map,
+                    "Floating-point 64-bit",
                 )
 
                 if self._debug:
@@ -236,7 +260,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
             elif tagged_value.value_tag == 0x1004:
                 strings_array = self._ReadStringsArray(
-                    file_object, header.data_area_offset, data_record.integers
+                    file_object,
+                    header.data_area_offset,
+                    self._GetDataRecordValue(data_record, "integers"),
                 )
 
                 if self._debug:
@@ -247,7 +273,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
             elif tagged_value.value_tag == 0x1005:
                 integers_array = self._ReadIntegersArray(
-                    file_object, header.data_area_offset, data_record.integers
+                    file_object,
+                    header.data_area_offset,
+                    self._GetDataRecordValue(data_record, "integers"),
                 )
 
                 if self._debug:
@@ -261,7 +289,10 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
             elif tagged_value.value_tag in (0x1010, 0x2020):
                 data_type_map = self._GetDataTypeMap("bookmark_data_property_flags")
                 property_flags = self._ReadStructureFromByteStream(
-                    data_record.data, 0, data_type_map, "Property flags"
+                    self._GetDataRecordValue(data_record, "data"),
+                    0,
+                    data_type_map,
+                    "Property flags",
                 )
 
                 if self._debug:
-- 
2.43.0


From 92190bb05e4288ea158b392f0be7db40cab6e4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:52 +0000
Subject: [PATCH 060/161] fix: raise ParseError on threat tracking data of an
 unexpected type or size

---
 dtformats/detection_history.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtformats/detection_history.py b/dtformats/detection_history.py
index 6c0026e..22a0a37 100644
--- a/dtformats/detection_history.py
+++ b/dtformats/detection_history.py
@@ -3,6 +3,7 @@
 from dtfabric.runtime import data_maps as dtfabric_data_maps
 
 from dtformats import data_format
+from dtformats import errors
 
 
 class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
@@ -107,6 +108,9 @@ class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
                 )
             )
 
+        if not isinstance(threat_tracking_data, bytes) or not threat_tracking_data:
+            raise errors.ParseError("Unsupported threat tracking data")
+
         data_type_map = self._GetDataTypeMap("uint32le")
 
         values_data_size = self._ReadStructureFromByteStream(
@@ -122,6 +126,9 @@ class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
             values_data_offset = header.header_size + 4
             values_data_end_offset = header.total_data_size
 
+        if values_data_end_offset > len(threat_tracking_data):
+            raise errors.ParseError("Threat tracking values data size out of bounds")
+
         while values_data_offset < values_data_end_offset:
             _, data_size = self._ReadThreatTrackingValue(
                 threat_tracking_data[values_data_offset:],
-- 
2.43.0


From 2db701493e770981e6b1178d75c683010145ed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:52 +0000
Subject: [PATCH 061/161] fix: print the location and expiration time of a
 Firefox cache entry

---
 dtformats/firefox_cache1.debug.yaml | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dtformats/firefox_cache1.debug.yaml b/dtformats/firefox_cache1.debug.yaml
index f87a8d1..e824016 100644
--- a/dtformats/firefox_cache1.debug.yaml
+++ b/dtformats/firefox_cache1.debug.yaml
@@ -10,7 +10,7 @@ attributes:
   format: decimal
 - name: location
   description: "Location"
-  format: custom:cache_lcation
+  format: custom:cache_location
 - name: fetch_count
   description: "Fetch count"
   format: decimal
@@ -20,6 +20,9 @@ attributes:
 - name: last_modified_time
   description: "Last modified time"
   format: custom:posix_time
+- name: expiration_time
+  description: "Expiration time"
+  format: custom:posix_time
 - name: cached_data_size
   description: "Cached data size"
   format: decimal
@@ -73,7 +76,7 @@ attributes:
   format: decimal
 - name: data_location
   description: "Data location"
-  format: custom:cache_lcation
+  format: custom:cache_location
 - name: metadata_location
   description: "Metadata location"
-  format: custom:cache_lcation
+  format: custom:cache_location
-- 
2.43.0


From 06809c720f961397fc38fa267c9220ef60a7378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:22 +0000
Subject: [PATCH 062/161] fix: read a structure that is smaller than its size
 hint

---
 dtformats/data_format.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index c26a5ff..e8b8e31 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -587,7 +587,9 @@ class BinaryDataFormat:
 
         return data_type_map
 
-    def _ReadData(self, file_object, file_offset, data_size, description):
+    def _ReadData(
+        self, file_object, file_offset, data_size, description, allow_partial=False
+    ):
         """Reads data.
 
         Args:
@@ -596,6 +598,8 @@ class BinaryDataFormat:
               the file-like object.
           data_size (int): size of the data.
           description (str): description of the data.
+          allow_partial (Optional[bool]): True if less data can be returned if
+              the end of the file-like object is reached.
 
         Returns:
           bytes: byte stream containing the data.
@@ -615,7 +619,9 @@ class BinaryDataFormat:
             data = file_object.read(data_size)
             read_count = len(data)
 
-            if read_count != data_size:
+            if read_count != data_size and not (
+                allow_partial and 0 < read_count < data_size
+            ):
                 read_error = (
                     f"missing data (read: {read_count:d}, requested: {data_size:d})"
                 )
@@ -708,8 +714,9 @@ class BinaryDataFormat:
         while data_size != last_data_size:
             read_offset = file_offset + last_data_size
             read_size = data_size - last_data_size
+            # Note that the size hint can exceed the size of the structure.
             data_segment = self._ReadData(
-                file_object, read_offset, read_size, description
+                file_object, read_offset, read_size, description, allow_partial=True
             )
             data = b"".join([data, data_segment])
 
@@ -718,16 +725,25 @@ class BinaryDataFormat:
                 structure_values_object = data_type_map.MapByteStream(
                     data, context=context
                 )
+                if context.byte_size and context.byte_size < len(data):
+                    data = data[: context.byte_size]
+                    file_object.seek(file_offset + context.byte_size, os.SEEK_SET)
+
                 if self._debug:
                     first_letter = description[0].upper()
                     self._DebugPrintData(
                         f"{first_letter:s}{description[1:]:s} data", data
                     )
 
-                return structure_values_object, data_size
+                return structure_values_object, len(data)
 
-            except dtfabric_errors.ByteStreamTooSmallError:
-                pass
+            except dtfabric_errors.ByteStreamTooSmallError as exception:
+                if len(data_segment) < read_size:
+                    raise errors.ParseError(
+                        f"Unable to read {description:s} data at offset: "
+                        f"{file_offset:d} (0x{file_offset:08x}) with error: "
+                        f"{exception!s}"
+                    )
 
             except dtfabric_errors.MappingError as exception:
                 raise errors.ParseError(
-- 
2.43.0


From a08632565af6deeb79ce4ff4cc26f30541f7cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 063/161] fix: use the file offset as identifier of a custom
 destinations entry

---
 dtformats/jump_list.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 4417159..41311fe 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -407,11 +407,13 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
 
         return file_header, bytes_read
 
-    def _ReadJumpListEntry(self, file_object):
+    def _ReadJumpListEntry(self, file_object, file_offset):
         """Reads a jump list entry.
 
         Args:
           file_object (file): file-like object.
+          file_offset (int): offset of the LNK data relative to the start of
+              the file.
 
         Returns:
           JumpListEntry: a jump list entry.
@@ -419,7 +421,6 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the jump list entry cannot be read.
         """
-        file_offset = file_object.tell()
         if self._debug:
             self._DebugPrintText(f"Reading LNK file at offset: 0x{file_offset:08x}\n")
 
@@ -493,7 +494,9 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
                         data_offset=file_offset,
                         data_size=remaining_file_size,
                     )
-                    jump_list_entry = self._ReadJumpListEntry(data_range_file_object)
+                    jump_list_entry = self._ReadJumpListEntry(
+                        data_range_file_object, file_offset
+                    )
 
                     self._entries.append(jump_list_entry)
 
-- 
2.43.0


From c8d518d3fcda4f6cf5e67edaa9914f3196964d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 064/161] fix: forget the custom destinations entries of a
 previously opened file

---
 dtformats/jump_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 41311fe..ebd1f8f 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -459,6 +459,8 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._entries = []
+
         file_header, file_offset = self._ReadFileHeader(file_object)
 
         data_type_map = self._GetDataTypeMap("custom_entry_header")
-- 
2.43.0


From cb663f617f5e678ae44947649d4c3b1bcd2150a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:00 +0000
Subject: [PATCH 065/161] Revert "fix: read a structure that is smaller than
 its size hint"

---
 dtformats/data_format.py | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index e8b8e31..c26a5ff 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -587,9 +587,7 @@ class BinaryDataFormat:
 
         return data_type_map
 
-    def _ReadData(
-        self, file_object, file_offset, data_size, description, allow_partial=False
-    ):
+    def _ReadData(self, file_object, file_offset, data_size, description):
         """Reads data.
 
         Args:
@@ -598,8 +596,6 @@ class BinaryDataFormat:
               the file-like object.
           data_size (int): size of the data.
           description (str): description of the data.
-          allow_partial (Optional[bool]): True if less data can be returned if
-              the end of the file-like object is reached.
 
         Returns:
           bytes: byte stream containing the data.
@@ -619,9 +615,7 @@ class BinaryDataFormat:
             data = file_object.read(data_size)
             read_count = len(data)
 
-            if read_count != data_size and not (
-                allow_partial and 0 < read_count < data_size
-            ):
+            if read_count != data_size:
                 read_error = (
                     f"missing data (read: {read_count:d}, requested: {data_size:d})"
                 )
@@ -714,9 +708,8 @@ class BinaryDataFormat:
         while data_size != last_data_size:
             read_offset = file_offset + last_data_size
             read_size = data_size - last_data_size
-            # Note that the size hint can exceed the size of the structure.
             data_segment = self._ReadData(
-                file_object, read_offset, read_size, description, allow_partial=True
+                file_object, read_offset, read_size, description
             )
             data = b"".join([data, data_segment])
 
@@ -725,25 +718,16 @@ class BinaryDataFormat:
                 structure_values_object = data_type_map.MapByteStream(
                     data, context=context
                 )
-                if context.byte_size and context.byte_size < len(data):
-                    data = data[: context.byte_size]
-                    file_object.seek(file_offset + context.byte_size, os.SEEK_SET)
-
                 if self._debug:
                     first_letter = description[0].upper()
                     self._DebugPrintData(
                         f"{first_letter:s}{description[1:]:s} data", data
                     )
 
-                return structure_values_object, len(data)
+                return structure_values_object, data_size
 
-            except dtfabric_errors.ByteStreamTooSmallError as exception:
-                if len(data_segment) < read_size:
-                    raise errors.ParseError(
-                        f"Unable to read {description:s} data at offset: "
-                        f"{file_offset:d} (0x{file_offset:08x}) with error: "
-                        f"{exception!s}"
-                    )
+            except dtfabric_errors.ByteStreamTooSmallError:
+                pass
 
             except dtfabric_errors.MappingError as exception:
                 raise errors.ParseError(
-- 
2.43.0


From cfde7d6e9654a9845085dcd2664fc3b2a41faff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:01 +0000
Subject: [PATCH 066/161] fix: read a job file that ends with empty strings

---
 dtformats/job.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dtformats/job.py b/dtformats/job.py
index 6af46a7..3204102 100644
--- a/dtformats/job.py
+++ b/dtformats/job.py
@@ -1,6 +1,7 @@
 """Windows Task Scheduler job files."""
 
 from dtformats import data_format
+from dtformats import errors
 
 
 class WindowsTaskConfiguration:
@@ -193,14 +194,29 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
         self._task_configuration.priority = data_section.priority
 
         file_offset = file_object.tell()
-        data_section = self._ReadStructureObjectFromFileObject(
+
+        # Note that the size hint of the variable-length data section can exceed its
+        # size, hence all of the remaining data is read.
+        if file_offset >= self._file_size:
+            raise errors.ParseError("Missing variable-length data section.")
+
+        data = self._ReadData(
             file_object,
             file_offset,
-            "job_variable_length_data_section",
+            self._file_size - file_offset,
+            "variable-length data section",
+        )
+        data_section = self._ReadStructureFromByteStream(
+            data,
+            file_offset,
+            self._GetDataTypeMap("job_variable_length_data_section"),
             "variable-length data section",
         )
 
         if self._debug:
+            debug_info = self._DEBUG_INFORMATION.get("job_variable_length_data_section")
+            self._DebugPrintStructureObject(data_section, debug_info)
+
             # TODO: refactor job_trigger debug info into
             # job_variable_length_data_section debug info?
             for trigger in data_section.triggers.triggers_array:
-- 
2.43.0


From e0d80f58c8f7ddfef49a3a59ae0ab104b87782a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:19 +0000
Subject: [PATCH 067/161] fix: skip a Firefox cache block that is not an entry
 without using its sizes

---
 dtformats/firefox_cache1.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dtformats/firefox_cache1.py b/dtformats/firefox_cache1.py
index 896ee05..81b03fb 100644
--- a/dtformats/firefox_cache1.py
+++ b/dtformats/firefox_cache1.py
@@ -184,7 +184,12 @@ class CacheBlockFile(data_format.BinaryDataFile):
             file_object.seek(file_offset + self._block_size, os.SEEK_SET)
             return
 
-        if self._debug and cache_entry.major_format_version == 1:
+        if cache_entry.major_format_version != 1:
+            # The block does not contain a cache entry.
+            file_object.seek(file_offset + self._block_size, os.SEEK_SET)
+            return
+
+        if self._debug:
             debug_info = self._DEBUG_INFORMATION.get("firefox_cache1_entry")
             self._DebugPrintStructureObject(cache_entry, debug_info)
 
-- 
2.43.0


From 0b1aa8d17c87f9b745e3c35c61dbc9f8cf05a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:15 +0000
Subject: [PATCH 068/161] fix: read the record data at the end of the record
 header

_ReadRecord used the size of the record header as its end offset, so the
record data sizes were too large, and record sizes smaller than the record
header did not end the loop.
---
 dtformats/wemf.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 726ff64..f5694f9 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -151,14 +151,19 @@ class EMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("emf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, header_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
         if self._debug:
             self._DebugPrintRecordHeader(record_header)
 
-        data_size = record_header.record_size - (data_offset - file_offset)
+        data_offset = file_offset + header_size
+        data_size = record_header.record_size - header_size
+        if data_size < 0:
+            raise errors.ParseError(
+                f"Unsupported record size: {record_header.record_size:d}"
+            )
 
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
@@ -704,7 +709,7 @@ class WMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("wmf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, header_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
@@ -713,7 +718,12 @@ class WMFFile(data_format.BinaryDataFile):
 
         record_size = record_header.record_size * 2
 
-        data_size = record_size - (data_offset - file_offset)
+        data_offset = file_offset + header_size
+        data_size = record_size - header_size
+        if data_size < 0:
+            raise errors.ParseError(
+                f"Unsupported record size: {record_header.record_size:d}"
+            )
 
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
-- 
2.43.0


From db4ea9d4bc34fb31312f21a6d9d2127db2b0e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:15 +0000
Subject: [PATCH 069/161] fix: raise ParseError when metafile record data is
 too small

---
 dtformats/wemf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index f5694f9..1711c40 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -195,7 +195,10 @@ class EMFFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse record data with error: {exception!s}"
             )
@@ -753,7 +756,10 @@ class WMFFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse record data with error: {exception!s}"
             )
-- 
2.43.0


From 33ad3f5a1dee64fe5b170e15dc493036a12e9f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:15 +0000
Subject: [PATCH 070/161] fix: use the stretch mode names for a WMF stretch
 mode

---
 dtformats/wemf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 1711c40..f7e73aa 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -773,7 +773,7 @@ class WMFFile(data_format.BinaryDataFile):
 
             elif record_type == 0x0107:
                 stretch_mode_string = (
-                    self._MAP_MODE.GetName(record.stretch_mode) or "UNKNOWN"
+                    self._STRETCH_MODE.GetName(record.stretch_mode) or "UNKNOWN"
                 )
                 self._DebugPrintValue(
                     "Stretch mode",
-- 
2.43.0


From a4c11be9584e08811dee0d2eda6c7e7f0158c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:15 +0000
Subject: [PATCH 071/161] fix: raise ParseError for a WMF file smaller than its
 signature

---
 dtformats/wemf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index f7e73aa..5524d11 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -841,7 +841,7 @@ class WMFFile(data_format.BinaryDataFile):
         """
         try:
             signature = file_object.read(4)
-            file_object.seek(-4, os.SEEK_CUR)
+            file_object.seek(0, os.SEEK_SET)
         except OSError as exception:
             raise errors.ParseError(
                 f"Unable to read file signature with error: {exception!s}"
-- 
2.43.0


From 00a0e5618cb480ac71cb41492b6823e5568856cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:15 +0000
Subject: [PATCH 072/161] fix: read the values of WMF records as signed, with y
 before x

As documented in [MS-WMF] the coordinates of META_SETWINDOWORG,
META_SETWINDOWEXT and META_DIBSTRETCHBLT are signed and stored as y, x, and
a negative number of META_RESTOREDC is relative to the current device
context.
---
 dtformats/wmf.yaml | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/dtformats/wmf.yaml b/dtformats/wmf.yaml
index 9bbdcd2..456dd32 100644
--- a/dtformats/wmf.yaml
+++ b/dtformats/wmf.yaml
@@ -7,6 +7,13 @@ attributes:
   size: 1
   units: bytes
 ---
+name: int16
+type: integer
+attributes:
+  format: signed
+  size: 2
+  units: bytes
+---
 name: uint16
 type: integer
 attributes:
@@ -800,7 +807,7 @@ attributes:
   byte_order: little-endian
 members:
 - name: number_of_saved_device_context
-  data_type: uint16
+  data_type: int16
 ---
 name: wmf_setmapmode
 type: structure
@@ -828,20 +835,20 @@ type: structure
 attributes:
   byte_order: little-endian
 members:
-- name: x_coordinate
-  data_type: uint16
 - name: y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: x_coordinate
+  data_type: int16
 ---
 name: wmf_setwindoworg
 type: structure
 attributes:
   byte_order: little-endian
 members:
-- name: x_coordinate
-  data_type: uint16
 - name: y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: x_coordinate
+  data_type: int16
 ---
 name: wmf_dibstretchblt
 type: structure
@@ -851,19 +858,19 @@ members:
 - name: raster_operation
   data_type: uint32
 - name: source_height
-  data_type: uint16
+  data_type: int16
 - name: source_width
-  data_type: uint16
-- name: source_x_coordinate
-  data_type: uint16
+  data_type: int16
 - name: source_y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: source_x_coordinate
+  data_type: int16
 - name: destination_height
-  data_type: uint16
+  data_type: int16
 - name: destination_width
-  data_type: uint16
-- name: destination_x_coordinate
-  data_type: uint16
+  data_type: int16
 - name: destination_y_coordinate
-  data_type: uint16
+  data_type: int16
+- name: destination_x_coordinate
+  data_type: int16
 # TODO: add device_indepent_bitmap stream.
-- 
2.43.0


From d82a144c8e4f1e9cf0fdb870cb5c292063a90d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:15 +0000
Subject: [PATCH 073/161] fix: read the EMF records after the file header
 record

The file header record is larger than its fixed size values when it contains
a description or pixel format.
---
 dtformats/wemf.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 5524d11..04b072a 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -117,6 +117,9 @@ class EMFFile(data_format.BinaryDataFile):
         Args:
           file_object (file): file-like object.
 
+        Returns:
+          emf_file_header: file header.
+
         Raises:
           ParseError: if the file header cannot be read.
         """
@@ -132,9 +135,15 @@ class EMFFile(data_format.BinaryDataFile):
             self._DebugPrintFileHeader(file_header)
 
         # TODO: check record type
-        # TODO: check record size
         # TODO: check signature
 
+        if file_header.record_size < 88:
+            raise errors.ParseError(
+                f"Unsupported record size: {file_header.record_size:d}"
+            )
+
+        return file_header
+
     def _ReadRecord(self, file_object, file_offset):
         """Reads a record.
 
@@ -228,10 +237,14 @@ class EMFFile(data_format.BinaryDataFile):
 
         Args:
           file_object (file): file-like object.
+
+        Raises:
+          ParseError: if the file cannot be read.
         """
-        self._ReadFileHeader(file_object)
+        file_header = self._ReadFileHeader(file_object)
 
-        file_offset = file_object.tell()
+        # The file header record can contain a description and a pixel format.
+        file_offset = file_header.record_size
         while file_offset < self._file_size:
             record = self._ReadRecord(file_object, file_offset)
 
-- 
2.43.0


From 461ae2c78a603efd9677cb049b89202b8b90ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:37 +0000
Subject: [PATCH 074/161] fix: complete the names of the WMF raster operations

The names of 0x00010289 up to 0x002606c8 lacked their last operation and the
name of 0x006f0c65 an operand, so they described other raster operations.
---
 dtformats/wemf.py | 76 +++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 04b072a..7f8b8bb 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -348,44 +348,44 @@ class WMFFile(data_format.BinaryDataFile):
     # Reverse Polish wmf_raster_operation_code
     _WMF_RASTER_OPERATIONS = {
         0x00000042: "BLACKNESS",
-        0x00010289: "DPSOO",
-        0x00020C89: "DPSON",
-        0x000300AA: "PSO",
-        0x00040C88: "SDPON",
-        0x000500A9: "DPO",
-        0x00060865: "PDSXNO",
-        0x000702C5: "PDSAO",
-        0x00080F08: "SDPNA",
-        0x00090245: "PDSXO",
-        0x000A0329: "DPN",
-        0x000B0B2A: "PSDNAO",
-        0x000C0324: "SPN",
-        0x000D0B25: "PDSNAO",
-        0x000E08A5: "PDSONO",
-        0x000F0001: "P",
-        0x00100C85: "PDSON",
+        0x00010289: "DPSOON",
+        0x00020C89: "DPSONA",
+        0x000300AA: "PSON",
+        0x00040C88: "SDPONA",
+        0x000500A9: "DPON",
+        0x00060865: "PDSXNON",
+        0x000702C5: "PDSAON",
+        0x00080F08: "SDPNAA",
+        0x00090245: "PDSXON",
+        0x000A0329: "DPNA",
+        0x000B0B2A: "PSDNAON",
+        0x000C0324: "SPNA",
+        0x000D0B25: "PDSNAON",
+        0x000E08A5: "PDSONON",
+        0x000F0001: "PN",
+        0x00100C85: "PDSONA",
         0x001100A6: "NOTSRCERAS",
-        0x00120868: "SDPXNO",
-        0x001302C8: "SDPAO",
-        0x00140869: "DPSXNO",
-        0x001502C9: "DPSAO",
-        0x00165CCA: "PSDPSANAX",
-        0x00171D54: "SSPXDSXAX",
-        0x00180D59: "SPXPDX",
-        0x00191CC8: "SDPSANAX",
-        0x001A06C5: "PDSPAO",
-        0x001B0768: "SDPSXAX",
-        0x001C06CA: "PSDPAO",
-        0x001D0766: "DSPDXAX",
-        0x001E01A5: "PDSO",
-        0x001F0385: "PDSOA",
-        0x00200F09: "DPSNA",
-        0x00210248: "SDPXO",
-        0x00220326: "DSN",
-        0x00230B24: "SPDNAO",
-        0x00240D55: "SPXDSX",
-        0x00251CC5: "PDSPANAX",
-        0x002606C8: "SDPSAO",
+        0x00120868: "SDPXNON",
+        0x001302C8: "SDPAON",
+        0x00140869: "DPSXNON",
+        0x001502C9: "DPSAON",
+        0x00165CCA: "PSDPSANAXX",
+        0x00171D54: "SSPXDSXAXN",
+        0x00180D59: "SPXPDXA",
+        0x00191CC8: "SDPSANAXN",
+        0x001A06C5: "PDSPAOX",
+        0x001B0768: "SDPSXAXN",
+        0x001C06CA: "PSDPAOX",
+        0x001D0766: "DSPDXAXN",
+        0x001E01A5: "PDSOX",
+        0x001F0385: "PDSOAN",
+        0x00200F09: "DPSNAA",
+        0x00210248: "SDPXON",
+        0x00220326: "DSNA",
+        0x00230B24: "SPDNAON",
+        0x00240D55: "SPXDSXA",
+        0x00251CC5: "PDSPANAXN",
+        0x002606C8: "SDPSAOX",
         0x00271868: "SDPSXNOX",
         0x00280369: "DPSXA",
         0x002916CA: "PSDPSAOXXN",
@@ -458,7 +458,7 @@ class WMFFile(data_format.BinaryDataFile):
         0x006C01E8: "SDPAX",
         0x006D1785: "PDSPDOAXXN",
         0x006E1E28: "SDPSNOAX",
-        0x006F0C65: "PDXNAN",
+        0x006F0C65: "PDSXNAN",
         0x00700CC5: "PDSANA",
         0x00711D5C: "SSDXPDXAXN",
         0x00720648: "SDPSXOX",
-- 
2.43.0


From 20be62af1f63b9ec83b2215fc92637c86a01bd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:05 +0000
Subject: [PATCH 075/161] fix: forget the format version of a previously opened
 systemd journal

---
 dtformats/systemd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index dc00180..31248aa 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -311,6 +311,8 @@ class SystemdJournalFile(data_format.BinaryDataFile):
             self._format_version = 187
         elif file_header.header_size == 240:
             self._format_version = 189
+        else:
+            self._format_version = None
 
         return file_header
 
-- 
2.43.0


From f4d83303ebaa786c8f2abe18098244856309c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:30 +0000
Subject: [PATCH 076/161] fix: place the width before the precision in Python
 format strings

---
 dtformats/unified_logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 48165ca..4a3cd59 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -304,11 +304,11 @@ class FormatStringOperator:
 
             if self.specifier == "p":
                 self._format_string = (
-                    f"0x{{0:{flags:s}{precision:s}{width:s}{python_specifier:s}}}"
+                    f"0x{{0:{flags:s}{width:s}{precision:s}{python_specifier:s}}}"
                 )
             else:
                 self._format_string = (
-                    f"{{0:{flags:s}{precision:s}{width:s}{python_specifier:s}}}"
+                    f"{{0:{flags:s}{width:s}{precision:s}{python_specifier:s}}}"
                 )
 
         return self._format_string
-- 
2.43.0


From 2bca75f7df7f2593672c2cb970084f43ca4a033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:30 +0000
Subject: [PATCH 077/161] fix: ignore a format string width that is stored in a
 value

---
 dtformats/unified_logging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 4a3cd59..b82ef3a 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -285,6 +285,11 @@ class FormatStringOperator:
             elif precision == ".*":
                 precision = ""
 
+            # Prevent: "ValueError: Invalid format specifier", note that the width
+            # is stored in a separate value.
+            if width == "*":
+                width = ""
+
             if python_specifier in ("d", "o", "x", "X"):
                 flags = flags.replace("-", "<")
 
-- 
2.43.0


From acae19f7b9bf8280dca7e77ccf3fb9dd54a2554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:30 +0000
Subject: [PATCH 078/161] fix: format values with any combination of format
 string flags

---
 dtformats/unified_logging.py | 51 +++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index b82ef3a..b221466 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -255,6 +255,33 @@ class FormatStringOperator:
         self.specifier = specifier
         self.width = width
 
+    def _GetPythonFlags(self, flags):
+        """Retrieves the Python equivalent of the flags of a numeric value.
+
+        Args:
+          flags (str): flags, in any order and that can contain duplicates.
+
+        Returns:
+          str: Python format specification sign, alternate form and zero padding.
+        """
+        python_flags = []
+
+        # Note that only signed values have a sign.
+        if self.specifier not in ("o", "O", "p", "u", "U", "x", "X"):
+            if "+" in flags:
+                python_flags.append("+")
+            elif " " in flags:
+                python_flags.append(" ")
+
+        if "#" in flags and self.specifier not in ("d", "D", "i", "m", "p", "u", "U"):
+            python_flags.append("#")
+
+        # Note that left alignment overrides zero padding.
+        if "0" in flags and "-" not in flags:
+            python_flags.append("0")
+
+        return "".join(python_flags)
+
     def GetPythonFormatString(self):
         """Retrieves the Python format string.
 
@@ -290,22 +317,26 @@ class FormatStringOperator:
             if width == "*":
                 width = ""
 
-            if python_specifier in ("d", "o", "x", "X"):
-                flags = flags.replace("-", "<")
+            alignment = "<" if "-" in flags else ""
 
+            if python_specifier in ("c", "s"):
+                # The other flags do not apply to characters and strings.
+                flags = ""
+                if width and not alignment:
+                    alignment = ">"
+            else:
+                flags = self._GetPythonFlags(flags)
+
+            if python_specifier in ("c", "d", "o", "x", "X"):
                 # Prevent: "ValueError: Precision not allowed in integer format
                 # specifier"
                 precision = ""
 
-            elif python_specifier == "s":
-                if width and not flags:
-                    flags = ">"
-                else:
-                    flags = flags.replace("-", "<")
+            # Prevent: "%.0s" formatting as an empty string.
+            elif python_specifier == "s" and precision == ".0":
+                precision = ""
 
-                # Prevent: "%.0s" formatting as an empty string.
-                if precision == ".0":
-                    precision = ""
+            flags = f"{alignment:s}{flags:s}"
 
             if self.specifier == "p":
                 self._format_string = (
-- 
2.43.0


From 704b106c7d9f6c5200d0f234d76b2713c939ddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:25 +0000
Subject: [PATCH 079/161] fix: include the prefix of a pointer in the format
 string width

---
 dtformats/unified_logging.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index b221466..65c2c58 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -273,7 +273,12 @@ class FormatStringOperator:
             elif " " in flags:
                 python_flags.append(" ")
 
-        if "#" in flags and self.specifier not in ("d", "D", "i", "m", "p", "u", "U"):
+        if self.specifier == "p":
+            # Use the alternate form to have the width include the "0x" prefix.
+            if self.width:
+                python_flags.append("#")
+
+        elif "#" in flags and self.specifier not in ("d", "D", "i", "m", "u", "U"):
             python_flags.append("#")
 
         # Note that left alignment overrides zero padding.
@@ -338,7 +343,7 @@ class FormatStringOperator:
 
             flags = f"{alignment:s}{flags:s}"
 
-            if self.specifier == "p":
+            if self.specifier == "p" and "#" not in flags:
                 self._format_string = (
                     f"0x{{0:{flags:s}{width:s}{precision:s}{python_specifier:s}}}"
                 )
-- 
2.43.0


From 132a7849060e2d7ba40db495422d43a2df8437be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:25 +0000
Subject: [PATCH 080/161] fix: do not add place holders to the values passed by
 the caller

---
 dtformats/unified_logging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 65c2c58..1e2dd37 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -423,8 +423,10 @@ class StringFormatter:
           str: formatted string.
         """
         # Add place holders for missing values.
-        while len(values) < len(self._operators):
-            values.append("<decode: missing data>")
+        number_of_missing_values = max(0, len(self._operators) - len(values))
+        values = list(values) + (
+            ["<decode: missing data>"] * number_of_missing_values
+        )
 
         if self._format_string is None:
             formatted_string = ""
-- 
2.43.0


From 8f28a15925ae6739432c3670a3f9cbc842813238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:25 +0000
Subject: [PATCH 081/161] fix: format an UUID value of an unsupported size

---
 dtformats/unified_logging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 1e2dd37..997c899 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -1989,6 +1989,9 @@ class UUIDFormatStringDecoder(BaseFormatStringDecoder):
         Returns:
           str: formatted UUID value.
         """
+        if len(value) != 16:
+            return "<decode: unsupported value>"
+
         uuid_value = uuid.UUID(bytes=value)
         return f"{uuid_value!s}".upper()
 
-- 
2.43.0


From 301a44e2f74e653df4452933dc8d08f685a4eb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:25 +0000
Subject: [PATCH 082/161] fix: format Open Directory membership details without
 data

---
 dtformats/unified_logging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 997c899..2745fe9 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -1517,6 +1517,9 @@ class OpenDirectoryMembershipDetailsFormatStringDecoder(
         if not data_type_map_name:
             return f"ERROR: unsupported type: 0x{type_indicator:02x}"
 
+        if len(value) < 2:
+            return "<decode: unsupported value>"
+
         data_type_map = self._GetDataTypeMap(data_type_map_name)
 
         membership_details = self._ReadStructureFromByteStream(
-- 
2.43.0


From bbb8d8b448d469278f1b1edc8d4404e0303a8cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:25 +0000
Subject: [PATCH 083/161] fix: format a character value that is out of bounds

---
 dtformats/unified_logging.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 2745fe9..8db8095 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -1639,6 +1639,10 @@ class SignpostDescriptionAttributeFormatStringDecoder(BaseFormatStringDecoder):
 
             integer_value = int.from_bytes(value, "little", signed=False)
 
+            # Prevent: "OverflowError: %c arg not in range(0x110000)"
+            if specifier in ("c", "C") and integer_value > 0x10FFFF:
+                return "<decode: unsupported value>"
+
             if format_string_operator:
                 format_string = format_string_operator.GetPythonFormatString()
             else:
@@ -1777,6 +1781,10 @@ class SignpostTelemetryNumberFormatStringDecoder(BaseFormatStringDecoder):
 
             integer_value = int.from_bytes(value, "little", signed=False)
 
+            # Prevent: "OverflowError: %c arg not in range(0x110000)"
+            if specifier in ("c", "C") and integer_value > 0x10FFFF:
+                return "<decode: unsupported value>"
+
             if format_string_operator:
                 format_string = format_string_operator.GetPythonFormatString()
             else:
@@ -1971,6 +1979,13 @@ class UnsignedIntegerFormatStringDecoder(BaseFormatStringDecoder):
             ):
                 return f"{integer_value:x}"
 
+            # Prevent: "OverflowError: %c arg not in range(0x110000)"
+            if (
+                integer_value > 0x10FFFF
+                and format_string_operator.specifier in ("c", "C")
+            ):
+                return "<decode: unsupported value>"
+
             format_string = format_string_operator.GetPythonFormatString()
         else:
             format_string = "{0:d}"
-- 
2.43.0


From f304b0da84e4ddf0b12f49a2d0b170a3b68d74c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:25 +0000
Subject: [PATCH 084/161] fix: format a date and time value that is out of
 bounds

---
 dtformats/unified_logging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 8db8095..c41365e 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -606,6 +606,11 @@ class DateTimeInSecondsFormatStringDecoder(BaseFormatStringDecoder):
         """
         integer_value = int.from_bytes(value, "little", signed=False)
 
+        # Ignore timestamps after 9999-12-31 23:59:59, since determining a date
+        # that far ahead can take a considerable amount of time.
+        if integer_value > 253402300799:
+            return "<decode: unsupported value>"
+
         date_time = dfdatetime_posix_time.PosixTime(timestamp=integer_value)
         return date_time.CopyToDateTimeString()
 
-- 
2.43.0


From 1a1d1a97d5dbdc86f509ff3099e0d6d075694aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:45 +0000
Subject: [PATCH 085/161] fix: format a zero value in the alternate form with
 other flags

---
 dtformats/unified_logging.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index c41365e..41b4e64 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -1977,13 +1977,6 @@ class UnsignedIntegerFormatStringDecoder(BaseFormatStringDecoder):
         integer_value = int.from_bytes(value, "little", signed=False)
 
         if format_string_operator:
-            if (
-                integer_value == 0
-                and format_string_operator.flags == "#"
-                and format_string_operator.specifier == "x"
-            ):
-                return f"{integer_value:x}"
-
             # Prevent: "OverflowError: %c arg not in range(0x110000)"
             if (
                 integer_value > 0x10FFFF
@@ -1992,6 +1985,10 @@ class UnsignedIntegerFormatStringDecoder(BaseFormatStringDecoder):
                 return "<decode: unsupported value>"
 
             format_string = format_string_operator.GetPythonFormatString()
+
+            # Note that the alternate form of 0 has no prefix.
+            if integer_value == 0 and format_string_operator.specifier in ("x", "X"):
+                format_string = format_string.replace("#", "")
         else:
             format_string = "{0:d}"
 
-- 
2.43.0


From 828eb460a26058a2ba370da8910756073a5fa7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:02 +0000
Subject: [PATCH 086/161] fix: format negative error code values

---
 dtformats/unified_logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 41b4e64..1167ce0 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -632,7 +632,7 @@ class ErrorCodeFormatStringDecoder(BaseFormatStringDecoder):
         if len(value) != 4:
             return "<decode: unsupported value>"
 
-        integer_value = int.from_bytes(value, "little", signed=False)
+        integer_value = int.from_bytes(value, "little", signed=True)
 
         return darwin.DARWIN_ERROR_CODES.get(
             integer_value, f"<decode: unknown value: {integer_value:d}>"
@@ -656,7 +656,7 @@ class ExtendedErrorCodeFormatStringDecoder(BaseFormatStringDecoder):
         if len(value) != 4:
             return "<decode: unsupported value>"
 
-        integer_value = int.from_bytes(value, "little", signed=False)
+        integer_value = int.from_bytes(value, "little", signed=True)
 
         error_message = darwin.DARWIN_ERROR_CODES.get(
             integer_value, f"<decode: unknown value: {integer_value:d}>"
-- 
2.43.0


From dbcc0012484e8861d388377b1c4f9b9cd884215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:44 +0000
Subject: [PATCH 087/161] fix: do not resolve a dsc string reference at the end
 of a range

---
 dtformats/unified_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 1167ce0..4398537 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2303,7 +2303,7 @@ class DSCFile(data_format.BinaryDataFile):
                 continue
 
             relative_offset = string_reference - range_offset
-            if relative_offset <= range_size:
+            if relative_offset < range_size:
                 if is_dynamic:
                     string = "%s"
                 else:
-- 
2.43.0


From 5feedb9061b3a010991dd7d3a5179d7e96e14bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:44 +0000
Subject: [PATCH 088/161] fix: do not resolve an uuidtext string reference at
 the end of an entry

---
 dtformats/unified_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 4398537..1348e36 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5314,7 +5314,7 @@ class UUIDTextFile(data_format.BinaryDataFile):
                 continue
 
             relative_offset = string_reference - entry_descriptor.offset
-            if relative_offset <= entry_descriptor.data_size:
+            if relative_offset < entry_descriptor.data_size:
                 file_offset += relative_offset
                 return self._ReadString(self._file_object, file_offset)
 
-- 
2.43.0


From 9ca33292003af4e7453f4cc67c9fbbea86ae86c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:44 +0000
Subject: [PATCH 089/161] fix: refuse a dsc range with an UUID descriptor index
 that is out of bounds

---
 dtformats/unified_logging.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 1348e36..1d859ca 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2354,6 +2354,12 @@ class DSCFile(data_format.BinaryDataFile):
             )
         )
         for dsc_range in self.ranges:
+            if dsc_range.uuid_index >= len(self.uuids):
+                raise errors.ParseError(
+                    f"UUID descriptor index: {dsc_range.uuid_index:d} value out of "
+                    f"bounds."
+                )
+
             dsc_uuid = self.uuids[dsc_range.uuid_index]
 
             dsc_range.image_identifier = dsc_uuid.image_identifier
-- 
2.43.0


From 785ff57de8e6313c9562e6cededc0bd2d8e02648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:44 +0000
Subject: [PATCH 090/161] fix: refuse a timesync record with a size that is too
 small

---
 dtformats/unified_logging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 1d859ca..92c233c 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2438,6 +2438,11 @@ class TimesyncDatabaseFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintStructureObject(record, debug_info)
 
+        if record.record_size < bytes_read:
+            raise errors.ParseError(
+                f"Unsupported record size: {record.record_size:d} value too small."
+            )
+
         return record, bytes_read
 
     def ReadFileObject(self, file_object):
-- 
2.43.0


From 13889be9d0d23f634383afa402d8be72b63c176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:59 +0000
Subject: [PATCH 091/161] fix: read a firehose chunk without log, activity or
 signpost tracepoints

---
 dtformats/unified_logging.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 92c233c..c18107f 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4018,6 +4018,15 @@ class TraceV3File(data_format.BinaryDataFile):
                     f"catalog"
                 )
 
+        private_data_virtual_offset = (
+            firehose_header.private_data_virtual_offset & 0x0FFF
+        )
+        if not private_data_virtual_offset:
+            chunk_private_data = b""
+        else:
+            private_data_size = 4096 - private_data_virtual_offset
+            chunk_private_data = chunk_data[-private_data_size:]
+
         chunk_data_offset = 32
         while chunk_data_offset < firehose_header.public_data_size:
             if self._debug:
@@ -4200,21 +4209,12 @@ class TraceV3File(data_format.BinaryDataFile):
                         tracepoint_data_object, values_data, string_formatter
                     )
                 else:
-                    private_data_virtual_offset = (
-                        firehose_header.private_data_virtual_offset & 0x0FFF
-                    )
-                    if not private_data_virtual_offset:
-                        private_data = b""
-                    else:
-                        private_data_size = 4096 - private_data_virtual_offset
-                        private_data = chunk_data[-private_data_size:]
-
                     data_items, values_data, private_data = (
                         self._GetDataItemsAndValuesData(
                             proc_id,
                             tracepoint_data_object,
                             values_data,
-                            private_data,
+                            chunk_private_data,
                             oversize_chunks,
                         )
                     )
@@ -4377,9 +4377,7 @@ class TraceV3File(data_format.BinaryDataFile):
 
             chunk_data_offset += alignment
 
-        private_data_size = len(private_data)
-        if private_data_size:
-            chunk_data_size -= private_data_size
+        chunk_data_size -= len(chunk_private_data)
 
         if self._debug and chunk_data_offset < chunk_data_size:
             self._DebugPrintData(
-- 
2.43.0


From 2f79a9fe51fa74960bb7a24884bf269934c4a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:01 +0000
Subject: [PATCH 092/161] fix: read the private data of an oversize chunk
 directly after its data

---
 dtformats/unified_logging.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index c18107f..dcbd686 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4746,11 +4746,12 @@ class TraceV3File(data_format.BinaryDataFile):
             debug_info = self._DEBUG_INFORMATION.get("tracev3_oversize_chunk")
             self._DebugPrintStructureObject(oversize_chunk, debug_info)
 
+        # Note that the data size includes the size of the data items.
         data_offset = context.byte_size
-        data_size = data_offset + oversize_chunk.data_size
+        data_size = 32 + oversize_chunk.data_size
         oversize_chunk.values_data = chunk_data[data_offset:data_size]
 
-        data_offset += oversize_chunk.data_size
+        data_offset = data_size
         data_size = data_offset + oversize_chunk.private_data_size
         oversize_chunk.private_data = chunk_data[data_offset:data_size]
 
-- 
2.43.0


From 3fb3b48f8c7d7d02149eba860a5e02969acdf71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:02 +0000
Subject: [PATCH 093/161] fix: do not use cached image values of another type
 of string reference

---
 dtformats/unified_logging.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index dcbd686..63b735d 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3274,13 +3274,20 @@ class TraceV3File(data_format.BinaryDataFile):
 
         uuid_string = strings_file_identifier.hex.upper()
 
-        lookup_key = f"{uuid_string:s}:0x{string_reference:x}"
+        large_offset_data = (
+            getattr(tracepoint_data_object, "large_offset_data", None) or 0
+        )
+        large_shared_cache_data = (
+            getattr(tracepoint_data_object, "large_shared_cache_data", None) or 0
+        )
+        # Note that image values do not solely depend on the string reference.
+        lookup_key = (
+            f"{uuid_string:s}:0x{string_reference:x}:{is_dynamic!s}:"
+            f"0x{strings_file_type:x}:0x{image_text_offset:x}:"
+            f"0x{large_offset_data:x}:0x{large_shared_cache_data:x}"
+        )
         image_values = self._cached_image_values.get(lookup_key)
         if not image_values:
-            large_offset_data = (
-                getattr(tracepoint_data_object, "large_offset_data", None) or 0
-            )
-
             if strings_file_type in self._UUIDTEXT_STRINGS_FILE_TYPES:
                 image_values = ImageValues(
                     identifier=strings_file_identifier, text_offset=image_text_offset
@@ -3308,9 +3315,6 @@ class TraceV3File(data_format.BinaryDataFile):
                         text_offset=image_text_offset,
                     )
 
-                large_shared_cache_data = getattr(
-                    tracepoint_data_object, "large_shared_cache_data", None
-                )
                 if large_offset_data and large_shared_cache_data:
                     calculated_large_offset_data = large_shared_cache_data >> 1
                     if large_offset_data != calculated_large_offset_data:
-- 
2.43.0


From 5870aa836a5f9c7ae4754b2e48f00224922471f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:03 +0000
Subject: [PATCH 094/161] fix: do not use the image that ends at a load address

---
 dtformats/unified_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 63b735d..86b9e4b 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3249,7 +3249,7 @@ class TraceV3File(data_format.BinaryDataFile):
                 ):
                     continue
 
-                if load_address_lower <= (
+                if load_address_lower < (
                     uuid_entry.load_address_lower + uuid_entry.size
                 ):
                     if self._catalog:
-- 
2.43.0


From 2eb4f3190e2c31babad500525e000d0d62dbca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:04 +0000
Subject: [PATCH 095/161] fix: handle a catalog UUID index that is not set or
 out of bounds

---
 dtformats/unified_logging.py | 45 ++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 86b9e4b..d543465 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2727,15 +2727,12 @@ class TraceV3File(data_format.BinaryDataFile):
         self._catalog_process_information_entries = {}
 
         for process_information_entry in catalog.process_information_entries:
-            if process_information_entry.main_uuid_index >= 0:
-                process_information_entry.main_uuid = catalog.uuids[
-                    process_information_entry.main_uuid_index
-                ]
-
-            if process_information_entry.dsc_uuid_index >= 0:
-                process_information_entry.dsc_uuid = catalog.uuids[
-                    process_information_entry.dsc_uuid_index
-                ]
+            process_information_entry.main_uuid = self._GetCatalogUUID(
+                catalog, process_information_entry.main_uuid_index
+            )
+            process_information_entry.dsc_uuid = self._GetCatalogUUID(
+                catalog, process_information_entry.dsc_uuid_index
+            )
 
             if self._debug:
                 for sub_system_entry in process_information_entry.sub_system_entries:
@@ -3135,6 +3132,30 @@ class TraceV3File(data_format.BinaryDataFile):
 
         return strings_map
 
+    def _GetCatalogUUID(self, catalog, uuid_index):
+        """Retrieves a catalog UUID.
+
+        Args:
+          catalog (tracev3_catalog): catalog.
+          uuid_index (int): index of the UUID, where a negative index represents
+              not set.
+
+        Returns:
+          uuid.UUID: UUID or None if not set.
+
+        Raises:
+          ParseError: if the UUID index is out of bounds.
+        """
+        if uuid_index < 0:
+            return None
+
+        if uuid_index >= len(catalog.uuids):
+            raise errors.ParseError(
+                f"Catalog UUID index: {uuid_index:d} value out of bounds."
+            )
+
+        return catalog.uuids[uuid_index]
+
     def _GetDataItemsAndValuesData(
         self,
         proc_id,
@@ -3253,9 +3274,9 @@ class TraceV3File(data_format.BinaryDataFile):
                     uuid_entry.load_address_lower + uuid_entry.size
                 ):
                     if self._catalog:
-                        strings_file_identifier = self._catalog.uuids[
-                            uuid_entry.uuid_index
-                        ]
+                        strings_file_identifier = self._GetCatalogUUID(
+                            self._catalog, uuid_entry.uuid_index
+                        )
 
                     image_text_offset = uuid_entry.load_address_lower | (
                         uuid_entry.load_address_upper << 32
-- 
2.43.0


From 6e8ca6427e5fac1c99e466ebc110bc24d79bdfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:06 +0000
Subject: [PATCH 096/161] fix: refuse a backtrace identifier index that is out
 of bounds

---
 dtformats/unified_logging.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index d543465..8ce0b57 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3879,6 +3879,12 @@ class TraceV3File(data_format.BinaryDataFile):
                     "00000000-0000-0000-0000-000000000000"
                 )
             else:
+                if identifier_index >= backtrace_data.number_of_identifiers:
+                    raise errors.ParseError(
+                        f"Backtrace identifier index: {identifier_index:d} value out "
+                        f"of bounds."
+                    )
+
                 backtrace_frame.image_identifier = backtrace_data.identifiers[
                     identifier_index
                 ]
-- 
2.43.0


From 983f4b502dbf1cdf68db90b5608c434b9f48bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:08 +0000
Subject: [PATCH 097/161] fix: read a signpost without image of its name

---
 dtformats/unified_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 8ce0b57..bd1d58f 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4378,7 +4378,7 @@ class TraceV3File(data_format.BinaryDataFile):
                             name_string_reference,
                             is_dynamic,
                         )
-                        name_string = name_image_values.string
+                        name_string = getattr(name_image_values, "string", None)
 
                     log_entry.signpost_identifier = getattr(
                         tracepoint_data_object, "signpost_identifier", None
-- 
2.43.0


From 7071b5a1ff84da0a5409f6d4440c5a42643075ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:09 +0000
Subject: [PATCH 098/161] fix: raise ParseError for a firehose chunk without
 catalog

---
 dtformats/unified_logging.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index bd1d58f..14b3a4b 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3254,16 +3254,21 @@ class TraceV3File(data_format.BinaryDataFile):
         image_text_offset = 0
 
         if strings_file_type == 0x0002:
-            strings_file_identifier = process_information_entry.main_uuid
+            strings_file_identifier = getattr(
+                process_information_entry, "main_uuid", None
+            )
 
         if strings_file_type in (0x0004, 0x000C):
-            strings_file_identifier = process_information_entry.dsc_uuid
+            strings_file_identifier = getattr(
+                process_information_entry, "dsc_uuid", None
+            )
 
         if strings_file_type == 0x0008:
             load_address_upper = tracepoint_data_object.load_address_upper or 0
             load_address_lower = tracepoint_data_object.load_address_lower
 
-            for uuid_entry in process_information_entry.uuid_entries:
+            uuid_entries = getattr(process_information_entry, "uuid_entries", None)
+            for uuid_entry in uuid_entries or []:
                 if (
                     load_address_upper != uuid_entry.load_address_upper
                     or load_address_lower < uuid_entry.load_address_lower
-- 
2.43.0


From 83fea22e2c0577aa62c4c7e393eb0f21d0bc1165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:10 +0000
Subject: [PATCH 099/161] fix: determine the offset of sub system strings in
 bytes

---
 dtformats/unified_logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 14b3a4b..0d6c58b 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3128,7 +3128,8 @@ class TraceV3File(data_format.BinaryDataFile):
         map_offset = 0
         for string in catalog.sub_system_strings:
             strings_map[map_offset] = string
-            map_offset += len(string) + 1
+            # Note that the offsets are in bytes not in characters.
+            map_offset += len(string.encode("utf-8")) + 1
 
         return strings_map
 
-- 
2.43.0


From df8c6c26cac42aa3b9314a9f0789d5b7a9bf8d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:55 +0000
Subject: [PATCH 100/161] fix: find the image of a load address that crosses a
 32-bit boundary

---
 dtformats/unified_logging.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 0d6c58b..8901f49 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3265,28 +3265,25 @@ class TraceV3File(data_format.BinaryDataFile):
             )
 
         if strings_file_type == 0x0008:
-            load_address_upper = tracepoint_data_object.load_address_upper or 0
-            load_address_lower = tracepoint_data_object.load_address_lower
-
+            load_address = tracepoint_data_object.load_address_lower | (
+                (tracepoint_data_object.load_address_upper or 0) << 32
+            )
             uuid_entries = getattr(process_information_entry, "uuid_entries", None)
             for uuid_entry in uuid_entries or []:
+                uuid_load_address = uuid_entry.load_address_lower | (
+                    uuid_entry.load_address_upper << 32
+                )
                 if (
-                    load_address_upper != uuid_entry.load_address_upper
-                    or load_address_lower < uuid_entry.load_address_lower
-                ):
-                    continue
-
-                if load_address_lower < (
-                    uuid_entry.load_address_lower + uuid_entry.size
+                    uuid_load_address
+                    <= load_address
+                    < uuid_load_address + uuid_entry.size
                 ):
                     if self._catalog:
                         strings_file_identifier = self._GetCatalogUUID(
                             self._catalog, uuid_entry.uuid_index
                         )
 
-                    image_text_offset = uuid_entry.load_address_lower | (
-                        uuid_entry.load_address_upper << 32
-                    )
+                    image_text_offset = uuid_load_address
                     break
 
             if not strings_file_identifier:
-- 
2.43.0


From a1f2880f234a1ad43ca6aa8d9626f17aa46d184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:56 +0000
Subject: [PATCH 101/161] fix: print the remaining catalog chunk data for
 debugging

---
 dtformats/unified_logging.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 8901f49..e7b960a 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3636,6 +3636,8 @@ class TraceV3File(data_format.BinaryDataFile):
         Raises:
           ParseError: if the chunk header cannot be read.
         """
+        catalog_offset = file_offset
+
         data_type_map = self._GetDataTypeMap("tracev3_catalog")
 
         catalog, bytes_read = self._ReadStructureFromFileObject(
@@ -3672,8 +3674,12 @@ class TraceV3File(data_format.BinaryDataFile):
         data_type_map = self._GetDataTypeMap("tracev3_catalog_sub_chunk")
 
         if self._debug:
-            file_object.seek(file_offset, os.SEEK_SET)
-            sub_chunks_data = file_object.read(chunk_data_size - bytes_read)
+            sub_chunks_data = self._ReadData(
+                file_object,
+                file_offset,
+                max(0, catalog_offset + chunk_data_size - file_offset),
+                "catalog sub chunks",
+            )
             self._DebugPrintData("Catalog sub chunks data", sub_chunks_data)
 
         for _ in range(catalog.number_of_sub_chunks):
-- 
2.43.0


From 67681565bef5775388d94df2be4ae61e4a603a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:58 +0000
Subject: [PATCH 102/161] fix: print a sub system without string for debugging

---
 dtformats/unified_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index e7b960a..f6275dd 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2744,7 +2744,7 @@ class TraceV3File(data_format.BinaryDataFile):
                     )
                     self._DebugPrintText(
                         f"Identifier: {sub_system_entry.identifier:d}, "
-                        f"Sub system: {sub_system:s}, Category: {category:s}\n"
+                        f"Sub system: {sub_system!s}, Category: {category!s}\n"
                     )
 
                 self._DebugPrintText("\n")
-- 
2.43.0


From ac309cd46aa8e4d9f776e807a704fda95db898d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:00 +0000
Subject: [PATCH 103/161] fix: raise ParseError for a chunk set that cannot be
 read or decompressed

---
 dtformats/unified_logging.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index f6275dd..5b513d5 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3742,7 +3742,9 @@ class TraceV3File(data_format.BinaryDataFile):
         Raises:
           ParseError: if the chunk header cannot be read.
         """
-        chunk_data = file_object.read(chunk_header.chunk_data_size)
+        chunk_data = self._ReadData(
+            file_object, file_offset, chunk_header.chunk_data_size, "chunk set"
+        )
 
         data_type_map = self._GetDataTypeMap("tracev3_lz4_block_header")
 
@@ -3756,10 +3758,15 @@ class TraceV3File(data_format.BinaryDataFile):
         # TODO: add support for multi block compressed data.
         if lz4_block_header.signature == b"bv41":
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
-            uncompressed_data = lz4.block.decompress(
-                chunk_data[12:end_of_data_offset],
-                uncompressed_size=lz4_block_header.uncompressed_data_size,
-            )
+            try:
+                uncompressed_data = lz4.block.decompress(
+                    chunk_data[12:end_of_data_offset],
+                    uncompressed_size=lz4_block_header.uncompressed_data_size,
+                )
+            except (MemoryError, OverflowError, lz4.block.LZ4BlockError) as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress LZ4 block with error: {exception!s}"
+                )
 
         elif lz4_block_header.signature == b"bv4-":
             end_of_data_offset = 8 + lz4_block_header.uncompressed_data_size
-- 
2.43.0


From 8743e5bdf7b15daf3567282c5f0f06ebdfd1a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:01 +0000
Subject: [PATCH 104/161] fix: do not decode the missing data of an unsupported
 data item

---
 dtformats/unified_logging.py | 53 +++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 5b513d5..0ad1fd4 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -3971,31 +3971,31 @@ class TraceV3File(data_format.BinaryDataFile):
                 debug_info = self._DEBUG_INFORMATION.get("tracev3_data_item")
                 self._DebugPrintStructureObject(data_item, debug_info)
 
-                if data_item.value_type not in (
-                    0x00,
-                    0x01,
-                    0x02,
-                    0x10,
-                    0x12,
-                    0x20,
-                    0x21,
-                    0x22,
-                    0x25,
-                    0x30,
-                    0x31,
-                    0x32,
-                    0x35,
-                    0x40,
-                    0x41,
-                    0x42,
-                    0x45,
-                    0x72,
-                    0xF2,
-                ):
-                    raise errors.ParseError(
-                        f"Unsupported data item value type: "
-                        f"0x{data_item.value_type:02x}."
-                    )
+            if data_item.value_type not in (
+                0x00,
+                0x01,
+                0x02,
+                0x10,
+                0x12,
+                0x20,
+                0x21,
+                0x22,
+                0x25,
+                0x30,
+                0x31,
+                0x32,
+                0x35,
+                0x40,
+                0x41,
+                0x42,
+                0x45,
+                0x72,
+                0xF2,
+            ):
+                raise errors.ParseError(
+                    f"Unsupported data item value type: "
+                    f"0x{data_item.value_type:02x}."
+                )
 
             if data_item.value_type in self._DATA_ITEM_PRECISION_VALUE_TYPES:
                 precision = int.from_bytes(value_data, "little", signed=False)
@@ -4006,6 +4006,9 @@ class TraceV3File(data_format.BinaryDataFile):
                 if not value_data:
                     value = "<private>"
 
+            elif value_data is None:
+                value = "<decode: unsupported value>"
+
             if not value:
                 value = self._DecodeValue(
                     string_formatter, value_index, value_data, precision=precision
-- 
2.43.0


From a3b8d286fb876580401a4405c4f3f873516c260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:02 +0000
Subject: [PATCH 105/161] fix: raise ParseError for a trace without its value
 sizes

---
 dtformats/unified_logging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 0ad1fd4..ae1972a 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4702,6 +4702,9 @@ class TraceV3File(data_format.BinaryDataFile):
         value_size_offset = -(1 + trace.number_of_values)
 
         for value_index in range(trace.number_of_values):
+            if -value_size_offset > len(values_data):
+                raise errors.ParseError("Missing value size.")
+
             value_data_size = values_data[value_size_offset]
 
             if value_data_size not in (4, 8):
-- 
2.43.0


From cd9c6b5b89c9eb3a5d66ec9776fc5c7420f58154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:02 +0000
Subject: [PATCH 106/161] fix: determine timestamps with the precision of the
 continuous time

---
 dtformats/unified_logging.py | 58 ++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index ae1972a..3992dc3 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2704,13 +2704,13 @@ class TraceV3File(data_format.BinaryDataFile):
         self._catalog_strings_map = {}
         self._chunk_index = 0
         self._error_on_warning = error_on_warning
-        self._header_timebase = 1.0
+        self._header_timebase = (1, 1)
         self._header_timestamp = 0
         self._sorted_timesync_sync_records = []
         self._timesync_boot_record = None
         self._timesync_path = None
         self._timesync_sync_records = []
-        self._timesync_timebase = 1.0
+        self._timesync_timebase = (1, 1)
         self._uuidtext_path = None
 
     def _BuildCatalogProcessInformationEntries(self, catalog):
@@ -3376,6 +3376,22 @@ class TraceV3File(data_format.BinaryDataFile):
 
         return image_values
 
+    def _GetNanoseconds(self, continuous_time, timebase):
+        """Determines the number of nanoseconds of a continuous time.
+
+        Note that the calculation uses integers since a floating-point timebase is
+        not sufficiently precise for large continuous times.
+
+        Args:
+          continuous_time (int): continuous time.
+          timebase (tuple[int, int]): timebase numerator and denominator.
+
+        Returns:
+          int: number of nanoseconds.
+        """
+        numerator, denominator = timebase
+        return (continuous_time * numerator) // denominator
+
     def _GetProcessImageValues(self, process_information_entry):
         """Retrieves the process image value.
 
@@ -3437,6 +3453,23 @@ class TraceV3File(data_format.BinaryDataFile):
 
         return category, sub_system
 
+    def _GetTimebase(self, record):
+        """Retrieves the timebase.
+
+        Args:
+          record (object): header chunk or timesync boot record.
+
+        Returns:
+          tuple[int, int]: timebase numerator and denominator.
+
+        Raises:
+          ParseError: if the timebase is not supported.
+        """
+        if not record.timebase_denominator:
+            raise errors.ParseError("Unsupported timebase denominator: 0.")
+
+        return record.timebase_numerator, record.timebase_denominator
+
     def _GetTimestamp(self, continuous_time, description="Continuous time"):
         """Determine the timestamp from a continuous time.
 
@@ -3451,16 +3484,16 @@ class TraceV3File(data_format.BinaryDataFile):
         timesync_record = self._GetTimesyncRecord(continuous_time)
         if timesync_record:
             continuous_time -= timesync_record.kernel_time
-            timestamp = timesync_record.timestamp + int(
-                continuous_time * self._timesync_timebase
+            timestamp = timesync_record.timestamp + self._GetNanoseconds(
+                continuous_time, self._timesync_timebase
             )
         elif self._timesync_boot_record:
-            timestamp = self._timesync_boot_record.timestamp + int(
-                continuous_time * self._timesync_timebase
+            timestamp = self._timesync_boot_record.timestamp + self._GetNanoseconds(
+                continuous_time, self._timesync_timebase
             )
         else:
-            timestamp = self._header_timestamp + int(
-                continuous_time * self._header_timebase
+            timestamp = self._header_timestamp + self._GetNanoseconds(
+                continuous_time, self._header_timebase
             )
 
         if self._debug:
@@ -5018,10 +5051,7 @@ class TraceV3File(data_format.BinaryDataFile):
                     self._timesync_boot_record = record
 
         if self._timesync_boot_record:
-            self._timesync_timebase = (
-                self._timesync_boot_record.timebase_numerator
-                / self._timesync_boot_record.timebase_denominator
-            )
+            self._timesync_timebase = self._GetTimebase(self._timesync_boot_record)
             # Sort the timesync records starting with the largest kernel time.
             self._sorted_timesync_sync_records = sorted(
                 self._timesync_sync_records,
@@ -5127,9 +5157,7 @@ class TraceV3File(data_format.BinaryDataFile):
         file_object.seek(file_offset, os.SEEK_SET)
 
         self._header_timestamp = header_chunk.timestamp * self._NANOSECONDS_PER_SECOND
-        self._header_timebase = (
-            header_chunk.timebase_numerator / header_chunk.timebase_denominator
-        )
+        self._header_timebase = self._GetTimebase(header_chunk)
         self._ReadTimesyncRecords(self._boot_identifier)
 
         if self._debug:
-- 
2.43.0


From 3d5adfdeb778bbee65a4c1edddd3534bc334cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:29 +0000
Subject: [PATCH 107/161] fix: forget the catalog and strings of a previously
 opened tracev3 file

---
 dtformats/unified_logging.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 3992dc3..83d2a36 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5020,6 +5020,7 @@ class TraceV3File(data_format.BinaryDataFile):
         Args:
           boot_identifier (str): boot identifier (UUID).
         """
+        self._sorted_timesync_sync_records = []
         self._timesync_boot_record = None
         self._timesync_sync_records = []
 
@@ -5073,6 +5074,10 @@ class TraceV3File(data_format.BinaryDataFile):
             if uuidtext_file:
                 uuidtext_file.Close()
 
+        self._cached_dsc_files.clear()
+        self._cached_image_values.clear()
+        self._cached_uuidtext_files.clear()
+
         super().Close()
 
     def ReadFileObject(self, file_object):
@@ -5084,6 +5089,12 @@ class TraceV3File(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
+        self._catalog = None
+        self._catalog_process_information_entries = {}
+        self._catalog_strings_map = {}
+        self._timesync_path = None
+        self._uuidtext_path = None
+
         # The uuidtext files can be stored in multiple locations relative from
         # the tracev3 file.
         # * in ../ for *.logarchive/logdata.LiveData.tracev3
-- 
2.43.0


From 9770331c9e012de81241d05c95eff29ad6443d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 108/161] fix: open a tracev3 file with less than two parent
 directories

---
 dtformats/unified_logging.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 83d2a36..16e6a3f 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5105,16 +5105,15 @@ class TraceV3File(data_format.BinaryDataFile):
         # Remove the filename from the path.
         path_segments.pop(-1)
 
-        lower_last_path_segment = path_segments[-1].lower()
-        if not lower_last_path_segment.endswith(".logarchive"):
-            path_segments.pop(-1)
-            if path_segments:
-                lower_last_path_segment = path_segments[-1].lower()
+        lower_last_path_segment = ""
+        if path_segments:
+            lower_last_path_segment = path_segments[-1].lower()
 
-        if not lower_last_path_segment.endswith(".logarchive"):
-            path_segments.pop(-1)
-            if path_segments:
-                lower_last_path_segment = path_segments[-1].lower()
+        for _ in range(2):
+            if path_segments and not lower_last_path_segment.endswith(".logarchive"):
+                path_segments.pop(-1)
+                if path_segments:
+                    lower_last_path_segment = path_segments[-1].lower()
 
         if lower_last_path_segment.endswith(".logarchive"):
             path_segments.append("dsc")
-- 
2.43.0


From ec2b961a3ed67b962c83a44bdaed2d6c109724c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:31 +0000
Subject: [PATCH 109/161] fix: find the timesync files of a log archive without
 dsc directory

---
 dtformats/unified_logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 16e6a3f..51e47b5 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5118,8 +5118,9 @@ class TraceV3File(data_format.BinaryDataFile):
         if lower_last_path_segment.endswith(".logarchive"):
             path_segments.append("dsc")
             dsc_path = self._file_system_helper.JoinPath(path_segments)
+            path_segments.pop(-1)
+
             if self._file_system_helper.CheckFileExistsByPath(dsc_path):
-                path_segments.pop(-1)
                 self._uuidtext_path = self._file_system_helper.JoinPath(path_segments)
 
         else:
-- 
2.43.0


From 13443c8b7d85bbb49bfa54c1e7212da7ae995afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:32 +0000
Subject: [PATCH 110/161] fix: read the log entries of a tracev3 file more than
 once

---
 dtformats/unified_logging.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 51e47b5..f3e7dfc 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2703,6 +2703,7 @@ class TraceV3File(data_format.BinaryDataFile):
         self._catalog_process_information_entries = {}
         self._catalog_strings_map = {}
         self._chunk_index = 0
+        self._chunks_offset = 0
         self._error_on_warning = error_on_warning
         self._header_timebase = (1, 1)
         self._header_timestamp = 0
@@ -5165,7 +5166,7 @@ class TraceV3File(data_format.BinaryDataFile):
 
         file_offset += alignment
 
-        file_object.seek(file_offset, os.SEEK_SET)
+        self._chunks_offset = file_offset
 
         self._header_timestamp = header_chunk.timestamp * self._NANOSECONDS_PER_SECOND
         self._header_timebase = self._GetTimebase(header_chunk)
@@ -5222,7 +5223,7 @@ class TraceV3File(data_format.BinaryDataFile):
 
             yield log_entry
 
-        file_offset = self._file_object.tell()
+        file_offset = self._chunks_offset
 
         oversize_chunks = {}
 
-- 
2.43.0


From ddd8eb43cae0781c6d590f3cffb7aa4db2b0e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:33 +0000
Subject: [PATCH 111/161] fix: raise ParseError for a StateDump decoder that
 cannot be decoded

---
 dtformats/unified_logging.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index f3e7dfc..7c7a79c 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4970,12 +4970,16 @@ class TraceV3File(data_format.BinaryDataFile):
         event_message = ""
         if statedump_chunk.state_data_type == 0x03:
             library_data = statedump_chunk.library.split(b"\x00", maxsplit=1)[0]
-            library = library_data.decode("utf8")
-
             decoder_type_data = statedump_chunk.decoder_type.split(b"\x00", maxsplit=1)[
                 0
             ]
-            decoder_type = decoder_type_data.decode("utf8")
+            try:
+                library = library_data.decode("utf8")
+                decoder_type = decoder_type_data.decode("utf8")
+            except UnicodeDecodeError as exception:
+                raise errors.ParseError(
+                    f"Unable to decode StateDump decoder with error: {exception!s}"
+                )
 
             decoder_name = f"{library:s}:{decoder_type:s}"
             decoder_class = self._FORMAT_STRING_DECODERS.get(decoder_name)
-- 
2.43.0


From c3750bc74137e584b800f73080c8e6128f88bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:41 +0000
Subject: [PATCH 112/161] fix: read the 16-bit oversize data reference of a
 firehose tracepoint

---
 dtformats/aul_tracev3.yaml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/aul_tracev3.yaml b/dtformats/aul_tracev3.yaml
index 2aaa8b6..e970279 100644
--- a/dtformats/aul_tracev3.yaml
+++ b/dtformats/aul_tracev3.yaml
@@ -584,7 +584,7 @@ members:
   data_type: uint8
   condition: tracev3_firehose_tracepoint_flags & 0x0400 != 0
 - name: data_reference
-  data_type: uint8
+  data_type: uint16
   condition: tracev3_firehose_tracepoint_flags & 0x0800 != 0
 - name: unknown1
   data_type: uint8
@@ -630,7 +630,7 @@ members:
   data_type: uint8
   condition: tracev3_firehose_tracepoint_flags & 0x0400 != 0
 - name: data_reference
-  data_type: uint8
+  data_type: uint16
   condition: tracev3_firehose_tracepoint_flags & 0x0800 != 0
 - name: name_string_reference_lower
   data_type: uint32
-- 
2.43.0


From 5e4471ff802f06289a272804541443fd0505acda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:40 +0000
Subject: [PATCH 113/161] fix: raise ParseError for a structure of an empty
 byte stream

---
 dtformats/data_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index c26a5ff..cd271db 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -651,7 +651,7 @@ class BinaryDataFormat:
           ParseError: if the structure cannot be read.
           ValueError: if file-like object or data type map is missing.
         """
-        if not byte_stream:
+        if byte_stream is None:
             raise ValueError("Missing byte stream.")
 
         if not data_type_map:
-- 
2.43.0


From 7514b676552eab2bf9fb3a7fee8bf947e96d495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:28 +0000
Subject: [PATCH 114/161] fix: find the string and timesync files of a tracev3
 file with a relative path

---
 dtformats/unified_logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 7c7a79c..3816392 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -5105,7 +5105,8 @@ class TraceV3File(data_format.BinaryDataFile):
         # * in ../ for *.logarchive/logdata.LiveData.tracev3
         # * in ../../ for .logarchive/*/*.tracev3
         # * in ../../uuidtext/ for /private/var/db/diagnostics/*/*.tracev3
-        path_segments = self._file_system_helper.SplitPath(self._path)
+        path = os.path.abspath(self._path)
+        path_segments = self._file_system_helper.SplitPath(path)
 
         # Remove the filename from the path.
         path_segments.pop(-1)
-- 
2.43.0


From 2ae7e0986bf77eea2adb0472c79c503c606a3763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 115/161] fix: find the files of a Chrome Cache directory with
 a relative path

---
 dtformats/chrome_cache.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index a5f8861..2a2ae87 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -2,6 +2,7 @@
 
 import datetime
 import logging
+import os
 
 from dtfabric import errors as dtfabric_errors
 
@@ -689,7 +690,9 @@ class ChromeCacheParser:
         Raises:
           ParseError: if the directory cannot be read.
         """
-        index_file_path = self._file_system_helper.JoinPath([path, "index"])
+        path_segments = self._file_system_helper.SplitPath(os.path.abspath(path))
+
+        index_file_path = self._file_system_helper.JoinPath(path_segments + ["index"])
         if not self._file_system_helper.CheckFileExistsByPath(index_file_path):
             raise errors.ParseError(f"Missing index file: {index_file_path:s}")
 
@@ -701,7 +704,7 @@ class ChromeCacheParser:
         for cache_address in index_file.index_table.values():
             if cache_address.filename not in data_block_files:
                 data_block_file_path = self._file_system_helper.JoinPath(
-                    [path, cache_address.filename]
+                    path_segments + [cache_address.filename]
                 )
                 if not self._file_system_helper.CheckFileExistsByPath(
                     data_block_file_path
-- 
2.43.0


From b4149e3244d7d0bdbf109c58803aff8b915bb19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:18 +0000
Subject: [PATCH 116/161] fix: open a CIM repository, which always failed on
 the file name pattern

---
 dtformats/wmi_repository.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 576b057..0b3a24b 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3492,7 +3492,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         # Unsure how reliable this method is since multiple index[1-3].map files
         # can have the same sequence number but contain different mappings.
         for mapping_file_number in range(1, 4):
-            filename_as_glob, _ = self._FormatFilenameAsGlob(
+            filename_as_glob = self._FormatFilenameAsGlob(
                 f"mapping{mapping_file_number:d}.map"
             )
             path_with_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
@@ -3851,7 +3851,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           IndexBinaryTreeFile: index binary tree file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("index.btr")
+        filename_as_glob = self._FormatFilenameAsGlob("index.btr")
         index_binary_tree_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
@@ -3880,7 +3880,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           MappingFile: mapping file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob(filename)
+        filename_as_glob = self._FormatFilenameAsGlob(filename)
         mapping_file_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
 
         mapping_file_path = glob.glob(mapping_file_glob)
@@ -3904,7 +3904,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           file: file-like object or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("mapping.ver")
+        filename_as_glob = self._FormatFilenameAsGlob("mapping.ver")
         mapping_version_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
@@ -3925,7 +3925,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           ObjectsDataFile: objects data file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("objects.data")
+        filename_as_glob = self._FormatFilenameAsGlob("objects.data")
         objects_data_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
@@ -3953,7 +3953,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           RepositoryFile: repository file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("cim.rep")
+        filename_as_glob = self._FormatFilenameAsGlob("cim.rep")
         repository_file_glob = self._file_system_helper.JoinPath(
             [path, filename_as_glob]
         )
-- 
2.43.0


From c010b56aff7acf54b63f295deba79bc39799d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 117/161] fix: debug output of WMI repository page numbers and
 offsets

---
 dtformats/wmi_repository.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 0b3a24b..181ab5a 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -344,13 +344,13 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             self._DebugPrintDecimalValue(f"Unknown2: {index:d}", value)
 
         for index, page_number in enumerate(page_body.sub_pages):
-            value_string, _ = self._FormatIntegerAsPageNumber(page_number)
+            value_string = self._FormatIntegerAsPageNumber(page_number)
             self._DebugPrintValue(
                 f"Sub page: {index:d} mapped page number", value_string
             )
 
         for index, key_offset in enumerate(page_body.key_offsets):
-            value_string, _ = self._FormatIntegerAsOffset(key_offset)
+            value_string = self._FormatIntegerAsOffset(key_offset)
             self._DebugPrintValue(f"Key: {index:d} offset", value_string)
 
         number_of_bytes = page_body.key_data_size * 2
@@ -362,7 +362,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
         self._DebugPrintDecimalValue("Number of values", page_body.number_of_values)
 
         for index, offset in enumerate(page_body.value_offsets):
-            value_string, _ = self._FormatIntegerAsOffset(offset)
+            value_string = self._FormatIntegerAsOffset(offset)
             self._DebugPrintValue(f"Value: {index:d} offset", value_string)
 
         number_of_bytes = page_body.value_data_size * 2
@@ -532,7 +532,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             page_key_offset = key_offset * 2
 
             if self._debug:
-                value_string, _ = self._FormatIntegerAsOffset(page_key_offset)
+                value_string = self._FormatIntegerAsOffset(page_key_offset)
                 self._DebugPrintValue(
                     f"Page key: {page_key_index:d} offset", value_string
                 )
@@ -697,7 +697,7 @@ class MappingFile(data_format.BinaryDataFile):
             "  Number of entries", unknown_table.number_of_entries
         )
         for index, page_number in enumerate(unknown_table.entries):
-            value_string, _ = self._FormatIntegerAsPageNumber(page_number)
+            value_string = self._FormatIntegerAsPageNumber(page_number)
             self._DebugPrintValue(f"  Entry: {index:d} page number", value_string)
 
         self._DebugPrintText("\n")
@@ -1697,10 +1697,10 @@ class RepositoryFile(data_format.BinaryDataFile):
             file_object, file_offset, data_type_map, "node cell"
         )
         if self._debug:
-            value_string, _ = self._FormatIntegerAsOffset(file_offset)
+            value_string = self._FormatIntegerAsOffset(file_offset)
             self._DebugPrintValue("Node cell offset", value_string)
 
-            value_string, _ = self._FormatIntegerAsOffset(file_offset + 4)
+            value_string = self._FormatIntegerAsOffset(file_offset + 4)
             self._DebugPrintValue("Data offset", value_string)
 
             if cell_number is not None:
@@ -2307,7 +2307,7 @@ class ClassDefinition(CIMObject):
         """
         lines = []
         for index, property_descriptor in enumerate(array_of_property_descriptors):
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 property_descriptor.name_offset
             )
             line, _ = self._FormatValue(
@@ -2315,7 +2315,7 @@ class ClassDefinition(CIMObject):
             )
             lines.append(line)
 
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 property_descriptor.definition_offset
             )
             line, _ = self._FormatValue(
@@ -2679,7 +2679,7 @@ class ClassDefinition(CIMObject):
             )
             self._DebugPrintValue("        Index", value_string)
 
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 class_definition_property.value_data_offset
             )
             self._DebugPrintValue("        Value data offset", value_string)
@@ -3116,7 +3116,7 @@ class Instance(CIMObject):
             "unknown offset",
         )
         if self._debug:
-            value_string, _ = self._FormatIntegerAsOffset(unknown_offset)
+            value_string = self._FormatIntegerAsOffset(unknown_offset)
             self._DebugPrintValue("Unknown offset", value_string)
 
         data_offset += 4
-- 
2.43.0


From da60aeb9a26f4cf534a2e6b0dced58cf069ff472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:46 +0000
Subject: [PATCH 118/161] fix: debug output of WMI class definition property
 descriptors

---
 dtformats/wmi_repository.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 181ab5a..2f7b124 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2310,7 +2310,7 @@ class ClassDefinition(CIMObject):
             value_string = self._FormatIntegerAsOffset(
                 property_descriptor.name_offset
             )
-            line, _ = self._FormatValue(
+            line = self._FormatValue(
                 f"    Property descriptor: {index:d} name offset", value_string
             )
             lines.append(line)
@@ -2318,7 +2318,7 @@ class ClassDefinition(CIMObject):
             value_string = self._FormatIntegerAsOffset(
                 property_descriptor.definition_offset
             )
-            line, _ = self._FormatValue(
+            line = self._FormatValue(
                 f"    Property descriptor: {index:d} definition offset", value_string
             )
             lines.append(line)
-- 
2.43.0


From 25b204abf7e615262aded86934ab58b01b0d9c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:48 +0000
Subject: [PATCH 119/161] fix: no longer use the index mapping table of a WMI
 mapping file read before

---
 dtformats/wmi_repository.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 2f7b124..68946c7 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -874,6 +874,7 @@ class MappingFile(data_format.BinaryDataFile):
         )
         self.sequence_number = file_header.sequence_number
 
+        self._mapping_table2 = None
         self._mapping_table1 = self._ReadMappingTable(file_object)
 
         self._ReadUnknownTable(file_object)
-- 
2.43.0


From 4c5cfb9a8f2a1591409cd4465107c56d708e6f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:49 +0000
Subject: [PATCH 120/161] fix: ParseError for an unterminated value in a WMI
 index page

---
 dtformats/wmi_repository.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 68946c7..833f6cb 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -589,7 +589,10 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
                 value_string = self._STRING.MapByteStream(
                     value_data[page_value_offset:]
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to parse page value: {index:d} string with error: "
                     f"{exception!s}"
-- 
2.43.0


From 7c4a7da9e9917abfa4c0e02bf1d11dbe25845924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 121/161] fix: ParseError for a key segment without a value in
 a WMI index page

---
 dtformats/wmi_repository.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 833f6cb..1a11781 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -473,6 +473,12 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             for page_key_segments in index_binary_tree_page.page_key_segments:
                 key_segments = []
                 for segment_index in page_key_segments:
+                    if segment_index >= len(index_binary_tree_page.page_values):
+                        raise errors.ParseError(
+                            f"Unsupported page key segment: {segment_index:d} value "
+                            f"out of bounds"
+                        )
+
                     page_value = index_binary_tree_page.page_values[segment_index]
                     key_segments.append(page_value)
 
-- 
2.43.0


From 7f0de1aa1291cb157953c72fa7a0f119c5a642eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 122/161] fix: ParseError for a page number that is not in the
 WMI mapping table

---
 dtformats/wmi_repository.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 1a11781..d5043c0 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -189,7 +189,16 @@ class MappingTable:
 
         Returns:
           int: (physical) page number.
+
+        Raises:
+          ParseError: if the mapped page number is not in the mapping table.
         """
+        if not 0 <= mapped_page_number < len(self._mapping_table.entries):
+            raise errors.ParseError(
+                f"Unsupported mapped page number: {mapped_page_number:d} value out "
+                f"of bounds"
+            )
+
         mapping_table_entry = self._mapping_table.entries[mapped_page_number]
         return mapping_table_entry.page_number
 
-- 
2.43.0


From 3b91e9ca157404f5937308609e0a28df5571528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:53 +0000
Subject: [PATCH 123/161] fix: ParseError for WMI object record data outside of
 its page

---
 dtformats/wmi_repository.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index d5043c0..27c1bdc 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1081,6 +1081,11 @@ class ObjectsDataFile(data_format.BinaryDataFile):
             )
 
         available_page_size = self._PAGE_SIZE - data_offset
+        if available_page_size < 0:
+            raise errors.ParseError(
+                f"Unsupported object record data offset: {data_offset:d} value out "
+                f"of bounds"
+            )
 
         if data_size > available_page_size:
             read_size = available_page_size
-- 
2.43.0


From e403a847ebde743b3653013bd96be63971cff418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 124/161] fix: value of a WMI class qualifier of type UINT32

---
 dtformats/wmi_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 27c1bdc..e9754de 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2639,7 +2639,7 @@ class ClassDefinition(CIMObject):
                 "CIM-TYPE-SINT8",
                 "CIM-TYPE-UINT8",
                 "CIM-TYPE-UINT16",
-                "CIM-TYPE-UINT16",
+                "CIM-TYPE-UINT32",
                 "CIM-TYPE-SINT64",
                 "CIM-TYPE-UINT64",
             ):
-- 
2.43.0


From 3d1c1227495bea6bb15c44b2a4198d0589094dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:14 +0000
Subject: [PATCH 125/161] fix: property values of a WMI instance of type SINT8,
 SINT16, SINT64, REAL32 and REAL64

---
 dtformats/wmi_repository.py   | 36 ++++++++++++++++-----------------
 dtformats/wmi_repository.yaml | 38 +++++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 19 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index e9754de..bf69dd1 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2990,21 +2990,19 @@ class Instance(CIMObject):
         ("data", "Data", "_FormatDataInHexadecimal"),
     ]
 
-    _FIXED_SIZE_VALUE_DATA_TYPES = frozenset(
-        [
-            0x00000002,
-            0x00000003,
-            0x00000004,
-            0x00000005,
-            0x0000000B,
-            0x00000010,
-            0x00000011,
-            0x00000012,
-            0x00000013,
-            0x00000014,
-            0x00000015,
-        ]
-    )
+    _FIXED_SIZE_VALUE_DATA_TYPE_MAPS = {
+        0x00000002: "property_value_sint16",
+        0x00000003: "property_value_sint32",
+        0x00000004: "property_value_real32",
+        0x00000005: "property_value_real64",
+        0x0000000B: "property_value_boolean",
+        0x00000010: "property_value_sint8",
+        0x00000011: "property_value_uint8",
+        0x00000012: "property_value_uint16",
+        0x00000013: "property_value_uint32",
+        0x00000014: "property_value_sint64",
+        0x00000015: "property_value_uint64",
+    }
 
     _STRING_VALUE_DATA_TYPES = frozenset([0x00000008, 0x00000065, 0x00000066])
 
@@ -3164,10 +3162,10 @@ class Instance(CIMObject):
                 f"value: {property_value_data_map.type_qualifier:s}"
             )
             property_value = None
-            if property_value_data_map.data_type in self._FIXED_SIZE_VALUE_DATA_TYPES:
-                data_type_map_name = (
-                    f"property_value_{property_value_data_map.type_qualifier:s}"
-                )
+            data_type_map_name = self._FIXED_SIZE_VALUE_DATA_TYPE_MAPS.get(
+                property_value_data_map.data_type
+            )
+            if data_type_map_name:
                 data_type_map = self._GetDataTypeMap(data_type_map_name)
 
                 property_value = self._ReadStructureFromByteStream(
diff --git a/dtformats/wmi_repository.yaml b/dtformats/wmi_repository.yaml
index 97cc340..bd7de2e 100644
--- a/dtformats/wmi_repository.yaml
+++ b/dtformats/wmi_repository.yaml
@@ -474,6 +474,14 @@ attributes:
   false_value: 0
   true_value: 0xffff
 ---
+name: property_value_sint8
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 1
+  units: bytes
+---
 name: property_value_uint8
 type: integer
 attributes:
@@ -482,6 +490,14 @@ attributes:
   size: 1
   units: bytes
 ---
+name: property_value_sint16
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 2
+  units: bytes
+---
 name: property_value_uint16
 type: integer
 attributes:
@@ -506,6 +522,14 @@ attributes:
   size: 4
   units: bytes
 ---
+name: property_value_sint64
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 8
+  units: bytes
+---
 name: property_value_uint64
 type: integer
 attributes:
@@ -514,6 +538,20 @@ attributes:
   size: 8
   units: bytes
 ---
+name: property_value_real32
+type: floating-point
+attributes:
+  byte_order: little-endian
+  size: 4
+  units: bytes
+---
+name: property_value_real64
+type: floating-point
+attributes:
+  byte_order: little-endian
+  size: 8
+  units: bytes
+---
 name: property_value_offset
 type: integer
 attributes:
-- 
2.43.0


From c74bab7ced1bc72d23fe3d1d1a088071ec947edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 126/161] fix: ParseError for a WMI type qualifier that is not
 a string

---
 dtformats/wmi_repository.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index bf69dd1..f9e4bbf 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -111,6 +111,13 @@ class ClassValueDataMap:
                         f"{class_definition.name:s}"
                     )
 
+                if not isinstance(type_qualifier, str):
+                    raise errors.ParseError(
+                        f"Unsupported type qualifier for property: "
+                        f"{property_definition.name:s} of class: "
+                        f"{class_definition.name:s}"
+                    )
+
                 value_data_size = self._PROPERTY_TYPE_VALUE_DATA_SIZE.get(
                     property_definition.value_data_type, 4
                 )
-- 
2.43.0


From 319fd243b657f69c775043405ab2fc60f3b26b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 127/161] fix: WMI classes with a missing or recursive super
 class

---
 dtformats/wmi_repository.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index f9e4bbf..ff319cc 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3614,17 +3614,21 @@ class CIMRepository(data_format.BinaryDataFormat):
 
             class_definitions = [class_definition]
             while class_definition.super_class_name:
-                class_definition = self._GetClassDefinitionByName(
-                    class_definition.super_class_name
-                )
+                super_class_name = class_definition.super_class_name
+                class_definition = self._GetClassDefinitionByName(super_class_name)
                 if not class_definition:
                     raise RuntimeError(
                         (
                             f"Unable to retrieve definition of class with name: "
-                            f"{class_definition.super_class_name:s}"
+                            f"{super_class_name:s}"
                         )
                     )
 
+                if class_definition in class_definitions:
+                    raise errors.ParseError(
+                        f"Class: {super_class_name:s} is its own super class."
+                    )
+
                 class_definitions.append(class_definition)
 
             # The ClassValueDataMap.Build functions want the class definitions
-- 
2.43.0


From 2778d7bfaa3036bca77fe6f9c9d3e1b67c5b4441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:22 +0000
Subject: [PATCH 128/161] fix: WMI repository with recursive index pages or
 without an index file

---
 dtformats/wmi_repository.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index ff319cc..d0cb739 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3715,12 +3715,16 @@ class CIMRepository(data_format.BinaryDataFormat):
           IndexBinaryTreePage: an index binary-tree page or None.
         """
         if not self._index_root_page:
-            if self.format_version == "2.1":
+            if self.format_version == "2.1" and self._index_binary_tree_file:
                 first_mapped_page = self._GetIndexFirstMappedPage()
                 root_page_number = first_mapped_page.root_page_number
             else:
                 root_page_number = 1
 
+            if not self._index_binary_tree_file:
+                logging.warning("Missing index binary-tree file.")
+                return None
+
             page_number = self._index_mapping_table.ResolveMappedPageNumber(
                 root_page_number
             )
@@ -3735,20 +3739,40 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         return self._index_root_page
 
-    def _GetKeysFromIndexPage(self, index_page):
+    def _GetKeysFromIndexPage(self, index_page, read_page_numbers=None):
         """Retrieves the keys from an index page.
 
+        Args:
+          index_page (IndexBinaryTreePage): index binary-tree page or None.
+          read_page_numbers (Optional[set[int]]): mapped page numbers of the sub
+              pages that were read.
+
         Yields:
           str: a CIM key.
+
+        Raises:
+          ParseError: if the index pages are recursive.
         """
+        if read_page_numbers is None:
+            read_page_numbers = set()
+
         if index_page:
             yield from index_page.keys
 
             for mapped_page_number in index_page.sub_pages:
+                if mapped_page_number in read_page_numbers:
+                    raise errors.ParseError(
+                        f"Recursive index binary-tree page: {mapped_page_number:d}."
+                    )
+
+                read_page_numbers.add(mapped_page_number)
+
                 sub_index_page = self._GetIndexPageByMappedPageNumber(
                     mapped_page_number
                 )
-                yield from self._GetKeysFromIndexPage(sub_index_page)
+                yield from self._GetKeysFromIndexPage(
+                    sub_index_page, read_page_numbers=read_page_numbers
+                )
 
     def _GetObjectsPageByMappedPageNumber(self, mapped_page_number, is_data_page):
         """Retrieves a specific objects page by mapped page number.
-- 
2.43.0


From c05bec793e308572536f76c65700b45670229fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 129/161] fix: index keys of WMI object records that do not
 exist

---
 dtformats/wmi_repository.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index d0cb739..e5437ff 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3832,6 +3832,11 @@ class CIMRepository(data_format.BinaryDataFormat):
                 object_descriptor = object_page.GetObjectDescriptor(
                     record_identifier, data_size
                 )
+                if not object_descriptor:
+                    raise errors.ParseError(
+                        f"Unable to read objects record: {record_identifier:d} "
+                        f"descriptor."
+                    )
 
                 data_offset = object_descriptor.data_offset
                 is_data_page = True
@@ -4313,6 +4318,9 @@ class CIMRepository(data_format.BinaryDataFormat):
         data_type, _, mapped_page_number, record_identifier, data_size = (
             self._GetObjectRecordValuesFromKey(key_segments[-1])
         )
+        if not data_type:
+            return None
+
         return self._GetObjectRecord(
             data_type, mapped_page_number, record_identifier, data_size
         )
-- 
2.43.0


From b37c4dbdf6ea4df688cf09ac86df215dfc497bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 130/161] fix: ParseError for a WMI object record that is
 truncated

---
 dtformats/wmi_repository.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index e5437ff..fe44a99 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1099,7 +1099,14 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         else:
             read_size = data_size
 
-        return self._file_object.read(read_size)
+        data_segment = self._file_object.read(read_size)
+        if len(data_segment) != read_size:
+            raise errors.ParseError(
+                f"Unable to read object record data segment at offset: "
+                f"{file_offset:d} (0x{file_offset:08x})."
+            )
+
+        return data_segment
 
 
 class RepositoryFile(data_format.BinaryDataFile):
-- 
2.43.0


From 5b4271d28f37e908e5ad606606c6d9a598744ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:54 +0000
Subject: [PATCH 131/161] fix: namespaces of a WMI repository that are nested
 deeper than 5 levels

---
 dtformats/wmi_repository.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index fe44a99..69bb498 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4179,18 +4179,19 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         object_record_values = set()
         instances_per_namespace = {}
-        parent_namespaces = set()
+        parent_namespaces = []
 
         index_page = self._GetIndexRootPage()
         for key in self._GetKeysFromIndexPage(index_page):
             key_segments = key.split(self._KEY_SEGMENT_SEPARATOR)
 
             key_segment = key_segments[1]
-            if not key_segment.startswith("NS_"):
+            if len(key_segments) < 3 or not key_segment.startswith("NS_"):
                 continue
 
             namespace_hash = key_segment[3:].lower()
-            parent_namespaces.add(namespace_hash)
+            if namespace_hash not in parent_namespaces:
+                parent_namespaces.append(namespace_hash)
 
             _, _, key_segment = key_segments[2].partition("_")
             if key_segment.lower() != class_name_hash:
@@ -4222,12 +4223,12 @@ class CIMRepository(data_format.BinaryDataFormat):
             namespace_hash = self._GetHashFromString(namespace)
             namespaces_by_hash[namespace_hash] = namespace
 
-        for _ in range(5):
-            unresolved_namespaces = set()
+        while parent_namespaces:
+            unresolved_namespaces = []
             for parent_namespace_hash in parent_namespaces:
                 parent_namespace = namespaces_by_hash.get(parent_namespace_hash)
                 if not parent_namespace:
-                    unresolved_namespaces.add(parent_namespace_hash)
+                    unresolved_namespaces.append(parent_namespace_hash)
                     continue
 
                 instances = instances_per_namespace.get(parent_namespace_hash)
@@ -4236,6 +4237,9 @@ class CIMRepository(data_format.BinaryDataFormat):
 
                 for instance in instances:
                     name_property = instance.properties.get("Name")
+                    if not name_property:
+                        logging.warning("Missing name of namespace.")
+                        continue
 
                     namespace = "\\".join([parent_namespace, name_property])
 
@@ -4245,6 +4249,9 @@ class CIMRepository(data_format.BinaryDataFormat):
                     instance.namespace = namespace
                     self._namespace_instances.append(instance)
 
+            if len(unresolved_namespaces) == len(parent_namespaces):
+                break
+
             parent_namespaces = unresolved_namespaces
 
     def Close(self):
-- 
2.43.0


From 485206b2447bf0194ecbda4911814d520ef92e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:55 +0000
Subject: [PATCH 132/161] fix: close the repository (cim.rep) file of a CIM
 repository

---
 dtformats/wmi_repository.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 69bb498..763e0c4 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -4272,6 +4272,12 @@ class CIMRepository(data_format.BinaryDataFormat):
             self._index_binary_tree_file.Close()
             self._index_binary_tree_file = None
 
+        if self._repository_file:
+            self._repository_file.Close()
+            self._repository_file = None
+
+        self.format_version = None
+
     def GetInstances(self):
         """Retrieves instances.
 
-- 
2.43.0


From 2f4b49cb6b3f71508ee918b28363c9466aa767aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 133/161] fix: mapping files of a CIM repository that are
 missing or were not closed

---
 dtformats/wmi_repository.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 763e0c4..48c0913 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3552,6 +3552,8 @@ class CIMRepository(data_format.BinaryDataFormat):
                 active_mapping_file.Close()
                 active_mapping_file = mapping_file
                 active_mapping_file_number = mapping_file_number
+            else:
+                mapping_file.Close()
 
         if (
             mapping_ver_file_number is not None
@@ -3559,7 +3561,7 @@ class CIMRepository(data_format.BinaryDataFormat):
         ):
             logging.warning("Mismatch in active mapping file number.")
 
-        if self._debug:
+        if self._debug and active_mapping_file:
             self._DebugPrintText(
                 f"Active mapping file: mapping{active_mapping_file_number:d}.map\n"
             )
@@ -4361,7 +4363,9 @@ class CIMRepository(data_format.BinaryDataFormat):
             "objects.map",
         ):
             path = os.path.dirname(path)
-            self._OpenMappingFile(path, basename)
+            mapping_file = self._OpenMappingFile(path, basename)
+            if mapping_file:
+                mapping_file.Close()
 
             return
 
@@ -4380,6 +4384,9 @@ class CIMRepository(data_format.BinaryDataFormat):
                 active_mapping_file = self._GetActiveMappingFile(path)
                 index_mapping_file = active_mapping_file
 
+            if not index_mapping_file:
+                raise errors.ParseError("Missing index mapping file.")
+
             self._index_mapping_table = index_mapping_file.GetIndexMappingTable()
 
             if index_mapping_file.format_version == 1:
@@ -4401,10 +4408,16 @@ class CIMRepository(data_format.BinaryDataFormat):
                     active_mapping_file = self._GetActiveMappingFile(path)
                 objects_mapping_file = active_mapping_file
 
+            if not objects_mapping_file:
+                raise errors.ParseError("Missing objects mapping file.")
+
             self._objects_mapping_table = objects_mapping_file.GetObjectsMappingTable()
 
             objects_mapping_file.Close()
 
+            if active_mapping_file and active_mapping_file != objects_mapping_file:
+                active_mapping_file.Close()
+
             self._objects_data_file = self._OpenObjectsDataFile(path)
 
             self._ReadClassDefinitionsFromObjectRecords()
-- 
2.43.0


From de970366647b1c1b69e07c91231905b2e12229e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 134/161] fix: open a CIM repository in a relative path or a
 path with glob characters

---
 dtformats/wmi_repository.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 48c0913..8f3d6aa 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3531,7 +3531,7 @@ class CIMRepository(data_format.BinaryDataFormat):
             filename_as_glob = self._FormatFilenameAsGlob(
                 f"mapping{mapping_file_number:d}.map"
             )
-            path_with_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
+            path_with_glob = self._JoinPathAndGlob(path, filename_as_glob)
             mapping_file_glob = glob.glob(path_with_glob)
             if not mapping_file_glob:
                 continue
@@ -3913,6 +3913,18 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         return data_type, name_hash, page_number, record_identifier, data_size
 
+    def _JoinPathAndGlob(self, path, filename_as_glob):
+        """Joins the path of the CIM repository and a filename glob.
+
+        Args:
+          path (str): path to the CIM repository.
+          filename_as_glob (str): glob of the filename.
+
+        Returns:
+          str: glob of the path of the file.
+        """
+        return os.path.join(glob.escape(path), filename_as_glob)
+
     def _OpenIndexBinaryTreeFile(self, path):
         """Opens an index binary tree.
 
@@ -3923,9 +3935,7 @@ class CIMRepository(data_format.BinaryDataFormat):
           IndexBinaryTreeFile: index binary tree file or None if not available.
         """
         filename_as_glob = self._FormatFilenameAsGlob("index.btr")
-        index_binary_tree_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
-        )
+        index_binary_tree_file_glob = self._JoinPathAndGlob(path, filename_as_glob)
 
         index_binary_tree_file_path = glob.glob(index_binary_tree_file_glob)
         if not index_binary_tree_file_path:
@@ -3952,7 +3962,7 @@ class CIMRepository(data_format.BinaryDataFormat):
           MappingFile: mapping file or None if not available.
         """
         filename_as_glob = self._FormatFilenameAsGlob(filename)
-        mapping_file_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
+        mapping_file_glob = self._JoinPathAndGlob(path, filename_as_glob)
 
         mapping_file_path = glob.glob(mapping_file_glob)
         if not mapping_file_path:
@@ -3976,9 +3986,7 @@ class CIMRepository(data_format.BinaryDataFormat):
           file: file-like object or None if not available.
         """
         filename_as_glob = self._FormatFilenameAsGlob("mapping.ver")
-        mapping_version_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
-        )
+        mapping_version_file_glob = self._JoinPathAndGlob(path, filename_as_glob)
 
         mapping_version_file_path = glob.glob(mapping_version_file_glob)
         if not mapping_version_file_path:
@@ -3997,9 +4005,7 @@ class CIMRepository(data_format.BinaryDataFormat):
           ObjectsDataFile: objects data file or None if not available.
         """
         filename_as_glob = self._FormatFilenameAsGlob("objects.data")
-        objects_data_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
-        )
+        objects_data_file_glob = self._JoinPathAndGlob(path, filename_as_glob)
 
         objects_data_file_path = glob.glob(objects_data_file_glob)
         if not objects_data_file_path:
@@ -4025,9 +4031,7 @@ class CIMRepository(data_format.BinaryDataFormat):
           RepositoryFile: repository file or None if not available.
         """
         filename_as_glob = self._FormatFilenameAsGlob("cim.rep")
-        repository_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
-        )
+        repository_file_glob = self._JoinPathAndGlob(path, filename_as_glob)
         repository_file_path = glob.glob(repository_file_glob)
         if not repository_file_path:
             return None
-- 
2.43.0


From 966561bea2cd49db4b2be308d737108504aa7d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:59 +0000
Subject: [PATCH 135/161] fix: debug output of WMI class definition and
 instance references

---
 dtformats/wmi_repository.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 8f3d6aa..a6716be 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2862,7 +2862,7 @@ class ClassDefinitionReference(CIMObject):
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__()
+        super().__init__(debug=debug, output_writer=output_writer)
         self.data = None
         self.offset = None
         self.super_class_name = None
@@ -2928,7 +2928,7 @@ class InstanceReference(CIMObject):
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__()
+        super().__init__(debug=debug, output_writer=output_writer)
         self._format_version = format_version
         self.class_name = None
         self.class_name_hash = None
-- 
2.43.0


From 3bf318d782c4eb7b3314a8ef8c2401a907c5b281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:39 +0000
Subject: [PATCH 136/161] fix: WMI repository file without a root namespace or
 system class cell

---
 dtformats/wmi_repository.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index a6716be..15cfd0f 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2095,7 +2095,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._system_class_definition_root_node_offset > 40:
+        if self._system_class_definition_root_node_offset:
             yield from self._ReadClassDefinitionHierarchy(
                 self._file_object, self._system_class_definition_root_node_offset
             )
@@ -2106,7 +2106,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._root_namespace_node_offset > 40:
+        if self._root_namespace_node_offset:
             yield from self._ReadInstanceHierarchy(
                 self._file_object, self._root_namespace_node_offset
             )
@@ -2117,7 +2117,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._root_namespace_node_offset > 40:
+        if self._root_namespace_node_offset:
             yield from self._ReadNamespaceInstanceHierarchy(
                 self._file_object, self._root_namespace_node_offset, []
             )
@@ -2161,10 +2161,17 @@ class RepositoryFile(data_format.BinaryDataFile):
 
             if file_header.root_namespace_cell_number == cell_number:
                 self._root_namespace_node_offset = file_offset + 4
-            elif file_header.system_class_cell_number == cell_number:
+
+            if file_header.system_class_cell_number == cell_number:
                 self._system_class_definition_root_node_offset = file_offset + 4
 
-            file_offset += node_cell.size & 0x7FFFFFF
+            node_cell_size = node_cell.size & 0x7FFFFFFF
+            if node_cell_size < 4:
+                raise errors.ParseError(
+                    f"Unsupported node cell size: {node_cell_size:d}."
+                )
+
+            file_offset += node_cell_size
             cell_number += 1
 
             if (
-- 
2.43.0


From 830c8475c42518a52680b710ddc750e27852119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:40 +0000
Subject: [PATCH 137/161] fix: ParseError for a recursive hierarchy in a WMI
 repository file

---
 dtformats/wmi_repository.py | 76 +++++++++++++++++++++++++++++++++++--
 1 file changed, 72 insertions(+), 4 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 15cfd0f..1057d06 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1155,6 +1155,31 @@ class RepositoryFile(data_format.BinaryDataFile):
         self._root_namespace_node_offset = None
         self._system_class_definition_root_node_offset = None
 
+    def _CheckRecursion(self, node_offset, read_node_offsets):
+        """Checks that a node was not read before.
+
+        Args:
+          node_offset (int): offset of the node relative to the start of the file.
+          read_node_offsets (set[int]): offsets of the nodes that were read or None
+              if no node was read.
+
+        Returns:
+          set[int]: offsets of the nodes that were read, including the node.
+
+        Raises:
+          ParseError: if the node was read before.
+        """
+        if read_node_offsets is None:
+            read_node_offsets = set()
+
+        elif node_offset in read_node_offsets:
+            raise errors.ParseError(
+                f"Recursive node at offset: {node_offset:d} (0x{node_offset:08x})."
+            )
+
+        read_node_offsets.add(node_offset)
+        return read_node_offsets
+
     def _ReadChildObjectsList(self, file_object, list_node_offset):
         """Reads a child objects list.
 
@@ -1172,7 +1197,17 @@ class RepositoryFile(data_format.BinaryDataFile):
         list_element = 1
         next_list_element_node_offset = list_node.first_list_element_node_offset
 
+        read_node_offsets = set()
         while next_list_element_node_offset > 40:
+            if next_list_element_node_offset in read_node_offsets:
+                raise errors.ParseError(
+                    f"Recursive child objects list at offset: "
+                    f"{next_list_element_node_offset:d} "
+                    f"(0x{next_list_element_node_offset:08x})."
+                )
+
+            read_node_offsets.add(next_list_element_node_offset)
+
             if self._debug:
                 self._DebugPrintText(f"Reading list element: {list_element:d}\n")
 
@@ -1823,17 +1858,26 @@ class RepositoryFile(data_format.BinaryDataFile):
           Instance: instance.
         """
 
-    def _ReadClassDefinitionHierarchy(self, file_object, root_node_offset):
+    def _ReadClassDefinitionHierarchy(
+        self, file_object, root_node_offset, read_node_offsets=None
+    ):
         """Reads the class definition hierarchy.
 
         Args:
           file_object (file): file-like object.
           root_node_offset (int): offset of the root node relative to the start of
               the file.
+          read_node_offsets (Optional[set[int]]): offsets of the root nodes that
+              were read.
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the class definition hierarchy is recursive.
         """
+        read_node_offsets = self._CheckRecursion(root_node_offset, read_node_offsets)
+
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadClassDefinitionRootNode(node_cell.data, root_node_offset)
 
@@ -1873,7 +1917,9 @@ class RepositoryFile(data_format.BinaryDataFile):
             ):
                 if value_node_offset > 40:
                     yield from self._ReadClassDefinitionHierarchy(
-                        file_object, value_node_offset
+                        file_object,
+                        value_node_offset,
+                        read_node_offsets=read_node_offsets,
                     )
 
         if self._debug:
@@ -1954,17 +2000,26 @@ class RepositoryFile(data_format.BinaryDataFile):
 
         return instance
 
-    def _ReadInstanceHierarchy(self, file_object, root_node_offset):
+    def _ReadInstanceHierarchy(
+        self, file_object, root_node_offset, read_node_offsets=None
+    ):
         """Reads an instance hierarchy.
 
         Args:
           file_object (file): file-like object.
           root_node_offset (int): offset of the root node relative to the start of
               the file.
+          read_node_offsets (Optional[set[int]]): offsets of the root nodes that
+              were read.
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the instance hierarchy is recursive.
         """
+        read_node_offsets = self._CheckRecursion(root_node_offset, read_node_offsets)
+
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadInstanceRootNode(node_cell.data, root_node_offset)
 
@@ -2019,6 +2074,7 @@ class RepositoryFile(data_format.BinaryDataFile):
                         yield from self._ReadInstanceHierarchy(
                             file_object,
                             instance_leaf_value_node.instance_root_node_offset,
+                            read_node_offsets=read_node_offsets,
                         )
 
         if self._debug:
@@ -2040,7 +2096,11 @@ class RepositoryFile(data_format.BinaryDataFile):
                             )
 
     def _ReadNamespaceInstanceHierarchy(
-        self, file_object, root_node_offset, parent_namespace_segments
+        self,
+        file_object,
+        root_node_offset,
+        parent_namespace_segments,
+        read_node_offsets=None,
     ):
         """Reads a namespace instance hierarchy.
 
@@ -2049,10 +2109,17 @@ class RepositoryFile(data_format.BinaryDataFile):
           root_node_offset (int): offset of the root node relative to the start of
               the file.
           parent_namespace_segments (list[str]): segments of the parent namespace.
+          read_node_offsets (Optional[set[int]]): offsets of the root nodes that
+              were read.
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the instance hierarchy is recursive.
         """
+        read_node_offsets = self._CheckRecursion(root_node_offset, read_node_offsets)
+
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadInstanceRootNode(node_cell.data, root_node_offset)
 
@@ -2087,6 +2154,7 @@ class RepositoryFile(data_format.BinaryDataFile):
                                 file_object,
                                 instance_leaf_value_node.instance_root_node_offset,
                                 namespace_segments,
+                                read_node_offsets=read_node_offsets,
                             )
 
     def ReadClassDefinitions(self):
-- 
2.43.0


From f07ba3c1e9bb5a9195be6cb7ac335ae01c3f9f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:41 +0000
Subject: [PATCH 138/161] fix: instances of a WMI repository file that have no
 data

---
 dtformats/wmi_repository.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 1057d06..249735f 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1909,7 +1909,8 @@ class RepositoryFile(data_format.BinaryDataFile):
             ):
                 if value_node_offset > 40:
                     instance = self._ReadInstance(file_object, value_node_offset)
-                    yield instance
+                    if instance:
+                        yield instance
 
         if root_node.sub_node_offset > 40 and root_node.sub_node_type in (9, 10):
             for value_node_offset in self._ReadChildObjectsTree(
@@ -1969,6 +1970,9 @@ class RepositoryFile(data_format.BinaryDataFile):
         class_definition = self._ReadClassDefinition(
             file_object, root_node.class_definition_branch_node_offset
         )
+        if not class_definition:
+            return None
+
         node_cell = self._ReadNodeCell(
             file_object, instance_branch_node.instance_leaf_node_offset - 4
         )
@@ -2034,7 +2038,8 @@ class RepositoryFile(data_format.BinaryDataFile):
             instance = self._ReadInstance(
                 file_object, root_node.instance_branch_node_offset
             )
-            yield instance
+            if instance:
+                yield instance
 
         if self._debug:
             if root_node.unknown_node5_offset > 40 and root_node.unknown2 == 0:
@@ -2127,7 +2132,15 @@ class RepositoryFile(data_format.BinaryDataFile):
             instance = self._ReadInstance(
                 file_object, root_node.instance_branch_node_offset
             )
-            name_property = instance.properties.get("Name")
+            name_property = None
+            if instance:
+                name_property = instance.properties.get("Name")
+
+            if not name_property:
+                raise errors.ParseError(
+                    f"Missing name of namespace at offset: {root_node_offset:d} "
+                    f"(0x{root_node_offset:08x})."
+                )
 
             namespace_segments = list(parent_namespace_segments)
             namespace_segments.append(name_property)
-- 
2.43.0


From e38778e0c42b0402716cdb6113d40eb8ab59c2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 139/161] fix: debug output of the child objects of a WMI
 instance

---
 dtformats/wmi_repository.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 249735f..621863c 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2089,15 +2089,15 @@ class RepositoryFile(data_format.BinaryDataFile):
                 ):
                     if value_node_offset > 40:
                         node_cell = self._ReadNodeCell(
-                            file_object, root_node_offset - 4
+                            file_object, value_node_offset - 4
                         )
-                        root_node = self._ReadClassDefinitionRootNode(
-                            node_cell.data, root_node_offset
+                        class_root_node = self._ReadClassDefinitionRootNode(
+                            node_cell.data, value_node_offset
                         )
-                        if root_node.class_definition_branch_node_offset > 40:
+                        if class_root_node.class_definition_branch_node_offset > 40:
                             self._ReadClassDefinition(
                                 file_object,
-                                root_node.class_definition_branch_node_offset,
+                                class_root_node.class_definition_branch_node_offset,
                             )
 
     def _ReadNamespaceInstanceHierarchy(
-- 
2.43.0


From c655ce4f36b8357cd7571ae33556c84eff6eeb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:02 +0000
Subject: [PATCH 140/161] fix: size of the cells of a WMI repository file and
 the values of a WMI class definition

---
 dtformats/wmi_repository.yaml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/wmi_repository.yaml b/dtformats/wmi_repository.yaml
index bd7de2e..543b8d1 100644
--- a/dtformats/wmi_repository.yaml
+++ b/dtformats/wmi_repository.yaml
@@ -598,7 +598,7 @@ members:
 - name: values_data
   type: stream
   element_data_type: byte
-  elements_data_size: class_definition_block.values_data_size & 0x7ffffff
+  elements_data_size: class_definition_block.values_data_size & 0x7fffffff
 ---
 name: class_definition_methods
 type: structure
@@ -983,7 +983,7 @@ members:
 - name: data
   type: stream
   element_data_type: byte
-  elements_data_size: ( cim_rep_node_cell.size & 0x7ffffff ) - 4 if ( cim_rep_node_cell.size & 0x7ffffff ) else 0
+  elements_data_size: ( cim_rep_node_cell.size & 0x7fffffff ) - 4 if ( cim_rep_node_cell.size & 0x7fffffff ) else 0
 ---
 name: cim_rep_child_objects_list_node
 type: structure
-- 
2.43.0


From 502f3a5088ae9fde2ad74f92a676e274002336a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:22 +0000
Subject: [PATCH 141/161] fix: debug output of an instance branch node of a WMI
 repository file

---
 dtformats/wmi_repository.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wmi_repository.debug.yaml b/dtformats/wmi_repository.debug.yaml
index 77296c3..b87582a 100644
--- a/dtformats/wmi_repository.debug.yaml
+++ b/dtformats/wmi_repository.debug.yaml
@@ -310,7 +310,7 @@ attributes:
   format: custom:offset
 - name: unknown1
   description: "Unknown1"
-  format: binary_data
+  format: decimal
 - name: instance_leaf_node_offset
   description: "Instance leaf node offset"
   format: custom:offset
-- 
2.43.0


From 9b68efc44183f69672619532b47c02a934daecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:40 +0000
Subject: [PATCH 142/161] fix: AMCache file references of which the separator
 occurs more than once

The name of a file key such as 10000100000 was split in more than 2 parts,
and 100000169dd was attributed to sequence number 1 instead of 16. A name
that contains 0000 without being a file reference raised ValueError.
---
 dtformats/amcache.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index c7b3c00..73b8645 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -1,5 +1,7 @@
 """Windows AMCache (AMCache.hve) files."""
 
+import re
+
 import pyregf
 
 from dtformats import data_format
@@ -34,6 +36,12 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
         "101": "SHA-1",
     }
 
+    # The sequence number and the MFT entry of an NTFS file reference, both
+    # without leading zeros, are separated by "0000".
+    _NTFS_FILE_REFERENCE_REGEX = re.compile(
+        r"([1-9A-Fa-f][0-9A-Fa-f]*?)0000([1-9A-Fa-f][0-9A-Fa-f]*)"
+    )
+
     _PROGRAM_KEY_DESCRIPTIONS = {
         "0": "Name",
         "1": "Version",
@@ -146,10 +154,12 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
           file_reference_key (pyregf_key): file reference key.
         """
         if self._debug:
-            if "0000" in file_reference_key.name:
-                sequence_number, mft_entry = file_reference_key.name.split("0000")
-                mft_entry = int(mft_entry, 16)
-                sequence_number = int(sequence_number, 16)
+            match = self._NTFS_FILE_REFERENCE_REGEX.fullmatch(
+                file_reference_key.name
+            )
+            if match:
+                sequence_number = int(match.group(1), 16)
+                mft_entry = int(match.group(2), 16)
                 self._DebugPrintText(
                     (
                         f"File: {file_reference_key.name:s} "
-- 
2.43.0


From bee823538430a62b7bbb044bad9ef726c28a9f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:19 +0000
Subject: [PATCH 143/161] fix: JSON output of the unified logging script
 escapes every string

Control characters other than a new line and tab, and special characters in
a subsystem, category, signpost name or sender image path, ended up in the
JSON as is.
---
 scripts/unified_logging.py | 55 +++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/scripts/unified_logging.py b/scripts/unified_logging.py
index 07e6988..a9141b4 100755
--- a/scripts/unified_logging.py
+++ b/scripts/unified_logging.py
@@ -4,7 +4,6 @@
 import argparse
 import heapq
 import logging
-import re
 import sys
 
 from dfdatetime import posix_time as dfdatetime_posix_time
@@ -59,6 +58,30 @@ class LogEntriesHeap:
         heapq.heappush(self._heap, log_entry)
 
 
+def EscapeJSONString(string):
+    """Escapes a string for use in JSON.
+
+    Args:
+      string (str): string.
+
+    Returns:
+      str: escaped string.
+    """
+    characters = []
+    for character in string:
+        if character in '\\/"':
+            character = f"\\{character:s}"
+        elif character == "\n":
+            character = "\\n"
+        elif character == "\t":
+            character = "\\t"
+        elif character < " ":
+            character = f"\\u{ord(character):04x}"
+        characters.append(character)
+
+    return "".join(characters)
+
+
 def GetDateTimeString(timestamp):
     """Determines the date and time string.
 
@@ -241,8 +264,6 @@ def Main():
         for log_entry in unified_logging_file.ReadLogEntries():
             log_entries_heap.PushLogEntry(log_entry)
 
-        escape_regex = re.compile(r'([\\/"])', re.MULTILINE)
-
         if options.format == "json":
             print("[{")
         else:
@@ -264,18 +285,16 @@ def Main():
 
             if options.format == "json":
                 boot_identifier = str(log_entry.boot_identifier).upper()
-                category = log_entry.category or ""
+                category = EscapeJSONString(log_entry.category or "")
                 event_type = log_entry.event_type or ""
-                sub_system = log_entry.sub_system or ""
+                sub_system = EscapeJSONString(log_entry.sub_system or "")
 
                 event_message = log_entry.event_message or ""
                 event_message = event_message.rstrip()
                 if len(event_message) >= 1085:
                     event_message = "".join([event_message[:1087], "<…>"])
 
-                event_message = escape_regex.sub(r"\\\1", event_message)
-                event_message = event_message.replace("\n", "\\n")
-                event_message = event_message.replace("\t", "\\t")
+                event_message = EscapeJSONString(event_message)
 
                 creator_activity_identifier = log_entry.creator_activity_identifier
 
@@ -284,10 +303,7 @@ def Main():
                     # is empty.
                     format_string = ""
                 else:
-                    format_string = log_entry.format_string or ""
-                    format_string = escape_regex.sub(r"\\\1", format_string)
-                    format_string = format_string.replace("\n", "\\n")
-                    format_string = format_string.replace("\t", "\\t")
+                    format_string = EscapeJSONString(log_entry.format_string or "")
 
                 process_image_identifier = ""
                 if log_entry.process_image_identifier:
@@ -295,8 +311,9 @@ def Main():
                         log_entry.process_image_identifier
                     ).upper()
 
-                process_image_path = log_entry.process_image_path or ""
-                process_image_path = escape_regex.sub(r"\\\1", process_image_path)
+                process_image_path = EscapeJSONString(
+                    log_entry.process_image_path or ""
+                )
 
                 sender_image_identifier = ""
                 if log_entry.sender_image_identifier:
@@ -304,9 +321,9 @@ def Main():
                         log_entry.sender_image_identifier
                     ).upper()
 
-                sender_image_path = log_entry.sender_image_path or ""
-                sender_image_path = sender_image_path.replace('"', '\\"')
-                sender_image_path = sender_image_path.replace("/", "\\/")
+                sender_image_path = EscapeJSONString(
+                    log_entry.sender_image_path or ""
+                )
 
                 if event_type == "timesyncEvent":
                     lines = [
@@ -458,7 +475,9 @@ def Main():
                         )
 
                     elif log_entry.signpost_identifier is not None:
-                        signpost_name = log_entry.signpost_name or ""
+                        signpost_name = EscapeJSONString(
+                            log_entry.signpost_name or ""
+                        )
 
                         lines.append(f'  "signpostName" : "{signpost_name:s}",')
 
-- 
2.43.0


From 4436547fe0ac866e9b181c4df468e307f0ee868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:19 +0000
Subject: [PATCH 144/161] fix: JSON output of the unified logging script
 without log entries

A file without log entries was shown as a single empty log entry.
---
 scripts/unified_logging.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/unified_logging.py b/scripts/unified_logging.py
index a9141b4..bf33d6e 100755
--- a/scripts/unified_logging.py
+++ b/scripts/unified_logging.py
@@ -264,18 +264,18 @@ def Main():
         for log_entry in unified_logging_file.ReadLogEntries():
             log_entries_heap.PushLogEntry(log_entry)
 
-        if options.format == "json":
-            print("[{")
-        else:
+        if options.format != "json":
             print(
                 "Timestamp                       Thread     Type        "
                 "Activity             PID    TTL"
             )
 
+        number_of_entries = 0
         parent_per_activity_identifier = {}
         for index, log_entry in enumerate(log_entries_heap.PopLogEntries()):
-            if options.format == "json" and index > 0:
-                print("},{")
+            number_of_entries += 1
+            if options.format == "json":
+                print("},{" if index > 0 else "[{")
 
             activity_identifier = log_entry.activity_identifier or 0
             date_time_string = GetDateTimeString(log_entry.timestamp)
@@ -556,7 +556,7 @@ def Main():
                 )
 
         if options.format == "json":
-            print("}]", end="")
+            print("}]" if number_of_entries > 0 else "[]", end="")
 
     unified_logging_file.Close()
 
-- 
2.43.0


From 9560fbae4b7298ea1435da815266ce7b68370e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:19 +0000
Subject: [PATCH 145/161] fix: text output of the unified logging script of an
 unknown event type

A log entry without event type or event message raised TypeError.
---
 scripts/unified_logging.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/unified_logging.py b/scripts/unified_logging.py
index bf33d6e..5695eda 100755
--- a/scripts/unified_logging.py
+++ b/scripts/unified_logging.py
@@ -544,14 +544,15 @@ def Main():
                         f"[{log_entry.sub_system:s}:{log_entry.category:s}]"
                     )
 
-                event_message_parts.append(log_entry.event_message)
+                event_message_parts.append(log_entry.event_message or "")
                 event_message = " ".join(event_message_parts)
 
+                event_type = log_entry.event_type or ""
                 ttl = log_entry.ttl or 0
 
                 print(
                     f"{date_time_string:s}\t0x{thread_identifier:<8x}\t"
-                    f"{log_entry.event_type:11s}\t0x{activity_identifier:<18x}\t"
+                    f"{event_type:11s}\t0x{activity_identifier:<18x}\t"
                     f"{process_identifier:<6d}\t{ttl:<4d}\t{event_message:s}"
                 )
 
-- 
2.43.0


From 37662edd37bad6a7fcd1c4463f48339f360cff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 146/161] fix: a set of a NSKeyedArchiver plist is decoded to
 all of its elements

Only the last element was returned, an empty set raised UnboundLocalError and
an element that is not an object, such as a string, AttributeError.
---
 scripts/decode_nskeyedarchiver_plist.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 409a083..5ccb819 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -186,11 +186,14 @@ class NSKeyedArchiverDecoder:
             plist_uid = self._GetPlistUID(value_object)
             referenced_object = objects_list[plist_uid]
 
-            decoded_element = self._DecodeContainer(referenced_object, objects_list)
+            if isinstance(referenced_object, dict):
+                decoded_element = self._DecodeContainer(referenced_object, objects_list)
+            else:
+                decoded_element = self._DecodeObject(referenced_object, objects_list)
 
             decoded_list.append(decoded_element)
 
-        return decoded_element
+        return decoded_list
 
     def _DecodeNSURL(self, encoded_object, objects_list):
         """Decodes a NSURL.
-- 
2.43.0


From fc684569e1ad3571e06b6416fa76f82a189495e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:56 +0000
Subject: [PATCH 147/161] fix: hashing the entries of a CPIO archive of more
 than one file

The file entries were sorted but cannot be compared, which raised TypeError.
---
 scripts/cpio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/cpio.py b/scripts/cpio.py
index 189ecf3..252842b 100755
--- a/scripts/cpio.py
+++ b/scripts/cpio.py
@@ -110,7 +110,10 @@ class CPIOArchiveFileHasher:
             cpio_archive_file = cpio.CPIOArchiveFile(debug=self._debug)
             cpio_archive_file.ReadFileObject(cpio_file_object)
 
-            for file_entry in sorted(cpio_archive_file.GetFileEntries()):
+            for file_entry in sorted(
+                cpio_archive_file.GetFileEntries(),
+                key=lambda file_entry: file_entry.path,
+            ):
                 if file_entry.data_size == 0:
                     continue
 
-- 
2.43.0


From 3bd88361b15d8bf28dde63aacf98b23c3b12ef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:56 +0000
Subject: [PATCH 148/161] fix: hashing the entries of CPIO archives that follow
 one another

The entries of the first archive were hashed again for every further one.
---
 scripts/cpio.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/cpio.py b/scripts/cpio.py
index 252842b..ebef0b7 100755
--- a/scripts/cpio.py
+++ b/scripts/cpio.py
@@ -90,8 +90,11 @@ class CPIOArchiveFileHasher:
             cpio_file_object = None
 
             if file_type == "cpio":
-                file_object.seek(file_offset, os.SEEK_SET)
-                cpio_file_object = file_object
+                cpio_file_object = data_range.DataRange(
+                    file_object,
+                    data_offset=file_offset,
+                    data_size=file_size - file_offset,
+                )
             elif file_type in ("bzip", "gzip", "xz"):
                 compressed_data_size = file_size - file_offset
                 compressed_data_file_object = data_range.DataRange(
-- 
2.43.0


From 59d52732f51b8d36cf755f50d87cae62959adbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:56 +0000
Subject: [PATCH 149/161] fix: hashing the entries of a compressed CPIO archive

The size of the uncompressed archive was used to continue in the compressed
file, so that data of it was taken for another archive.
---
 scripts/cpio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/cpio.py b/scripts/cpio.py
index ebef0b7..0d12600 100755
--- a/scripts/cpio.py
+++ b/scripts/cpio.py
@@ -129,7 +129,11 @@ class CPIOArchiveFileHasher:
                 digest_hash = sha256_context.hexdigest()
                 self._output_writer.WriteText(f"{digest_hash:s}\t{file_entry.path:s}\n")
 
-            file_offset += cpio_archive_file.size
+            if file_type == "cpio":
+                file_offset += cpio_archive_file.size
+            else:
+                # The compressed data is the remainder of the file.
+                file_offset = file_size
 
             padding_size = file_offset % 16
             if padding_size > 0:
-- 
2.43.0


From d7d706f779fe177cfc6ea79167f04b5bf1dbffdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:04 +0000
Subject: [PATCH 150/161] fix: hashing the entries of a CPIO archive no longer
 fails on closing it

The archive is read from a file object and is not opened, so that closing it
raised OSError after the first archive.
---
 scripts/cpio.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/scripts/cpio.py b/scripts/cpio.py
index 0d12600..742330f 100755
--- a/scripts/cpio.py
+++ b/scripts/cpio.py
@@ -139,8 +139,6 @@ class CPIOArchiveFileHasher:
             if padding_size > 0:
                 file_offset += 16 - padding_size
 
-            cpio_archive_file.Close()
-
 
 def Main():
     """The main program function.
-- 
2.43.0


From 073a1705a961645757f5b9c749673ae23e394b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:05 +0000
Subject: [PATCH 151/161] fix: the USN journal script fails on every record

The date and time of a record was formatted by a method the record does not
have, which raised AttributeError, and the rows were written on a single line.
---
 scripts/usn_journal.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/scripts/usn_journal.py b/scripts/usn_journal.py
index 90fffe0..d18f8cf 100755
--- a/scripts/usn_journal.py
+++ b/scripts/usn_journal.py
@@ -62,13 +62,14 @@ def Main():
     )
     usn_records.Open(options.source)
 
-    output_writer.WriteText("USN journal records information:")
-    output_writer.WriteText(
-        ",".join(["Date and time", "Name", "File reference", "Parent file reference"])
+    output_writer.WriteText("USN journal records information:\n")
+    header = ",".join(
+        ["Date and time", "Name", "File reference", "Parent file reference"]
     )
+    output_writer.WriteText(f"{header:s}\n")
     for usn_record in usn_records.ReadRecords():
         # pylint: disable=protected-access
-        date_time = usn_record._FormatIntegerAsFiletime(usn_record.timestamp)
+        date_time, _ = usn_records._FormatIntegerAsFiletime(usn_record.timestamp)
 
         mft_entry = usn_record.file_reference & ((1 << 48) - 1)
         sequence_number = usn_record.file_reference >> 48
@@ -78,11 +79,10 @@ def Main():
         sequence_number = usn_record.parent_file_reference >> 48
         parent_file_reference = f"{mft_entry:d}-{sequence_number:d}"
 
-        output_writer.WriteText(
-            ",".join(
-                [date_time, usn_record.name, file_reference, parent_file_reference]
-            )
+        row = ",".join(
+            [date_time, usn_record.name, file_reference, parent_file_reference]
         )
+        output_writer.WriteText(f"{row:s}\n")
 
     usn_records.Close()
 
-- 
2.43.0


From ec082bd55106f800fb001f1d77d18e6657a32e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:05 +0000
Subject: [PATCH 152/161] fix: the Spotlight script fails on an item that does
 not exist

The table of the item was written although it was not made, which raised
UnboundLocalError.
---
 scripts/spotlight_storedb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/spotlight_storedb.py b/scripts/spotlight_storedb.py
index 7bdffdf..1c74ace 100755
--- a/scripts/spotlight_storedb.py
+++ b/scripts/spotlight_storedb.py
@@ -347,7 +347,7 @@ def Main():
 
                     table_view.AddRow([name, f"= {value_string:s}"])
 
-            table_view.Write(output_writer)
+                table_view.Write(output_writer)
 
         spotlight_store_database.Close()
 
-- 
2.43.0


From 2a9bcbec307c50887baf2ae15f207a21efa412d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:05 +0000
Subject: [PATCH 153/161] fix: the Spotlight script fails on an attribute of
 multiple strings or dates

The list of values was formatted as a string or timestamp, which raised
TypeError.
---
 scripts/spotlight_storedb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/spotlight_storedb.py b/scripts/spotlight_storedb.py
index 1c74ace..3cbb5e5 100755
--- a/scripts/spotlight_storedb.py
+++ b/scripts/spotlight_storedb.py
@@ -336,6 +336,9 @@ def Main():
                     if not metadata_attribute:
                         value_string = "(null)"
 
+                    elif isinstance(metadata_attribute.value, (list, tuple)):
+                        value_string = f"{metadata_attribute.value!s}"
+
                     elif metadata_attribute.value_type == 0x0B:
                         value_string = f'"{metadata_attribute.value:s}"'
 
-- 
2.43.0


From f2a384bf485ad0cef5313a5be746118d661c40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:05 +0000
Subject: [PATCH 154/161] fix: the keychain script fails on a column without a
 name

The header of the table could not be formatted, which raised TypeError.
---
 scripts/keychain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/keychain.py b/scripts/keychain.py
index cf0ced9..b6c46d3 100755
--- a/scripts/keychain.py
+++ b/scripts/keychain.py
@@ -130,7 +130,11 @@ def Main():
                 )
             )
 
-            print("\t".join([column.attribute_name for column in table.columns]))
+            print(
+                "\t".join(
+                    [column.attribute_name or "NULL" for column in table.columns]
+                )
+            )
 
             for record in table.records:
                 record_values = []
-- 
2.43.0


From 9bf590e4ac4819c5f8431c747a70a146d7d814e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:06 +0000
Subject: [PATCH 155/161] fix: the WMI script fails on an instance with a name
 that is not a string

The name was formatted as a string, which raised ValueError.
---
 scripts/wmi_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/wmi_repository.py b/scripts/wmi_repository.py
index 071b778..f3a0a35 100755
--- a/scripts/wmi_repository.py
+++ b/scripts/wmi_repository.py
@@ -23,7 +23,7 @@ def PrintInstance(instance):
     dynasty = instance.dynasty or ""
 
     if name_property:
-        relpath = f'{instance.class_name:s}.Name="{name_property:s}"'
+        relpath = f'{instance.class_name:s}.Name="{name_property!s}"'
     else:
         relpath = f"{instance.class_name:s}=@"
 
-- 
2.43.0


From 619f4dac90c6fce21dba2113af3c47f6e4f47989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:06 +0000
Subject: [PATCH 156/161] fix: the WMI script fails on a namespace without a
 name

Namespaces with and without a name could not be sorted, which raised
TypeError.
---
 scripts/wmi_repository.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/wmi_repository.py b/scripts/wmi_repository.py
index f3a0a35..6b7d250 100755
--- a/scripts/wmi_repository.py
+++ b/scripts/wmi_repository.py
@@ -155,7 +155,8 @@ def Main():
 
     elif options.output_mode == "namespaces":
         for instance in sorted(
-            cim_repository.GetNamespaces(), key=lambda instance: instance.namespace
+            cim_repository.GetNamespaces(),
+            key=lambda instance: instance.namespace or "",
         ):
             PrintNamespace(instance)
 
-- 
2.43.0


From 1667f9dfe70f1acb81a2a5eaec6f739d1401999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:06 +0000
Subject: [PATCH 157/161] fix: file attribute flags of a shell item shown by
 the jump list script

The digits 08 were put in front of the flags.
---
 scripts/jump_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/jump_list.py b/scripts/jump_list.py
index d259775..a491d31 100755
--- a/scripts/jump_list.py
+++ b/scripts/jump_list.py
@@ -257,7 +257,7 @@ class StdoutWriter(output_writers.StdoutWriter):
         self.WriteValue("\t\t\tModification time", date_time_string)
 
         self.WriteValue(
-            "\t\t\tFile attribute flags", f"0x08{fwsi_item.file_attribute_flags:08x}"
+            "\t\t\tFile attribute flags", f"0x{fwsi_item.file_attribute_flags:08x}"
         )
 
         self.WriteValue("\t\t\tName", fwsi_item.name)
-- 
2.43.0


From f2bccb6f7deec5c6288d81ba4b8a8dfa4f02b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:18 +0000
Subject: [PATCH 158/161] fix: the LevelDB and IndexedDB scripts read the file
 of the storage media image

The file system of the image was not passed on, so that the path was opened
on the system the script runs on.
---
 scripts/indexeddb.py |  4 +++-
 scripts/leveldb.py   | 12 +++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/scripts/indexeddb.py b/scripts/indexeddb.py
index 659fabe..318bfd2 100755
--- a/scripts/indexeddb.py
+++ b/scripts/indexeddb.py
@@ -77,7 +77,9 @@ def Main():
         return False
 
     indexeddb_file = indexeddb.IndexedDBDatabaseTableFile(
-        debug=options.debug, output_writer=output_writer
+        debug=options.debug,
+        file_system_helper=file_system_helper,
+        output_writer=output_writer,
     )
 
     indexeddb_file.Open(options.source)
diff --git a/scripts/leveldb.py b/scripts/leveldb.py
index 770a43d..f4274e5 100755
--- a/scripts/leveldb.py
+++ b/scripts/leveldb.py
@@ -93,17 +93,23 @@ def Main():
 
     if file_signature == b"\x57\xfb\x80\x8b\x24\x75\x47\xdb":
         leveldb_file = leveldb.LevelDBDatabaseTableFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     elif path_segments[-1].startswith("MANIFEST"):
         leveldb_file = leveldb.LevelDBDatabaseDescriptorFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     else:
         leveldb_file = leveldb.LevelDBDatabaseLogFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     leveldb_file.Open(options.source)
-- 
2.43.0


From 156b12436c6f77b3fb86dab04f5fb2ffbfaa0ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:28 +0000
Subject: [PATCH 159/161] fix: the LevelDB script reads files of less than 8
 bytes

Determining the signature of for example an empty log file raised OSError.
---
 scripts/leveldb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/leveldb.py b/scripts/leveldb.py
index f4274e5..aaf3fc4 100755
--- a/scripts/leveldb.py
+++ b/scripts/leveldb.py
@@ -84,7 +84,8 @@ def Main():
         return False
 
     try:
-        file_object.seek(-8, os.SEEK_END)
+        file_object.seek(0, os.SEEK_END)
+        file_object.seek(max(0, file_object.tell() - 8), os.SEEK_SET)
         file_signature = file_object.read(8)
     finally:
         file_object.close()
-- 
2.43.0


From bbc66cf23ad20835c1b4fda781403f8d4ed4eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:55 +0000
Subject: [PATCH 160/161] fix: the jump list script fails on an invalid FAT
 date and time value

A value of which for example the month is out of bounds raised ValueError.
---
 scripts/jump_list.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/jump_list.py b/scripts/jump_list.py
index a491d31..e255645 100755
--- a/scripts/jump_list.py
+++ b/scripts/jump_list.py
@@ -55,8 +55,12 @@ class StdoutWriter(output_writers.StdoutWriter):
         if not value:
             date_time_string = "Not set (0)"
         else:
-            date_time = dfdatetime_fat_date_time.FATDateTime(fat_date_time=value)
-            date_time_string = date_time.CopyToDateTimeString()
+            try:
+                date_time = dfdatetime_fat_date_time.FATDateTime(fat_date_time=value)
+                date_time_string = date_time.CopyToDateTimeString()
+            except ValueError:
+                date_time_string = None
+
             if not date_time_string:
                 date_time_string = f"0x{value:04x}"
 
-- 
2.43.0


From 3f85eb71d3a9e1b14c362f1f29e9c9a6f926ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:46 +0000
Subject: [PATCH 161/161] fix: the VHDX header has a log format version and a
 format version

---
 dtformats/vhdx.yaml | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dtformats/vhdx.yaml b/dtformats/vhdx.yaml
index 48ce281..2bcbdac 100644
--- a/dtformats/vhdx.yaml
+++ b/dtformats/vhdx.yaml
@@ -18,6 +18,13 @@ attributes:
   size: 1
   units: bytes
 ---
+name: uint16
+type: integer
+attributes:
+  format: unsigned
+  size: 2
+  units: bytes
+---
 name: uint32
 type: integer
 attributes:
@@ -78,6 +85,10 @@ members:
   type: uuid
 - name: log_identifier
   type: uuid
+- name: log_format_version
+  data_type: uint16
+- name: format_version
+  data_type: uint16
 - name: log_size
   data_type: uint32
 - name: log_offset
-- 
2.43.0

