From 1320ffdc6809da614f9f66a5a162f55b49470e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:01 +0000
Subject: [PATCH 01/92] fix: treat negative read sizes of a data range as read
 all

---
 dtformats/data_range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_range.py b/dtformats/data_range.py
index e46e42d..7596555 100644
--- a/dtformats/data_range.py
+++ b/dtformats/data_range.py
@@ -56,7 +56,7 @@ class DataRange:
         if self._current_offset >= self.data_size:
             return b""
 
-        if size is None:
+        if size is None or size < 0:
             size = self.data_size
         if self._current_offset + size > self.data_size:
             size = self.data_size - self._current_offset
-- 
2.43.0


From bd3e036dcea16f9802815b0f64e7db4fdc14af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:05 +0000
Subject: [PATCH 02/92] fix: describe Chrome cache addresses of an unknown file
 type

---
 dtformats/chrome_cache.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 6020080..9e86549 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -159,6 +159,12 @@ class CacheAddress:
                 f"file type: {file_type_description:s}, filename: {self.filename:s})"
             )
 
+        if self.filename is None:
+            return (
+                f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
+                f"file type: {file_type_description:s})"
+            )
+
         # TODO: print reserved bits.
         return (
             f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
-- 
2.43.0


From 896855c1463c7dc43e0e7f3bf607cd1e4ab478bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:53 +0000
Subject: [PATCH 03/92] fix: escape the byte value 0xff as non-printable

---
 dtformats/data_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 0646983..740bbe1 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -49,7 +49,7 @@ class BinaryDataFormat:
     # Byte values that are considered non-printable characters.
     _NON_PRINTABLE_BYTE_VALUES = {value: f"\\x{value:02x}" for value in range(0, 0x20)}
     _NON_PRINTABLE_BYTE_VALUES.update(
-        {value: f"\\x{value:02x}" for value in range(0x7F, 0xFF)}
+        {value: f"\\x{value:02x}" for value in range(0x7F, 0x100)}
     )
     _NON_PRINTABLE_BYTE_VALUES_TRANSLATION_TABLE = str.maketrans(
         _NON_PRINTABLE_BYTE_VALUES
-- 
2.43.0


From 530a866d556c79753d7574132cb865802d5c0a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:34 +0000
Subject: [PATCH 04/92] fix: show utmp strings that are not valid UTF-8 instead
 of failing

---
 dtformats/utmp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dtformats/utmp.py b/dtformats/utmp.py
index 311b1ca..ffe54c1 100644
--- a/dtformats/utmp.py
+++ b/dtformats/utmp.py
@@ -40,17 +40,17 @@ class LinuxLibc6UtmpFile(data_format.BinaryDataFile):
         self._DebugPrintValue("PID", f"{entry.pid:d}")
 
         value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
         value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Username", value_string)
 
         value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintValue("Termination status", f"0x{entry.termination_status:04x}")
@@ -150,13 +150,13 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
           entry (macosx_utmpx_entry): entry.
         """
         value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Username", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
         value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("PID", f"{entry.pid:d}")
@@ -173,7 +173,7 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Microseconds", f"{entry.microseconds:d}")
 
         value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = self._DecodeString(value_string)
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintData("Unknown2", entry.unknown2)
-- 
2.43.0


From df5648c55c156babaca4206d9c9dfc7c6c4844f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:38 +0000
Subject: [PATCH 05/92] fix: show the IP address of an utmp entry as text

---
 dtformats/utmp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/utmp.py b/dtformats/utmp.py
index ffe54c1..11a067f 100644
--- a/dtformats/utmp.py
+++ b/dtformats/utmp.py
@@ -64,11 +64,11 @@ class LinuxLibc6UtmpFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Microseconds", f"{entry.microseconds:d}")
 
         if entry.ip_address[4:] == self._EMPTY_IP_ADDRESS[4:]:
-            value_string = self._FormatArrayOfIntegersAsIPv4Address(
+            value_string, _ = self._FormatArrayOfIntegersAsIPv4Address(
                 entry.ip_address[:4]
             )
         else:
-            value_string = self._FormatArrayOfIntegersAsIPv6Address(entry.ip_address)
+            value_string, _ = self._FormatArrayOfIntegersAsIPv6Address(entry.ip_address)
 
         self._DebugPrintValue("IP address", value_string)
 
-- 
2.43.0


From 6d82dfdfea204eeabf473734599fb2b9f159c9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:35 +0000
Subject: [PATCH 06/92] fix: show the file header of a RECYCLER INFO2 file

---
 dtformats/recycler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/recycler.py b/dtformats/recycler.py
index 8bb6783..4961b56 100644
--- a/dtformats/recycler.py
+++ b/dtformats/recycler.py
@@ -117,7 +117,7 @@ class RecyclerInfo2File(data_format.BinaryDataFile):
             file_object, 0, data_type_map, "file header"
         )
         if self._debug:
-            debug_info = self._DEBUG_INFORMATION.get("recycler_info2_file_entry", None)
+            debug_info = self._DEBUG_INFORMATION.get("recycler_info2_file_header", None)
             self._DebugPrintStructureObject(file_header, debug_info)
 
         if file_header.file_entry_size not in (280, 800):
-- 
2.43.0


From 779f0950b656da029e4ca7d919a6d744735df99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:29 +0000
Subject: [PATCH 07/92] fix: refuse a restore point log whose footer overlaps
 its header

---
 dtformats/rp_log.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dtformats/rp_log.py b/dtformats/rp_log.py
index 00cdd19..00cb293 100644
--- a/dtformats/rp_log.py
+++ b/dtformats/rp_log.py
@@ -119,8 +119,9 @@ class RestorePointLogFile(data_format.BinaryDataFile):
         """
         self._ReadFileHeader(file_object)
 
-        data_size = (self._file_size - 8) - file_object.tell()
-        data = file_object.read(data_size)
+        file_offset = file_object.tell()
+        data_size = (self._file_size - 8) - file_offset
+        data = self._ReadData(file_object, file_offset, data_size, "unknown1")
         self._DebugPrintData("Unknown1", data)
 
         self._ReadFileFooter(file_object)
-- 
2.43.0


From f3114b62f870d08ee95020ea5ba13220f6322a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:34 +0000
Subject: [PATCH 08/92] fix: show unknown data of a restore point log in debug
 mode only

---
 dtformats/rp_log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/rp_log.py b/dtformats/rp_log.py
index 00cb293..7ec5c94 100644
--- a/dtformats/rp_log.py
+++ b/dtformats/rp_log.py
@@ -122,6 +122,7 @@ class RestorePointLogFile(data_format.BinaryDataFile):
         file_offset = file_object.tell()
         data_size = (self._file_size - 8) - file_offset
         data = self._ReadData(file_object, file_offset, data_size, "unknown1")
-        self._DebugPrintData("Unknown1", data)
+        if self._debug:
+            self._DebugPrintData("Unknown1", data)
 
         self._ReadFileFooter(file_object)
-- 
2.43.0


From c2fafac0cc574e4bdc98b423ffc113c871a1a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:34 +0000
Subject: [PATCH 09/92] fix: read USN records of every block

---
 dtformats/usn_journal.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dtformats/usn_journal.py b/dtformats/usn_journal.py
index bbd2345..3920c4f 100644
--- a/dtformats/usn_journal.py
+++ b/dtformats/usn_journal.py
@@ -64,11 +64,10 @@ class USNRecords(data_format.BinaryDataFile):
         Raises:
           ParseError: if a record cannot be read.
         """
-        self._file_object.seek(0, os.SEEK_SET)
-
         file_offset = 0
         while file_offset < self._file_size:
-            block_size = min(4096, self._file_size)
+            self._file_object.seek(file_offset, os.SEEK_SET)
+            block_size = min(4096, self._file_size - file_offset)
 
             while block_size > 60:
                 usn_record_header = self._file_object.read(60)
-- 
2.43.0


From f728b753459222bcd68b901b6c71f50068b8374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:42 +0000
Subject: [PATCH 10/92] fix: show the minor product version of a Windows task

---
 dtformats/job.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/job.py b/dtformats/job.py
index c78b96d..6af46a7 100644
--- a/dtformats/job.py
+++ b/dtformats/job.py
@@ -121,7 +121,7 @@ class WindowsTaskSchedulerJobFile(data_format.BinaryDataFile):
           str: integer formatted as a product version.
         """
         major_version = (integer >> 8) & 0xFF
-        minor_version = (integer >> 8) & 0xFF
+        minor_version = integer & 0xFF
         return f"0x{integer:04x} ({major_version:d}.{minor_version:d})"
 
     def _FormatString(self, string):
-- 
2.43.0


From 41e47de2b8985dfd3df02c8b2b105f4ca448d6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:01 +0000
Subject: [PATCH 11/92] fix: read Windows tasks that end in empty strings

---
 dtformats/job.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/job.yaml b/dtformats/job.yaml
index fbbe7d1..f7dab3f 100644
--- a/dtformats/job.yaml
+++ b/dtformats/job.yaml
@@ -105,7 +105,7 @@ members:
   encoding: utf-16-le
   element_data_type: wchar16
   elements_terminator: "\x00\x00"
-  number_of_elements: job_string.number_of_characters
+  elements_data_size: job_string.number_of_characters * 2
 ---
 name: job_user_data
 type: structure
-- 
2.43.0


From ccc385092e10ce4a9e92283088e9ecbe5761dbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:05 +0000
Subject: [PATCH 12/92] fix: show Chrome cache timestamps that are out of range

---
 dtformats/chrome_cache.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 9e86549..5345b82 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -348,9 +348,13 @@ class DataBlockFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
+        try:
+            date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
+                microseconds=integer
+            )
+        except OverflowError:
+            return f"0x{integer:08x}"
+
         return f"{date_string!s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
@@ -527,9 +531,13 @@ class IndexFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
+        try:
+            date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
+                microseconds=integer
+            )
+        except OverflowError:
+            return f"0x{integer:08x}"
+
         return f"{date_string!s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
-- 
2.43.0


From a90e3c7c03e39ff1775d295828ea1cfe157c43e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:05 +0000
Subject: [PATCH 13/92] fix: show cookie timestamps that are out of range

---
 dtformats/safari_cookies.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index 96fdb22..4cef9f1 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -53,20 +53,36 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Value offset", f"{record_header.value_offset:d}")
         self._DebugPrintValue("Unknown3", f"0x{record_header.unknown3:08x}")
 
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.expiration_time)
+        value_string = self._FormatFloatingPointAsCocoaTime(
+            record_header.expiration_time
         )
-        self._DebugPrintValue(
-            "Expiration time", f"{date_time!s} ({record_header.expiration_time:f})"
-        )
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.creation_time)
-        )
-        self._DebugPrintValue(
-            "Creation time", f"{date_time!s} ({record_header.creation_time:f})"
+        self._DebugPrintValue("Expiration time", value_string)
+
+        value_string = self._FormatFloatingPointAsCocoaTime(
+            record_header.creation_time
         )
+        self._DebugPrintValue("Creation time", value_string)
+
         self._DebugPrintText("\n")
 
+    def _FormatFloatingPointAsCocoaTime(self, floating_point):
+        """Formats a floating-point as a Cocoa timestamp.
+
+        Args:
+          floating_point (float): floating-point.
+
+        Returns:
+          str: floating-point formatted as a Cocoa timestamp.
+        """
+        try:
+            date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
+                seconds=int(floating_point)
+            )
+        except (OverflowError, ValueError):
+            return f"{floating_point:f}"
+
+        return f"{date_time!s} ({floating_point:f})"
+
     def _ReadCString(self, page_data, string_offset):
         """Reads a string from the page data.
 
-- 
2.43.0


From 4fd388dad057cc348c1bdadc7b373efc4389d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:18 +0000
Subject: [PATCH 14/92] fix: read Safari cookie files without pages

---
 dtformats/safari_cookies.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index 4cef9f1..5c09c6f 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -146,6 +146,10 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintFileHeader(file_header)
 
+        self._page_sizes = []
+        if file_header.number_of_pages == 0:
+            return
+
         file_offset = file_header_data_size
 
         # TODO: move page sizes array into file header, this will require dtFabric
@@ -177,16 +181,14 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
                 f"error: {exception!s}"
             )
 
-        self._page_sizes = []
-        if file_header.number_of_pages > 0:
-            for index, page_size in enumerate(page_sizes_array):
-                self._page_sizes.append(page_size)
-
-                if self._debug:
-                    self._DebugPrintValue(f"Page: {index:d} size", f"{page_size:d}")
+        for index, page_size in enumerate(page_sizes_array):
+            self._page_sizes.append(page_size)
 
             if self._debug:
-                self._DebugPrintText("\n")
+                self._DebugPrintValue(f"Page: {index:d} size", f"{page_size:d}")
+
+        if self._debug:
+            self._DebugPrintText("\n")
 
     def _ReadPage(self, file_object, file_offset, page_size):
         """Reads a page.
-- 
2.43.0


From 36909620e57ec844ee6585be77035ebeb4b0bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:16 +0000
Subject: [PATCH 15/92] fix: refuse disk log stream pages with an unsupported
 signature

---
 dtformats/fseventsd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtformats/fseventsd.py b/dtformats/fseventsd.py
index 079f414..b3ec58c 100644
--- a/dtformats/fseventsd.py
+++ b/dtformats/fseventsd.py
@@ -3,6 +3,7 @@
 import pygzipf
 
 from dtformats import data_format
+from dtformats import errors
 
 
 class FseventsFile(data_format.BinaryDataFile):
@@ -81,7 +82,9 @@ class FseventsFile(data_format.BinaryDataFile):
         elif format_version == 2:
             data_type_map = self._GetDataTypeMap("dls_record_v2")
         else:
-            data_type_map = None
+            raise errors.ParseError(
+                f"Unsupported DLS format version: {format_version!s}"
+            )
 
         dls_record, bytes_read = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "DLS record"
-- 
2.43.0


From e077e3f3ca8ca0afa3e932508338cb018e2eb0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:55 +0000
Subject: [PATCH 16/92] fix: refuse fseventsd files that are not compressed
 with a ParseError

---
 dtformats/fseventsd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dtformats/fseventsd.py b/dtformats/fseventsd.py
index b3ec58c..a60505d 100644
--- a/dtformats/fseventsd.py
+++ b/dtformats/fseventsd.py
@@ -106,7 +106,12 @@ class FseventsFile(data_format.BinaryDataFile):
           ParseError: if the file cannot be read.
         """
         gzipf_file = pygzipf.file()
-        gzipf_file.open_file_object(file_object)
+        try:
+            gzipf_file.open_file_object(file_object)
+        except OSError as exception:
+            raise errors.ParseError(
+                f"Unable to open gzip file with error: {exception!s}"
+            )
 
         try:
             file_offset = 0
-- 
2.43.0


From 56767c0514907bf348b74391403b10324ef291ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:13 +0000
Subject: [PATCH 17/92] fix: read gzip members without data

---
 dtformats/gzipfile.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/dtformats/gzipfile.py b/dtformats/gzipfile.py
index 422a310..6da88fd 100644
--- a/dtformats/gzipfile.py
+++ b/dtformats/gzipfile.py
@@ -45,16 +45,8 @@ class GZipFile(data_format.BinaryDataFile):
         Returns:
           tuple[bytes, bytes]: decompressed data and remaining data.
         """
-        data_segments = []
-        while compressed_data:
-            data = zlib_decompressor.decompress(compressed_data)
-            if not data:
-                break
-
-            data_segments.append(data)
-            compressed_data = getattr(zlib_decompressor, "unused_data", b"")
-
-        return b"".join(data_segments), compressed_data
+        data = zlib_decompressor.decompress(compressed_data)
+        return data, zlib_decompressor.unused_data
 
     def _ReadMemberCompressedData(self, file_object):
         """Reads a member compressed data.
@@ -65,13 +57,13 @@ class GZipFile(data_format.BinaryDataFile):
         zlib_decompressor = zlib.decompressobj(-zlib.MAX_WBITS)
         compressed_data = file_object.read(self._BUFFER_SIZE)
         while compressed_data:
-            data, compressed_data = self._ReadCompressedData(
+            _, compressed_data = self._ReadCompressedData(
                 zlib_decompressor, compressed_data
             )
             if compressed_data:
                 file_object.seek(-len(compressed_data), os.SEEK_CUR)
 
-            if not data:
+            if zlib_decompressor.eof:
                 break
 
             compressed_data = file_object.read(self._BUFFER_SIZE)
-- 
2.43.0


From 98527248f81f3170dcf946cf7c56e95379b5c054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:13 +0000
Subject: [PATCH 18/92] fix: refuse gzip files with invalid compressed data
 with a ParseError

---
 dtformats/gzipfile.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dtformats/gzipfile.py b/dtformats/gzipfile.py
index 6da88fd..f0f7ed0 100644
--- a/dtformats/gzipfile.py
+++ b/dtformats/gzipfile.py
@@ -44,8 +44,17 @@ class GZipFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[bytes, bytes]: decompressed data and remaining data.
+
+        Raises:
+          ParseError: if the compressed data cannot be decompressed.
         """
-        data = zlib_decompressor.decompress(compressed_data)
+        try:
+            data = zlib_decompressor.decompress(compressed_data)
+        except zlib.error as exception:
+            raise errors.ParseError(
+                f"Unable to decompress data with error: {exception!s}"
+            )
+
         return data, zlib_decompressor.unused_data
 
     def _ReadMemberCompressedData(self, file_object):
-- 
2.43.0


From 3d538c5ec8a4a6843b963de413cc65c12c39673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 19/92] fix: refuse CPIO file entries with negative values

---
 dtformats/cpio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index c11c9b7..5f70c28 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -211,6 +211,8 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
                 value = getattr(file_entry, attribute_name, None)
                 try:
                     value = int(value, 8)
+                    if value < 0:
+                        raise ValueError("Value out of bounds.")
                 except ValueError:
                     raise errors.ParseError(
                         (
@@ -226,6 +228,8 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
                 value = getattr(file_entry, attribute_name, None)
                 try:
                     value = int(value, 16)
+                    if value < 0:
+                        raise ValueError("Value out of bounds.")
                 except ValueError:
                     raise errors.ParseError(
                         (
-- 
2.43.0


From 50c41188a8119ff0135c2354b9f7a4188c570562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 20/92] fix: refuse CPIO file entries with missing path data

---
 dtformats/cpio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index 5f70c28..5d3f271 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -243,7 +243,9 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintFileEntry(file_entry)
 
-        path_data = file_object.read(file_entry.path_size)
+        path_data = self._ReadData(
+            file_object, file_offset, file_entry.path_size, "path"
+        )
 
         if self._debug:
             self._DebugPrintData("Path data", path_data)
-- 
2.43.0


From 49d609b32e912bf088e1718d996f605f784f48b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 21/92] fix: read CPIO file entries with a path that is not
 ASCII

---
 dtformats/cpio.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index 5d3f271..3f61d43 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -253,7 +253,13 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         file_offset += file_entry.path_size
 
         # TODO: should this be ASCII?
-        path = path_data.decode("ascii")
+        try:
+            path = path_data.decode("utf8")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode path with error: {exception!s}"
+            )
+
         path, _, _ = path.partition("\x00")
 
         if self._debug:
-- 
2.43.0


From a9e0b1881f9bfdc3225d1fc1374ca5458182babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 22/92] fix: return None if a CPIO archive has no file entries

---
 dtformats/cpio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index 3f61d43..bd9dfdd 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -396,7 +396,7 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
           CPIOArchiveFileEntry: CPIO archive file entry or None.
         """
         if not self._file_entries:
-            return False
+            return None
 
         return self._file_entries.get(path)
 
-- 
2.43.0


From cd591762e3b96c51c997ed62ff22c5586c8199cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:06 +0000
Subject: [PATCH 23/92] fix: read the 64-bit time zone information after the
 32-bit

---
 dtformats/tzif.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 9532327..1f2900e 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -96,11 +96,13 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
 
         self._DebugPrintText("\n")
 
-    def _ReadFileHeader(self, file_object):
+    def _ReadFileHeader(self, file_object, file_offset=0):
         """Reads a file header.
 
         Args:
           file_object (file): file-like object.
+          file_offset (Optional[int]): offset of the file header relative to the start
+              of the file-like object.
 
         Returns:
           tzif_file_header: a file header.
@@ -111,7 +113,7 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         data_type_map = self._GetDataTypeMap("tzif_file_header")
 
         file_header, _ = self._ReadStructureFromFileObject(
-            file_object, 0, data_type_map, "file header"
+            file_object, file_offset, data_type_map, "file header"
         )
 
         if self._debug:
@@ -282,7 +284,8 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the 64-bit time zone information cannot be read.
         """
-        file_header = self._ReadFileHeader(file_object)
+        file_offset = file_object.tell()
+        file_header = self._ReadFileHeader(file_object, file_offset=file_offset)
 
         self._ReadTransitionTimes64bit(file_object, file_header)
         self._ReadTransitionTimeIndex(file_object, file_header)
-- 
2.43.0


From 8d5c5df1bd9608feb49af60efff66495f470d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:06 +0000
Subject: [PATCH 24/92] fix: read the leap second records of 64-bit time zone
 information

---
 dtformats/tzif.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index 1f2900e..abb15d2 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -129,18 +129,19 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
 
         return file_header
 
-    def _ReadLeapSecondRecords(self, file_object, file_header):
+    def _ReadLeapSecondRecords(self, file_object, file_header, record_size=8):
         """Reads the lead second records.
 
         Args:
           file_object (file): file-like object.
           file_header (tzif_file_header): file header.
+          record_size (Optional[int]): size of a leap second record.
 
         Raises:
           ParseError: if the leap second records cannot be read.
         """
         file_offset = file_object.tell()
-        data_size = 8 * file_header.number_of_leap_seconds
+        data_size = record_size * file_header.number_of_leap_seconds
 
         data = self._ReadData(
             file_object, file_offset, data_size, "leap second records"
@@ -291,7 +292,7 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         self._ReadTransitionTimeIndex(file_object, file_header)
         self._ReadLocalTimeTypesTable(file_object, file_header)
         self._ReadTimeZoneAbbreviationStrings(file_object, file_header)
-        self._ReadLeapSecondRecords(file_object, file_header)
+        self._ReadLeapSecondRecords(file_object, file_header, record_size=12)
         self._ReadStandardTimeIndicators(file_object, file_header)
         self._ReadUTCTimeIndicators(file_object, file_header)
 
-- 
2.43.0


From 479b528a2cf2864f8f91f189b227f15085f02647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:06 +0000
Subject: [PATCH 25/92] fix: read time zone information without transition
 times

---
 dtformats/tzif.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dtformats/tzif.py b/dtformats/tzif.py
index abb15d2..b0a3bbf 100644
--- a/dtformats/tzif.py
+++ b/dtformats/tzif.py
@@ -268,8 +268,10 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
 
         self.format_version = file_header.format_version
 
-        self._ReadTransitionTimes32bit(file_object, file_header)
-        self._ReadTransitionTimeIndex(file_object, file_header)
+        if file_header.number_of_transition_times > 0:
+            self._ReadTransitionTimes32bit(file_object, file_header)
+            self._ReadTransitionTimeIndex(file_object, file_header)
+
         self._ReadLocalTimeTypesTable(file_object, file_header)
         self._ReadTimeZoneAbbreviationStrings(file_object, file_header)
         self._ReadLeapSecondRecords(file_object, file_header)
@@ -288,8 +290,10 @@ class TimeZoneInformationFile(data_format.BinaryDataFile):
         file_offset = file_object.tell()
         file_header = self._ReadFileHeader(file_object, file_offset=file_offset)
 
-        self._ReadTransitionTimes64bit(file_object, file_header)
-        self._ReadTransitionTimeIndex(file_object, file_header)
+        if file_header.number_of_transition_times > 0:
+            self._ReadTransitionTimes64bit(file_object, file_header)
+            self._ReadTransitionTimeIndex(file_object, file_header)
+
         self._ReadLocalTimeTypesTable(file_object, file_header)
         self._ReadTimeZoneAbbreviationStrings(file_object, file_header)
         self._ReadLeapSecondRecords(file_object, file_header, record_size=12)
-- 
2.43.0


From 3e320926edc6b46bc2216eaa576b8ef21c96c840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:37 +0000
Subject: [PATCH 26/92] fix: continue after the record of an Apple System Log
 when reading strings

Record strings are read from elsewhere in the file, hence what is shown as
the strings data of the next record could contain records that had already
been read and a log with a next record offset in a loop was read forever.
---
 dtformats/asl.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtformats/asl.py b/dtformats/asl.py
index 9d90156..cf5bbb1 100644
--- a/dtformats/asl.py
+++ b/dtformats/asl.py
@@ -1,5 +1,7 @@
 """Apple System Log (ASL) files."""
 
+import os
+
 from dtformats import data_format
 from dtformats import errors
 
@@ -111,6 +113,8 @@ class AppleSystemLogFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintData("Record additional data", additional_data)
 
+        record_end_offset = file_offset + additional_data_size
+
         extra_fields = {}
         for additional_data_offset in range(0, additional_data_size - 8, 16):
             record_extra_field = self._ReadRecordExtraField(
@@ -140,6 +144,9 @@ class AppleSystemLogFile(data_format.BinaryDataFile):
 
         # TODO: implement print previous record offset
 
+        # Reading record strings changes the offset of the file-like object.
+        file_object.seek(record_end_offset, os.SEEK_SET)
+
         return record.next_record_offset
 
     def _ReadRecordExtraField(self, byte_stream, file_offset):
-- 
2.43.0


From 62d43e8bbae04b880d4cace5b215ad4229bc01da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:22 +0000
Subject: [PATCH 27/92] fix: show offsets and hashes of systemd journal entries
 as integers

---
 dtformats/systemd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index 040f9d1..800a7a0 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -84,13 +84,13 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, entry_item in enumerate(entry_items):
-            value_string = self._FormatIntegerAsHexadecimal8(entry_item.object_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_item.object_offset)
             line = self._FormatValue(
                 f"    Entry item: {index:d} object offset", value_string
             )
             lines.append(line)
 
-            value_string = self._FormatIntegerAsHexadecimal8(entry_item.hash)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_item.hash)
             line = self._FormatValue(f"    Entry item: {index:d} hash", value_string)
             lines.append(line)
 
@@ -107,7 +107,7 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, entry_object_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(entry_object_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(entry_object_offset)
             line = self._FormatValue(
                 f"    Entry object offset: {index:d}", value_string
             )
-- 
2.43.0


From 610637b281941c37c900a8854b62e3f6808df37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:22 +0000
Subject: [PATCH 28/92] fix: show the data size of systemd journal objects

---
 dtformats/systemd.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/systemd.debug.yaml b/dtformats/systemd.debug.yaml
index 6e09977..9a3c187 100644
--- a/dtformats/systemd.debug.yaml
+++ b/dtformats/systemd.debug.yaml
@@ -137,6 +137,6 @@ attributes:
 - name: reserved1
   description: "Reserved"
   format: binary_data
-- name: data_sizes
+- name: data_size
   description: "Data size"
   format: decimal
-- 
2.43.0


From b774a4448e5cb14cc1a7cb5f10159cff058e0202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:50 +0000
Subject: [PATCH 29/92] fix: refuse a systemd journal with entry arrays that
 form a loop

---
 dtformats/systemd.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index 800a7a0..e19bc39 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -353,14 +353,21 @@ class SystemdJournalFile(data_format.BinaryDataFile):
         """
         file_header = self._ReadFileHeader(file_object)
 
-        entry_array_object = self._ReadEntryArrayObject(
-            file_object, file_header.entry_array_offset
-        )
+        entry_array_offset = file_header.entry_array_offset
+        entry_array_object = self._ReadEntryArrayObject(file_object, entry_array_offset)
 
         entry_object_offsets = list(entry_array_object.entry_object_offsets)
         while entry_array_object.next_entry_array_offset != 0:
+            # Entry array objects are stored in order, otherwise they form a loop.
+            if entry_array_object.next_entry_array_offset <= entry_array_offset:
+                raise errors.ParseError(
+                    f"Invalid next entry array offset: "
+                    f"0x{entry_array_object.next_entry_array_offset:08x}."
+                )
+
+            entry_array_offset = entry_array_object.next_entry_array_offset
             entry_array_object = self._ReadEntryArrayObject(
-                file_object, entry_array_object.next_entry_array_offset
+                file_object, entry_array_offset
             )
             entry_object_offsets.extend(entry_array_object.entry_object_offsets)
 
-- 
2.43.0


From e5a5c31853943182d818c7714bcb3eb729867e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:11 +0000
Subject: [PATCH 30/92] fix: refuse CUPS IPP text values that cannot be decoded
 with a ParseError

---
 dtformats/cups_ipp.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index 3af6999..612772c 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -165,13 +165,15 @@ class CupsIppFile(data_format.BinaryDataFile):
             pass
 
         elif attribute.tag_value in self._STRING_WITHOUT_LANGUAGE_VALUES:
-            value = attribute.value_data.decode(self._last_charset_attribute)
+            value = self._ReadStringValue(
+                attribute.value_data, self._last_charset_attribute
+            )
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
 
         elif attribute.tag_value in self._ASCII_STRING_VALUES:
-            value = attribute.value_data.decode("ascii")
+            value = self._ReadStringValue(attribute.value_data, "ascii")
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
@@ -324,6 +326,26 @@ class CupsIppFile(data_format.BinaryDataFile):
             debug_info = self._DEBUG_INFORMATION.get("cups_ipp_header")
             self._DebugPrintStructureObject(header, debug_info)
 
+    def _ReadStringValue(self, byte_stream, encoding):
+        """Reads a string value.
+
+        Args:
+          byte_stream (bytes): byte stream.
+          encoding (str): encoding of the string.
+
+        Returns:
+          str: string value.
+
+        Raises:
+          ParseError: when the string value cannot be read.
+        """
+        try:
+            return byte_stream.decode(encoding)
+        except (LookupError, ValueError) as exception:
+            raise errors.ParseError(
+                f"Unable to decode string value with error: {exception!s}"
+            )
+
     def ReadFileObject(self, file_object):
         """Reads a CUPS Internet Printing Protocol (IPP) file-like object.
 
-- 
2.43.0


From ec03b9f64699261c564a784861c2ceed0dd0c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:16 +0000
Subject: [PATCH 31/92] fix: refuse CUPS IPP date-time values out of bounds
 with a ParseError

---
 dtformats/cups_ipp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index 612772c..e153ec5 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -277,9 +277,14 @@ class CupsIppFile(data_format.BinaryDataFile):
             value.hours_from_utc,
             value.minutes_from_utc,
         )
-        return dfdatetime_rfc2579_date_time.RFC2579DateTime(
-            rfc2579_date_time_tuple=rfc2579_date_time_tuple
-        )
+        try:
+            return dfdatetime_rfc2579_date_time.RFC2579DateTime(
+                rfc2579_date_time_tuple=rfc2579_date_time_tuple
+            )
+        except ValueError as exception:
+            raise errors.ParseError(
+                f"Unsupported date-time value with error: {exception!s}"
+            )
 
     def _ReadIntegerValue(self, byte_stream, file_offset):
         """Reads an integer value.
-- 
2.43.0


From 86ad3deb76187398f0c6136e041ada6a61acd811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:51 +0000
Subject: [PATCH 32/92] fix: keep the last character of the process name of a
 change log entry

---
 dtformats/rp_change_log.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 00d66c4..2d67bd5 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -236,9 +236,7 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
             )
 
         if self._debug:
-            self._DebugPrintValue(
-                "Process name", change_log_entry_record2.process_name[:-1]
-            )
+            self._DebugPrintValue("Process name", change_log_entry_record2.process_name)
 
             self._DebugPrintText("\n")
 
@@ -249,7 +247,7 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
             change_log_entry_record.file_attribute_flags
         )
         change_log_entry.sequence_number = change_log_entry_record.sequence_number
-        change_log_entry.process_name = change_log_entry_record2.process_name[:-1]
+        change_log_entry.process_name = change_log_entry_record2.process_name
 
         sub_record_data_offset = context.byte_size
         sub_record_data_size = record_size - 4
-- 
2.43.0


From 978a8c0721e828af5fcfb943650c385345c85ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:56 +0000
Subject: [PATCH 33/92] fix: refuse change log records with missing data

---
 dtformats/rp_change_log.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 2d67bd5..00ca4bb 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -210,8 +210,10 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         # TODO: refactor to use size hints
         record_size = change_log_entry_record.record_size - data_size
-        record_data = file_object.read(record_size)
         file_offset += data_size
+        record_data = self._ReadData(
+            file_object, file_offset, record_size, "change log entry record data"
+        )
 
         if self._debug:
             self._DebugPrintData("Record data", record_data)
@@ -333,7 +335,9 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         file_offset = file_header_data_size
         record_size = file_header.record_size - file_header_data_size
-        record_data = file_object.read(record_size)
+        record_data = self._ReadData(
+            file_object, file_offset, record_size, "file header record data"
+        )
 
         if self._debug:
             self._DebugPrintData("Record data", record_data)
-- 
2.43.0


From 4fed7383bb276e9a4e9a989e202103c4ac940013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:59 +0000
Subject: [PATCH 34/92] fix: read strings of change log records inside of the
 record only

---
 dtformats/rp_change_log.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 00ca4bb..c142346 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -410,23 +410,24 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintRecordHeader(record_header)
 
+        record_data_end_offset = record_data_offset + record_header.record_size
         record_data_offset += context.byte_size
 
         value_string = ""
         if record_header.record_type in (4, 5, 9):
             data_type_map = self._GetDataTypeMap("utf16le_string")
 
-        try:
-            value_string = self._ReadStructureFromByteStream(
-                record_data[record_data_offset:],
-                record_data_offset,
-                data_type_map,
-                "value string",
-            )
-        except (ValueError, errors.ParseError) as exception:
-            raise errors.ParseError(
-                f"Unable to parse UTF-16 string with error: {exception!s}"
-            )
+            try:
+                value_string = self._ReadStructureFromByteStream(
+                    record_data[record_data_offset:record_data_end_offset],
+                    record_data_offset,
+                    data_type_map,
+                    "value string",
+                )
+            except (ValueError, errors.ParseError) as exception:
+                raise errors.ParseError(
+                    f"Unable to parse UTF-16 string with error: {exception!s}"
+                )
 
         # TODO: add support for other record types.
         # TODO: store record values in runtime objects.
-- 
2.43.0


From 8366b178e2398fab1bc46fc4d13b0fcb99dd54fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 35/92] fix: show keychain offsets and values as text

---
 dtformats/keychain.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 4ccfadf..bddb522 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -140,7 +140,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, record_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(record_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(record_offset)
             line = self._FormatValue(f"Record offset: {index:d}", value_string)
             lines.append(line)
 
@@ -158,7 +158,8 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if integer is None:
             return "NULL"
 
-        return self._FormatIntegerAsHexadecimal8(integer)
+        value_string, _ = self._FormatIntegerAsHexadecimal8(integer)
+        return value_string
 
     def _FormatIntegerAsRecordType(self, integer):
         """Formats an integer as a record type.
@@ -183,7 +184,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, table_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(table_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(table_offset)
             line = self._FormatValue(f"Table offset: {index:d}", value_string)
             lines.append(line)
 
@@ -525,7 +526,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         if self._debug:
             for index, attribute_value_offset in enumerate(attribute_value_offsets):
-                value_string = self._FormatIntegerAsHexadecimal8(attribute_value_offset)
+                value_string, _ = self._FormatIntegerAsHexadecimal8(attribute_value_offset)
                 self._DebugPrintValue(
                     f"Attribute value offset: {index:d}", value_string
                 )
-- 
2.43.0


From 854ff99f3a25356743a3d58e5209e37aeab35cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 36/92] fix: show the records array offset of a keychain table

---
 dtformats/keychain.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/keychain.debug.yaml b/dtformats/keychain.debug.yaml
index 46658ea..947eef5 100644
--- a/dtformats/keychain.debug.yaml
+++ b/dtformats/keychain.debug.yaml
@@ -65,7 +65,7 @@ attributes:
 - name: number_of_records
   description: "Number of records"
   format: decimal
-- name: record_array_offset
+- name: records_array_offset
   description: "Record array offset"
   format: hexadecimal_8digits
 - name: unknown1
-- 
2.43.0


From 95a24aee1788c2c76ea1a9c07f5b0b70d45b2c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 37/92] fix: refuse keychain attribute value offsets out of
 bounds

---
 dtformats/keychain.py | 64 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 56 insertions(+), 8 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index bddb522..00c9504 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -190,6 +190,38 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         return "".join(lines)
 
+    def _GetAttributeValueData(
+        self,
+        attribute_values_data,
+        attribute_values_data_offset,
+        attribute_value_offset,
+        description,
+    ):
+        """Retrieves the data of an attribute value.
+
+        Args:
+          attribute_values_data (bytes): attribute values data.
+          attribute_values_data_offset (int): offset of the attribute values data
+              relative to the start of the record.
+          attribute_value_offset (int): offset of the attribute relative to
+              the start of the record.
+          description (str): description of the attribute value.
+
+        Returns:
+          bytes: attribute values data starting with the attribute value.
+
+        Raises:
+          ParseError: if the attribute value offset is out of bounds.
+        """
+        data_offset = attribute_value_offset - attribute_values_data_offset - 1
+        if data_offset < 0 or data_offset >= len(attribute_values_data):
+            raise errors.ParseError(
+                f"Unsupported {description:s} offset: {attribute_value_offset:d} "
+                f"value out of bounds."
+            )
+
+        return attribute_values_data[data_offset:]
+
     def _ReadAttributeValueBinaryData(
         self,
         attribute_values_data,
@@ -225,8 +257,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         string_attribute_value = self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -269,8 +305,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         date_time_attribute_value = self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -313,8 +353,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         return self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
@@ -355,8 +399,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             record_offset + attribute_values_data_offset + attribute_value_offset
         )
 
-        attribute_value_offset -= attribute_values_data_offset + 1
-        attribute_value_data = attribute_values_data[attribute_value_offset:]
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
 
         string_attribute_value = self._ReadStructureFromByteStream(
             attribute_value_data, file_offset, data_type_map, description
-- 
2.43.0


From 1e0617bff170d667d83d6f3c0d585816cc165e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:29 +0000
Subject: [PATCH 38/92] fix: refuse keychain records with missing data

---
 dtformats/keychain.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 00c9504..87d43ef 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -468,7 +468,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             record_data_offset = file_offset - record_offset
             record_data_size = record_header.data_size
-            record_data = file_object.read(record_data_size - record_data_offset)
+            record_data = self._ReadData(
+                file_object,
+                file_offset,
+                record_data_size - record_data_offset,
+                "record data",
+            )
 
             if self._debug:
                 if record_header.key_data_size > 0:
@@ -553,7 +558,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         offsets_data_size = number_of_attribute_values * 4
 
-        offsets_data = file_object.read(offsets_data_size)
+        offsets_data = self._ReadData(
+            file_object,
+            file_offset,
+            offsets_data_size,
+            "record attribute value offsets",
+        )
 
         if self._debug:
             self._DebugPrintData("Attribute value offsets data", offsets_data)
@@ -632,7 +642,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         attribute_values_data_size = record_header.data_size - (
             file_offset - record_offset
         )
-        attribute_values_data = file_object.read(attribute_values_data_size)
+        attribute_values_data = self._ReadData(
+            file_object,
+            file_offset,
+            attribute_values_data_size,
+            "attribute values",
+        )
 
         if self._debug:
             self._DebugPrintData("Attribute values data", attribute_values_data)
-- 
2.43.0


From 9e02c91d00270655a7f802f514e6f870db2c2a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 39/92] fix: show keychain attribute values that are not stored
 in order

---
 dtformats/keychain.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 87d43ef..47321c4 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -485,27 +485,23 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                     "Attribute values data", record_data[record_header.key_data_size :]
                 )
 
-                data_offsets = [
-                    offset - record_data_offset - 1
-                    for offset in sorted(attribute_value_offsets)
-                    if offset > record_data_offset
-                ]
-                data_offsets.append(record_data_size - record_data_offset)
-                data_offsets.pop(0)
-
             for index, column in enumerate(table.columns):
                 if self._debug:
-                    if attribute_value_offsets[index] == 0:
-                        attribute_value_offset = 0
-                        attribute_value_end_offset = 0
-                    else:
+                    attribute_value_offset = 0
+                    attribute_value_end_offset = 0
+                    if attribute_value_offsets[index] > record_data_offset:
                         attribute_value_offset = (
                             attribute_value_offsets[index] - record_data_offset - 1
                         )
-                        attribute_value_end_offset = data_offsets[0]
-                        while attribute_value_end_offset <= attribute_value_offset:
-                            data_offsets.pop(0)
-                            attribute_value_end_offset = data_offsets[0]
+                        attribute_value_end_offset = len(record_data)
+                        for data_offset in attribute_value_offsets:
+                            data_offset -= record_data_offset + 1
+                            if (
+                                attribute_value_offset
+                                < data_offset
+                                < attribute_value_end_offset
+                            ):
+                                attribute_value_end_offset = data_offset
 
                     description = (
                         f"Attribute value: {index:d} ({column.attribute_name:s}) data"
-- 
2.43.0


From be27c850bc7fc765207db3f7ba357856b02e00d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 40/92] fix: only show trailing data inside of keychain records
 and tables

---
 dtformats/keychain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 47321c4..6bfd038 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -808,7 +808,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = record_header.data_size - (file_offset - record_offset)
 
-            if trailing_data_size == 0:
+            if trailing_data_size <= 0:
                 self._DebugPrintText("\n")
             else:
                 trailing_data = file_object.read(trailing_data_size)
@@ -881,7 +881,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = record_header.data_size - (file_offset - record_offset)
 
-            if trailing_data_size == 0:
+            if trailing_data_size <= 0:
                 self._DebugPrintText("\n")
             else:
                 trailing_data = file_object.read(trailing_data_size)
@@ -945,7 +945,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = table_header.data_size - (file_offset - table_offset)
 
-            if trailing_data_size != 0:
+            if trailing_data_size > 0:
                 trailing_data = file_object.read(trailing_data_size)
                 self._DebugPrintData("Table trailing data", trailing_data)
 
-- 
2.43.0


From 39fe7209a2a30b2375141cf9614c36eab14784a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 41/92] fix: refuse keychain names that cannot be decoded with
 a ParseError

---
 dtformats/keychain.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 6bfd038..0420c81 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -745,7 +745,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             attribute_name = attribute_values_data[
                 attribute_value_offset : attribute_value_offset + 4
             ]
-            attribute_name = attribute_name.decode("ascii")
+            try:
+                attribute_name = attribute_name.decode("ascii")
+            except UnicodeDecodeError as exception:
+                raise errors.ParseError(
+                    f"Unable to decode attribute name with error: {exception!s}"
+                )
 
         column = KeychainDatabaseColumn()
         column.attribute_data_type = attribute_data_type
@@ -864,7 +869,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_object, file_offset, data_type_map, "schema information record values"
         )
 
-        relation_name = record_values.relation_name.decode("ascii")
+        try:
+            relation_name = record_values.relation_name.decode("ascii")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode relation name with error: {exception!s}"
+            )
 
         if self._debug:
             self._DebugPrintValue(
-- 
2.43.0


From 472f75c137a13e66733a8b841082ff27e5df759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:52 +0000
Subject: [PATCH 42/92] fix: refuse keychain attributes without a table or name
 with a ParseError

---
 dtformats/keychain.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 0420c81..a835b0a 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -732,6 +732,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintText("\n")
 
+        if relation_identifier is None:
+            raise errors.ParseError("Missing relation identifier.")
+
         table = tables.get(relation_identifier)
         if not table:
             raise errors.ParseError(
@@ -752,6 +755,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                     f"Unable to decode attribute name with error: {exception!s}"
                 )
 
+        if attribute_name is None:
+            raise errors.ParseError("Missing attribute name.")
+
         column = KeychainDatabaseColumn()
         column.attribute_data_type = attribute_data_type
         column.attribute_identifier = attribute_identifier
-- 
2.43.0


From 2c38110199e72834bca5f65173b418c30c552045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:23 +0000
Subject: [PATCH 43/92] fix: read signed integer attribute values of keychain
 records as such

---
 dtformats/keychain.py   | 48 ++++++++++++++++++++++++++++++++++++++++-
 dtformats/keychain.yaml |  8 +++++++
 2 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index a835b0a..b9cfbee 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -104,7 +104,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
     _ATTRIBUTE_DATA_READ_FUNCTIONS = {
         0: "_ReadAttributeValueString",
-        1: "_ReadAttributeValueInteger",
+        1: "_ReadAttributeValueSignedInteger",
         2: "_ReadAttributeValueInteger",
         5: "_ReadAttributeValueDateTime",
         6: "_ReadAttributeValueBinaryData",
@@ -364,6 +364,52 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             attribute_value_data, file_offset, data_type_map, description
         )
 
+    def _ReadAttributeValueSignedInteger(
+        self,
+        attribute_values_data,
+        record_offset,
+        attribute_values_data_offset,
+        attribute_value_offset,
+        description,
+    ):
+        """Reads a signed integer attribute value.
+
+        Args:
+          attribute_values_data (bytes): attribute values data.
+          record_offset (int): offset of the record relative to the start of
+              the file.
+          attribute_values_data_offset (int): offset of the attribute values data
+              relative to the start of the record.
+          attribute_value_offset (int): offset of the attribute relative to
+              the start of the record.
+          description (str): description of the attribute value.
+
+        Returns:
+          int: integer value or None if attribute value offset is not set.
+
+        Raises:
+          ParseError: if the attribute value cannot be read.
+        """
+        if attribute_value_offset == 0:
+            return None
+
+        data_type_map = self._GetDataTypeMap("int32be")
+
+        file_offset = (
+            record_offset + attribute_values_data_offset + attribute_value_offset
+        )
+
+        attribute_value_data = self._GetAttributeValueData(
+            attribute_values_data,
+            attribute_values_data_offset,
+            attribute_value_offset,
+            description,
+        )
+
+        return self._ReadStructureFromByteStream(
+            attribute_value_data, file_offset, data_type_map, description
+        )
+
     def _ReadAttributeValueString(
         self,
         attribute_values_data,
diff --git a/dtformats/keychain.yaml b/dtformats/keychain.yaml
index 7fe9ad6..5bddb61 100644
--- a/dtformats/keychain.yaml
+++ b/dtformats/keychain.yaml
@@ -33,6 +33,14 @@ attributes:
   size: 4
   units: bytes
 ---
+name: int32be
+type: integer
+attributes:
+  byte_order: big-endian
+  format: signed
+  size: 4
+  units: bytes
+---
 name: uint32be
 type: integer
 attributes:
-- 
2.43.0


From 450bee1a0aeb724082fded948038ac1a20b251fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 44/92] fix: read and show the header token of a BSM record
 once

---
 dtformats/bsm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index ce1e2f1..a985514 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -924,6 +924,7 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
 
         header_record_size = token.record_size
         record_end_offset = file_offset + header_record_size
+        file_offset = file_object.tell()
         while file_offset < record_end_offset:
             token = self._ReadToken(file_object, file_offset)
 
-- 
2.43.0


From 2bc2bc1953d5e88da3f470c1eaa447dd512b1916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 45/92] fix: refuse BSM records without a trailer token with a
 ParseError

---
 dtformats/bsm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index a985514..900be09 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -936,6 +936,9 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
             if token.token_type == self._TRAILER_TOKEN_TYPE:
                 break
 
+        if token.token_type != self._TRAILER_TOKEN_TYPE:
+            raise errors.ParseError("Missing trailer token.")
+
         if token.record_size != header_record_size:
             raise errors.ParseError(
                 "Mismatch of event record size between header and trailer token."
-- 
2.43.0


From ac9bb7df82875411c9ca42024fde76fd2f4ab5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 46/92] fix: describe the BSM exit token

---
 dtformats/bsm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index 900be09..b1fffd7 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -783,6 +783,7 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         0x3C: "token exec_args",
         0x3D: "token exec_env",
         0x3E: "token attr32",
+        0x52: "token exit",
         0x60: "token zonename",
         0x71: "token arg64",
         0x72: "token return64",
-- 
2.43.0


From 2a88cc8e598133ddb64a66d366f830789a0f3e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 47/92] fix: show the exec arguments, groups and IPC
 permissions tokens of a BSM record

---
 dtformats/bsm.debug.yaml | 63 ++++++++++++++++++++++++++++++++++++++++
 dtformats/bsm.py         | 23 +++++++++++++++
 2 files changed, 86 insertions(+)

diff --git a/dtformats/bsm.debug.yaml b/dtformats/bsm.debug.yaml
index d40a6e5..9fd53e5 100644
--- a/dtformats/bsm.debug.yaml
+++ b/dtformats/bsm.debug.yaml
@@ -67,6 +67,19 @@ attributes:
   description: "Data"
   format: binary_data
 ---
+# AUT_EXEC_ARGS and AUT_EXEC_ENV token debug information.
+data_type_map: bsm_token_exec_args
+attributes:
+- name: token_type
+  description: "Token type"
+  format: hexadecimal_2digits
+- name: number_of_strings
+  description: "Number of strings"
+  format: decimal
+- name: strings
+  description: "Strings"
+  format: custom:array_of_strings
+---
 # AUT_EXIT, AUT_RETURN32, AUT_RETURN64 token debug information.
 data_type_map: bsm_token_exit
 attributes:
@@ -80,6 +93,19 @@ attributes:
   description: "Return value"
   format: hexadecimal_8digits
 ---
+# AUT_GROUPS and AUT_NEWGROUPS token debug information.
+data_type_map: bsm_token_groups
+attributes:
+- name: token_type
+  description: "Token type"
+  format: hexadecimal_2digits
+- name: number_of_groups
+  description: "Number of groups"
+  format: decimal
+- name: groups
+  description: "Groups"
+  format: custom:array_of_decimals
+---
 # AUT_HEADER32, AUT_HEADER64 token debug information.
 data_type_map: bsm_token_header
 attributes:
@@ -186,6 +212,43 @@ attributes:
   description: "Object identifier"
   format: hexadecimal_8digits
 ---
+# AUT_IPC_PERM token debug information.
+data_type_map: bsm_token_ipc_perm
+attributes:
+- name: token_type
+  description: "Token type"
+  format: hexadecimal_2digits
+- name: user_identifier
+  description: "User identifier (UID)"
+  format: decimal
+- name: group_identifier
+  description: "Group identifier (GID)"
+  format: decimal
+- name: creator_user_identifier
+  description: "Creator user identifier (UID)"
+  format: decimal
+- name: creator_group_identifier
+  description: "Creator group identifier (GID)"
+  format: decimal
+- name: unknown1
+  description: "Unknown1"
+  format: hexadecimal_4digits
+- name: access_mode
+  description: "Access mode"
+  format: hexadecimal_4digits
+- name: unknown2
+  description: "Unknown2"
+  format: hexadecimal_4digits
+- name: slot_sequence_number
+  description: "Slot sequence number"
+  format: decimal
+- name: unknown3
+  description: "Unknown3"
+  format: hexadecimal_4digits
+- name: key
+  description: "Key"
+  format: hexadecimal_4digits
+---
 # AUT_IPORT token debug information.
 data_type_map: bsm_token_iport
 attributes:
diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index b1fffd7..9c9eefd 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -14,6 +14,8 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
     _DEBUG_INFORMATION = data_format.BinaryDataFile.ReadDebugInformationFile(
         "bsm.debug.yaml",
         custom_format_callbacks={
+            "array_of_decimals": "_FormatArrayOfIntegersAsDecimals",
+            "array_of_strings": "_FormatArrayOfStrings",
             "event_type": "_FormatIntegerAsEventType",
             "ip_address": "_FormatArrayOfIntegersAsIPAddress",
             "ipv4_address": "_FormatArrayOfIntegersAsIPv4Address",
@@ -829,6 +831,11 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         0x2C: "bsm_token_iport",
         0x2D: "bsm_token_arg",
         0x2F: "bsm_token_seq",
+        0x32: "bsm_token_ipc_perm",
+        0x34: "bsm_token_groups",
+        0x3B: "bsm_token_groups",
+        0x3C: "bsm_token_exec_args",
+        0x3D: "bsm_token_exec_args",
         0x3E: "bsm_token_attr",
         0x52: "bsm_token_exit",
         0x60: "bsm_token_zonename",
@@ -870,6 +877,22 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
 
         return None, False
 
+    def _FormatArrayOfStrings(self, array_of_strings):
+        """Formats an array of strings.
+
+        Args:
+          array_of_strings (list[str]): array of strings.
+
+        Returns:
+          str: formatted array of strings.
+        """
+        return "".join(
+            [
+                f"\t[{string_index:03d}] {self._FormatString(string):s}\n"
+                for string_index, string in enumerate(array_of_strings)
+            ]
+        )
+
     def _FormatIntegerAsEventType(self, integer):
         """Formats an integer as an event type.
 
-- 
2.43.0


From be437b15fcd3b6571ddf00cca5b7ed3f4a1c395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 48/92] fix: refuse BSM tokens with an unsupported net type
 without debug output

---
 dtformats/bsm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index 9c9eefd..ead08c8 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -993,6 +993,10 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         if not token:
             raise errors.ParseError(f"Unsupported token type: {token_type:d}")
 
+        net_type = getattr(token, "net_type", None)
+        if net_type not in (None, 4, 16):
+            raise errors.ParseError(f"Unsupported net type: {net_type:d}")
+
         if self._debug:
             debug_info_name = self._DEBUG_INFO_NAME.get(token.token_type)
             debug_info = self._DEBUG_INFORMATION.get(debug_info_name)
-- 
2.43.0


From 6dc215d5d56be271be86841144fface77f0dc9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 49/92] fix: read all the elements of a BSM data token

---
 dtformats/bsm.debug.yaml | 1 -
 dtformats/bsm.yaml       | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/dtformats/bsm.debug.yaml b/dtformats/bsm.debug.yaml
index 9fd53e5..dd59152 100644
--- a/dtformats/bsm.debug.yaml
+++ b/dtformats/bsm.debug.yaml
@@ -48,7 +48,6 @@ attributes:
   format: hexadecimal_8digits
 ---
 # AUT_DATA token debug information.
-# TODO: improve reading data
 data_type_map: bsm_token_data
 attributes:
 - name: token_type
diff --git a/dtformats/bsm.yaml b/dtformats/bsm.yaml
index 611fda7..cda5a6c 100644
--- a/dtformats/bsm.yaml
+++ b/dtformats/bsm.yaml
@@ -162,7 +162,7 @@ members:
 - name: data
   type: stream
   element_data_type: byte
-  elements_data_size: bsm_token_data.number_of_elements
+  elements_data_size: bsm_token_data.number_of_elements * (1, 2, 4, 8)[bsm_token_data.element_data_type]
 ---
 name: bsm_token_exec_args
 type: structure
-- 
2.43.0


From 71f4157fa2a88741924195fb7414c252bd9abf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 50/92] fix: read the strings of BSM exec tokens up to their
 end

---
 dtformats/bsm.py   | 36 +++++++++++++++++++++++++++++++++++-
 dtformats/bsm.yaml |  4 ----
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index ead08c8..7ee5cce 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -809,6 +809,8 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
 
     _TRAILER_TOKEN_TYPE = 0x13
 
+    _EXEC_TOKEN_TYPES = frozenset([0x3C, 0x3D])
+
     # Name of the debug information per token.
     # TODO: implement and add debug info for token type 0x32
     # TODO: implement and add debug info for token type 0x34 and 0x3b
@@ -987,7 +989,7 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
 
         data_type_map = self._GetDataTypeMap("bsm_token")
 
-        token, _ = self._ReadStructureFromFileObject(
+        token, data_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, description
         )
         if not token:
@@ -997,6 +999,11 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         if net_type not in (None, 4, 16):
             raise errors.ParseError(f"Unsupported net type: {net_type:d}")
 
+        if token.token_type in self._EXEC_TOKEN_TYPES:
+            token.strings = self._ReadTokenStrings(
+                file_object, file_offset + data_size, token.number_of_strings
+            )
+
         if self._debug:
             debug_info_name = self._DEBUG_INFO_NAME.get(token.token_type)
             debug_info = self._DEBUG_INFORMATION.get(debug_info_name)
@@ -1004,6 +1011,33 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
 
         return token
 
+    def _ReadTokenStrings(self, file_object, file_offset, number_of_strings):
+        """Reads the strings of a token.
+
+        Args:
+          file_object (file): file-like object.
+          file_offset (int): offset of the strings relative to the start of
+              the file-like object.
+          number_of_strings (int): number of strings.
+
+        Returns:
+          list[str]: strings.
+
+        Raises:
+          ParseError: if the strings cannot be read.
+        """
+        data_type_map = self._GetDataTypeMap("cstring")
+
+        strings = []
+        for _ in range(number_of_strings):
+            string, data_size = self._ReadStructureFromFileObject(
+                file_object, file_offset, data_type_map, "token string"
+            )
+            strings.append(string)
+            file_offset += data_size
+
+        return strings
+
     def _ReadTokenType(self, file_object, file_offset):
         """Reads a token type.
 
diff --git a/dtformats/bsm.yaml b/dtformats/bsm.yaml
index cda5a6c..e7501ce 100644
--- a/dtformats/bsm.yaml
+++ b/dtformats/bsm.yaml
@@ -174,10 +174,6 @@ members:
   values: [0x3c, 0x3d]
 - name: number_of_strings
   data_type: uint32
-- name: strings
-  type: sequence
-  element_data_type: cstring
-  number_of_elements: bsm_token_exec_args.number_of_strings
 ---
 name: bsm_token_exit
 type: structure
-- 
2.43.0


From 6ec9c0ce3d7719404c70127c3f8b8155c4f50b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:56 +0000
Subject: [PATCH 51/92] fix: show the fraction of a second of HFS date and time
 values of alias data

---
 dtformats/alias_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtformats/alias_data.py b/dtformats/alias_data.py
index 9393f62..4392c2c 100644
--- a/dtformats/alias_data.py
+++ b/dtformats/alias_data.py
@@ -50,7 +50,9 @@ class MacOSLoginItemAliasData(data_format.BinaryDataFile):
         if not date_time_string:
             return f"0x{integer:08x}"
 
-        return f"{date_time_string:s}.{fraction_of_second:03d} UTC"
+        number_of_microseconds = (fraction_of_second * 1000000) // 65536
+
+        return f"{date_time_string:s}.{number_of_microseconds:06d} UTC"
 
     def _ReadRecordHeader(self, file_object, file_offset):
         """Reads a record header.
-- 
2.43.0


From fbcc8116d5f55151359d3e322d536bbb27b6a5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 52/92] fix: refuse bookmark data records with an unsupported
 data type with a ParseError

---
 dtformats/bookmark_data.py | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/dtformats/bookmark_data.py b/dtformats/bookmark_data.py
index 464db90..09010a4 100644
--- a/dtformats/bookmark_data.py
+++ b/dtformats/bookmark_data.py
@@ -50,6 +50,27 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
         )
         return f"{value:s}\n"
 
+    def _GetDataRecordValue(self, data_record, attribute_name):
+        """Retrieves a value of a data record.
+
+        Args:
+          data_record (bookmark_data_record): data record.
+          attribute_name (str): name of the attribute of the value.
+
+        Returns:
+          object: value.
+
+        Raises:
+          ParseError: if the data type of the record does not have the value.
+        """
+        value = getattr(data_record, attribute_name, None)
+        if value is None:
+            raise errors.ParseError(
+                f"Unsupported data type: 0x{data_record.data_type:08x}"
+            )
+
+        return value
+
     def _ReadDataRecord(self, file_object, file_offset):
         """Reads a data record.
 
@@ -120,7 +141,7 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
-            integers_array.append(data_record.integer)
+            integers_array.append(self._GetDataRecordValue(data_record, "integer"))
 
         return integers_array
 
@@ -143,7 +164,7 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
-            strings_array.append(data_record.string)
+            strings_array.append(self._GetDataRecordValue(data_record, "string"))
 
         return strings_array
 
@@ -236,7 +257,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
             elif tagged_value.value_tag == 0x1004:
                 strings_array = self._ReadStringsArray(
-                    file_object, header.data_area_offset, data_record.integers
+                    file_object,
+                    header.data_area_offset,
+                    self._GetDataRecordValue(data_record, "integers"),
                 )
 
                 if self._debug:
@@ -247,7 +270,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
             elif tagged_value.value_tag == 0x1005:
                 integers_array = self._ReadIntegersArray(
-                    file_object, header.data_area_offset, data_record.integers
+                    file_object,
+                    header.data_area_offset,
+                    self._GetDataRecordValue(data_record, "integers"),
                 )
 
                 if self._debug:
@@ -261,7 +286,10 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
             elif tagged_value.value_tag in (0x1010, 0x2020):
                 data_type_map = self._GetDataTypeMap("bookmark_data_property_flags")
                 property_flags = self._ReadStructureFromByteStream(
-                    data_record.data, 0, data_type_map, "Property flags"
+                    self._GetDataRecordValue(data_record, "data"),
+                    0,
+                    data_type_map,
+                    "Property flags",
                 )
 
                 if self._debug:
-- 
2.43.0


From 2faa971aba440e9c10963a1d6d0dae32b93fb1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 53/92] fix: refuse bookmark data records without data with a
 ParseError

---
 dtformats/bookmark_data.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/dtformats/bookmark_data.py b/dtformats/bookmark_data.py
index 09010a4..6f2b568 100644
--- a/dtformats/bookmark_data.py
+++ b/dtformats/bookmark_data.py
@@ -168,6 +168,26 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
         return strings_array
 
+    def _ReadStructureFromDataRecord(self, data_record, data_type_map, description):
+        """Reads a structure from the data of a data record.
+
+        Args:
+          data_record (bookmark_data_record): data record.
+          data_type_map (dtfabric.DataTypeMap): data type map of the structure.
+          description (str): description of the structure.
+
+        Returns:
+          object: structure object or value.
+
+        Raises:
+          ParseError: if the data record has no data or the structure cannot be read.
+        """
+        data = self._GetDataRecordValue(data_record, "data")
+        if not data:
+            raise errors.ParseError(f"Missing data of: {description:s}")
+
+        return self._ReadStructureFromByteStream(data, 0, data_type_map, description)
+
     def _ReadTableOfContents(self, file_object, file_offset):
         """Reads a table of contents (TOC).
 
@@ -245,8 +265,8 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
             if data_record.data_type == 0x00000400:
                 # TODO: change dtFabric to support setting float64be directly in struct
                 data_type_map = self._GetDataTypeMap("float64be")
-                cocoa_timestamp = self._ReadStructureFromByteStream(
-                    data_record.data, 0, data_type_map, "Floating-point 64-bit"
+                cocoa_timestamp = self._ReadStructureFromDataRecord(
+                    data_record, data_type_map, "Floating-point 64-bit"
                 )
 
                 if self._debug:
@@ -285,11 +305,8 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
             elif tagged_value.value_tag in (0x1010, 0x2020):
                 data_type_map = self._GetDataTypeMap("bookmark_data_property_flags")
-                property_flags = self._ReadStructureFromByteStream(
-                    self._GetDataRecordValue(data_record, "data"),
-                    0,
-                    data_type_map,
-                    "Property flags",
+                property_flags = self._ReadStructureFromDataRecord(
+                    data_record, data_type_map, "Property flags"
                 )
 
                 if self._debug:
-- 
2.43.0


From be1a88ad1c3b4a7e433df29705d7622e16fe494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:40 +0000
Subject: [PATCH 54/92] fix: refuse threat tracking data that is not binary
 data or too small with a ParseError

---
 dtformats/detection_history.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dtformats/detection_history.py b/dtformats/detection_history.py
index 6c0026e..df388bc 100644
--- a/dtformats/detection_history.py
+++ b/dtformats/detection_history.py
@@ -3,6 +3,7 @@
 from dtfabric.runtime import data_maps as dtfabric_data_maps
 
 from dtformats import data_format
+from dtformats import errors
 
 
 class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
@@ -98,7 +99,11 @@ class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
 
         Raises:
           OSError: if the threat tracking data cannot be read.
+          ParseError: if the threat tracking data cannot be read.
         """
+        if not threat_tracking_data or not isinstance(threat_tracking_data, bytes):
+            raise errors.ParseError("Unsupported threat tracking data")
+
         if self._debug:
             self._DebugPrintText(
                 (
@@ -122,6 +127,9 @@ class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
             values_data_offset = header.header_size + 4
             values_data_end_offset = header.total_data_size
 
+        if values_data_end_offset > len(threat_tracking_data):
+            raise errors.ParseError("Values data size out of bounds")
+
         while values_data_offset < values_data_end_offset:
             _, data_size = self._ReadThreatTrackingValue(
                 threat_tracking_data[values_data_offset:],
-- 
2.43.0


From c66588f56bca3fc2858755a99ad5750408ce7411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:15 +0000
Subject: [PATCH 55/92] fix: show the category name of custom destinations
 files

---
 dtformats/jump_list.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/jump_list.debug.yaml b/dtformats/jump_list.debug.yaml
index 702d549..c664bce 100644
--- a/dtformats/jump_list.debug.yaml
+++ b/dtformats/jump_list.debug.yaml
@@ -14,7 +14,7 @@ attributes:
 - name: number_of_characters
   description: "Number of characters"
   format: decimal
-- name: cateogy_name
+- name: category_name
   description: "Category name"
   format: string
 - name: category_identifier
-- 
2.43.0


From 3c1e361c8a645f7318c905f738fe6aa32856bc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:48 +0000
Subject: [PATCH 56/92] fix: identify the entries of custom destinations files
 by their offset in the file

---
 dtformats/jump_list.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 575ba62..a224ea2 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -407,11 +407,13 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
 
         return file_header, bytes_read
 
-    def _ReadJumpListEntry(self, file_object):
+    def _ReadJumpListEntry(self, file_object, file_offset):
         """Reads a jump list entry.
 
         Args:
-          file_object (file): file-like object.
+          file_object (file): file-like object of the jump list entry.
+          file_offset (int): offset of the jump list entry relative to the start
+              of the file.
 
         Returns:
           JumpListEntry: a jump list entry.
@@ -419,7 +421,6 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the jump list entry cannot be read.
         """
-        file_offset = file_object.tell()
         if self._debug:
             self._DebugPrintText(f"Reading LNK file at offset: 0x{file_offset:08x}\n")
 
@@ -493,7 +494,9 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
                         data_offset=file_offset,
                         data_size=remaining_file_size,
                     )
-                    jump_list_entry = self._ReadJumpListEntry(data_range_file_object)
+                    jump_list_entry = self._ReadJumpListEntry(
+                        data_range_file_object, file_offset
+                    )
 
                     self._entries.append(jump_list_entry)
 
-- 
2.43.0


From 8acf61f1efa18b3a408c659c8c026555ae2958ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:32 +0000
Subject: [PATCH 57/92] fix: do not close LNK files that could not be opened

---
 dtformats/jump_list.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index a224ea2..e9ea30a 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -44,8 +44,10 @@ class JumpListEntry:
           file_object (file): file-like object that contains the LNK file
               entry data.
         """
-        self.lnk_file = pylnk.file()
-        self.lnk_file.open_file_object(file_object)
+        lnk_file = pylnk.file()
+        lnk_file.open_file_object(file_object)
+
+        self.lnk_file = lnk_file
 
 
 class AutomaticDestinationsFile(data_format.BinaryDataFile):
-- 
2.43.0


From 8d099379816672ec5ece6fd88bbb6b5ad19adcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:05 +0000
Subject: [PATCH 58/92] fix: do not read the data of metafile records beyond
 the record

---
 dtformats/wemf.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 726ff64..f42f19b 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -151,20 +151,23 @@ class EMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("emf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, header_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
         if self._debug:
             self._DebugPrintRecordHeader(record_header)
 
-        data_size = record_header.record_size - (data_offset - file_offset)
+        data_size = record_header.record_size - header_size
 
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
 
         return Record(
-            record_header.record_type, record_header.record_size, data_offset, data_size
+            record_header.record_type,
+            record_header.record_size,
+            file_offset + header_size,
+            data_size,
         )
 
     def _ReadRecordData(self, file_object, record_type, data_size):
@@ -704,7 +707,7 @@ class WMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("wmf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, header_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
@@ -713,12 +716,14 @@ class WMFFile(data_format.BinaryDataFile):
 
         record_size = record_header.record_size * 2
 
-        data_size = record_size - (data_offset - file_offset)
+        data_size = record_size - header_size
 
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
 
-        return Record(record_header.record_type, record_size, data_offset, data_size)
+        return Record(
+            record_header.record_type, record_size, file_offset + header_size, data_size
+        )
 
     def _ReadRecordData(self, file_object, record_type, data_size):
         """Reads a record.
-- 
2.43.0


From 490922b5faaffa4a683739569d07ad77d4953ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:05 +0000
Subject: [PATCH 59/92] fix: refuse metafile records that are smaller than
 their header

---
 dtformats/wemf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index f42f19b..e387647 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -159,6 +159,10 @@ class EMFFile(data_format.BinaryDataFile):
             self._DebugPrintRecordHeader(record_header)
 
         data_size = record_header.record_size - header_size
+        if data_size < 0:
+            raise errors.ParseError(
+                f"Unsupported record size: {record_header.record_size:d}"
+            )
 
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
@@ -717,6 +721,10 @@ class WMFFile(data_format.BinaryDataFile):
         record_size = record_header.record_size * 2
 
         data_size = record_size - header_size
+        if data_size < 0:
+            raise errors.ParseError(
+                f"Unsupported record size: {record_header.record_size:d}"
+            )
 
         if self._debug:
             self._ReadRecordData(file_object, record_header.record_type, data_size)
-- 
2.43.0


From 4e55443a8a3e18a8a4dcb79a79444a066979bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:05 +0000
Subject: [PATCH 60/92] fix: refuse metafile records with too little data with
 a ParseError

---
 dtformats/wemf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index e387647..79ca022 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -197,7 +197,10 @@ class EMFFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse record data with error: {exception!s}"
             )
@@ -756,7 +759,10 @@ class WMFFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse record data with error: {exception!s}"
             )
-- 
2.43.0


From 33a902af7bf1d3f3453d07fbe2eef99bc120a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:05 +0000
Subject: [PATCH 61/92] fix: show the name of the stretch mode of WMF records

---
 dtformats/wemf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 79ca022..9517765 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -776,7 +776,7 @@ class WMFFile(data_format.BinaryDataFile):
 
             elif record_type == 0x0107:
                 stretch_mode_string = (
-                    self._MAP_MODE.GetName(record.stretch_mode) or "UNKNOWN"
+                    self._STRETCH_MODE.GetName(record.stretch_mode) or "UNKNOWN"
                 )
                 self._DebugPrintValue(
                     "Stretch mode",
-- 
2.43.0


From 8b7d2b2fb88cde29a1a5f1985ac2a9b36b5f4531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:23 +0000
Subject: [PATCH 62/92] fix: read EMF records after the complete header record

---
 dtformats/wemf.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 9517765..ce70472 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -117,6 +117,9 @@ class EMFFile(data_format.BinaryDataFile):
         Args:
           file_object (file): file-like object.
 
+        Returns:
+          emf_file_header: file header.
+
         Raises:
           ParseError: if the file header cannot be read.
         """
@@ -132,9 +135,16 @@ class EMFFile(data_format.BinaryDataFile):
             self._DebugPrintFileHeader(file_header)
 
         # TODO: check record type
-        # TODO: check record size
         # TODO: check signature
 
+        # The data of the header record can be smaller or larger than the structure.
+        if file_header.record_size < 88:
+            raise errors.ParseError(
+                f"Unsupported header record size: {file_header.record_size:d}"
+            )
+
+        return file_header
+
     def _ReadRecord(self, file_object, file_offset):
         """Reads a record.
 
@@ -231,9 +241,10 @@ class EMFFile(data_format.BinaryDataFile):
         Args:
           file_object (file): file-like object.
         """
-        self._ReadFileHeader(file_object)
-
         file_offset = file_object.tell()
+        file_header = self._ReadFileHeader(file_object)
+
+        file_offset += file_header.record_size
         while file_offset < self._file_size:
             record = self._ReadRecord(file_object, file_offset)
 
-- 
2.43.0


From 3f20bb20105c6f745d182ae7595a5e898fe41c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:41 +0000
Subject: [PATCH 63/92] fix: refuse LevelDB variable size integers with missing
 data with a ParseError

---
 dtformats/leveldb.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 4ba5e17..4741a02 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -84,8 +84,13 @@ class LevelDBDatabaseFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the integer value cannot be read.
         """
         data_size = len(data)
+        if data_size == 0:
+            raise errors.ParseError("Missing variable size integer data")
 
         byte_value = data[0]
         bytes_read = 1
@@ -102,6 +107,9 @@ class LevelDBDatabaseFile(data_format.BinaryDataFile):
 
             # TODO: check maximum size
 
+        if byte_value & 0x80:
+            raise errors.ParseError("Missing variable size integer data")
+
         return integer_value, bytes_read
 
     @abc.abstractmethod
-- 
2.43.0


From 071d7c32ec1b2da546783eb8075907a50e333222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:41 +0000
Subject: [PATCH 64/92] fix: refuse LevelDB record values beyond the record
 with a ParseError

---
 dtformats/leveldb.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 4741a02..f82bb4c 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -234,6 +234,9 @@ class LevelDBDatabaseLogFile(LevelDBDatabaseFile):
         """
         data_size, bytes_read = self._ReadVariableSizeInteger(data)
 
+        if data_size > len(data) - bytes_read:
+            raise errors.ParseError(f"{description:s} size value out of bounds")
+
         value_data = data[bytes_read : bytes_read + data_size]
 
         if self._debug:
@@ -432,9 +435,18 @@ class LevelDBDatabaseDescriptorFile(LevelDBDatabaseLogFile):
         """
         data_size, bytes_read = self._ReadVariableSizeInteger(data)
 
+        if data_size > len(data) - bytes_read:
+            raise errors.ParseError(f"{description:s} size value out of bounds")
+
         string_data = data[bytes_read : bytes_read + data_size]
 
-        string_value = string_data.decode("utf-8")
+        try:
+            string_value = string_data.decode("utf-8")
+
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode {description:s} string with error: {exception!s}"
+            )
 
         if self._debug:
             value_string, _ = self._FormatIntegerAsDecimal(data_size)
-- 
2.43.0


From ec5b4c5ce552658fc84f00a936353ae13bd853c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:41 +0000
Subject: [PATCH 65/92] fix: refuse LevelDB log records without data with a
 ParseError

---
 dtformats/leveldb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index f82bb4c..8de9cc6 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -207,6 +207,9 @@ class LevelDBDatabaseLogFile(LevelDBDatabaseFile):
         Raises:
           ParseError: if the value header cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing value header data")
+
         data_type_map = self._GetDataTypeMap("leveldb_log_value_header")
 
         value_header = self._ReadStructureFromByteStream(
-- 
2.43.0


From e839f4398a832dbb8b5836e88f1239fc2ed71136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:41 +0000
Subject: [PATCH 66/92] fix: show the record data size of LevelDB log blocks

---
 dtformats/leveldb.debug.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/leveldb.debug.yaml b/dtformats/leveldb.debug.yaml
index e9ae673..ffdeff6 100644
--- a/dtformats/leveldb.debug.yaml
+++ b/dtformats/leveldb.debug.yaml
@@ -5,7 +5,7 @@ attributes:
 - name: checksum
   description: "Checksum"
   format: hexadecimal_8digits
-- name: data_size
+- name: record_data_size
   description: "Record data size"
   format: decimal
 - name: record_type
-- 
2.43.0


From e29ff9f90c718859655fe909a09d727672b4ea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:41 +0000
Subject: [PATCH 67/92] fix: refuse LevelDB blocks that cannot be decompressed
 with a ParseError

---
 dtformats/leveldb.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 8de9cc6..9348d94 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -522,10 +522,24 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
             )
 
         if block_trailer.compression_type == 1:
-            block_data = snappy.decompress(block_data)
+            try:
+                block_data = snappy.decompress(block_data)
+
+            except snappy.UncompressError as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress {description:s} block data with error: "
+                    f"{exception!s}"
+                )
 
         elif block_trailer.compression_type == 2:
-            block_data = zstd.decompress(block_data)
+            try:
+                block_data = zstd.decompress(block_data)
+
+            except zstd.Error as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress {description:s} block data with error: "
+                    f"{exception!s}"
+                )
 
         return block_data
 
-- 
2.43.0


From 47ab882a10405370820e6362b69c699106636e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:41 +0000
Subject: [PATCH 68/92] fix: refuse LevelDB table files without a file footer
 with a ParseError

---
 dtformats/leveldb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 9348d94..30d1c9a 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -605,6 +605,9 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
         Raises:
           ParseError: if the file footer cannot be read.
         """
+        if self._file_size < 48:
+            raise errors.ParseError("Missing file footer data")
+
         data_type_map = self._GetDataTypeMap("leveldb_table_footer")
         file_offset = self._file_size - 48
 
-- 
2.43.0


From 1d9c5bb4cb7b48199109c1be9de19f9110416e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:41 +0000
Subject: [PATCH 69/92] fix: refuse LevelDB tables with too many restart values
 with a ParseError

---
 dtformats/leveldb.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 30d1c9a..4f44674 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -706,6 +706,9 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
         if self._debug:
             self._DebugPrintData(f"{description:s} table data", table_data)
 
+        if table_data_size < 4:
+            raise errors.ParseError("Missing number of restart values data")
+
         data_type_map = self._GetDataTypeMap("uint32le")
         table_data_end_offset = table_data_size - 4
 
@@ -723,6 +726,11 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
         data_type_map = self._GetDataTypeMap("array_of_uint32le")
         table_data_end_offset -= 4 * number_of_restart_values
 
+        if table_data_end_offset < 0:
+            raise errors.ParseError(
+                f"Unsupported number of restart values: {number_of_restart_values:d}"
+            )
+
         context = dtfabric_data_maps.DataTypeMapContext(
             values={"number_of_elements": number_of_restart_values}
         )
-- 
2.43.0


From ca5057659db8bb31ab921fae22a98998f54b4b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:41 +0000
Subject: [PATCH 70/92] fix: refuse LevelDB table entries beyond the table with
 a ParseError

---
 dtformats/leveldb.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 4f44674..5b1f013 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -797,6 +797,12 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
             key_data_size = non_shared_key_data_size
 
             key_data_end_offset = data_offset + key_data_size
+            if (
+                shared_key_data_size > len(shared_key_data)
+                or key_data_end_offset + value_data_size > table_data_end_offset
+            ):
+                raise errors.ParseError(f"Entry: {entry_index:d} data out of bounds")
+
             key_data = table_data[data_offset:key_data_end_offset]
 
             if self._debug:
-- 
2.43.0


From 1dcf9381c6473d917b16f202417cde52961aa0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:41 +0000
Subject: [PATCH 71/92] fix: refuse IndexedDB keys with missing data with a
 ParseError

---
 dtformats/indexeddb.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dtformats/indexeddb.py b/dtformats/indexeddb.py
index c12e233..ff8498d 100644
--- a/dtformats/indexeddb.py
+++ b/dtformats/indexeddb.py
@@ -1,5 +1,6 @@
 """IndexedDB database files."""
 
+from dtformats import errors
 from dtformats import leveldb
 
 
@@ -40,10 +41,22 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
 
         Returns:
           tuple[tuple[int, int, int], int]: key prefix and number of bytes read.
+
+        Raises:
+          ParseError: if the key prefix cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing key prefix data")
+
         byte_value = data[0]
         bytes_read = 1
 
+        key_prefix_size = (
+            4 + (byte_value >> 5) + ((byte_value & 0x1F) >> 2) + (byte_value & 0x03)
+        )
+        if key_prefix_size > len(data):
+            raise errors.ParseError("Missing key prefix data")
+
         database_identifier = 0
         object_store_identifier = 0
         index_identifier = 0
@@ -87,6 +100,9 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
             key_segments = [f"{value:d}" for value in key_prefix]
 
             if key_prefix == (0, 0, 0):
+                if bytes_read >= len(table_entry.key):
+                    raise errors.ParseError("Missing metadata type data")
+
                 metadata_type = int(table_entry.key[bytes_read])
                 bytes_read += 1
 
-- 
2.43.0


From 6f35783127be59cefc834baa2bd3db75dfe0c114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 72/92] fix: refuse Spotlight variable size integers with
 missing data with a ParseError

---
 dtformats/spotlight_storedb.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 657103e..5d54ee1 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -174,7 +174,13 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing variable size integer data")
+
         byte_value = data[0]
         bytes_read = 1
 
@@ -184,6 +190,9 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
                 break
             number_of_additional_bytes += 1
 
+        if number_of_additional_bytes >= len(data):
+            raise errors.ParseError("Missing variable size integer data")
+
         if number_of_additional_bytes > 4:
             byte_value = 0
         elif number_of_additional_bytes > 0:
@@ -1688,6 +1697,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         data_offset += bytes_read
 
+        if data_offset >= len(data):
+            raise errors.ParseError(
+                f"Missing record flags at offset: 0x{page_data_offset:08x}"
+            )
+
         flags = data[data_offset]
 
         data_offset += 1
@@ -1899,7 +1913,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing variable size integer data")
+
         byte_value = data[0]
         bytes_read = 1
 
@@ -1909,6 +1929,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 break
             number_of_additional_bytes += 1
 
+        if number_of_additional_bytes >= len(data):
+            raise errors.ParseError("Missing variable size integer data")
+
         if number_of_additional_bytes > 4:
             byte_value = 0
         elif number_of_additional_bytes > 0:
-- 
2.43.0


From 54a972764b18a26d5c3e24f6ee01bb8fc3e67a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 73/92] fix: refuse Spotlight map pages of which the values do
 not fit

---
 dtformats/spotlight_storedb.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 5d54ee1..56987ee 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -950,6 +950,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
             self._DebugPrintStructureObject(page_header, debug_info)
 
+        page_data_size = page_header.page_size - page_header_size
+        if page_data_size < 0 or page_header.number_of_map_values > page_data_size // 16:
+            raise errors.ParseError(
+                f"Unsupported map page size: {page_header.page_size:d} with number of "
+                f"map values: {page_header.number_of_map_values:d}"
+            )
+
         file_offset += page_header_size
 
         self._ReadMapPageValues(page_header, file_object, file_offset)
-- 
2.43.0


From 0a5e9c26d3194a135ef42416e7d4f06201d2a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 74/92] fix: show the page data of Spotlight map pages from the
 start of the page data

---
 dtformats/spotlight_storedb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 56987ee..0f6fe5b 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -962,7 +962,8 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         self._ReadMapPageValues(page_header, file_object, file_offset)
 
         if self._debug:
-            page_data = file_object.read(page_header.page_size - page_header_size)
+            file_object.seek(file_offset, os.SEEK_SET)
+            page_data = file_object.read(page_data_size)
             self._DebugPrintData("Page data", page_data)
 
         return page_header
-- 
2.43.0


From 8b8f30cfef679c632a87db29dd2087f3f0809639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 75/92] fix: do not show a negative size of trailing data of
 Spotlight file headers

---
 dtformats/spotlight_storedb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 0f6fe5b..f3f8636 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -741,7 +741,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
             self._DebugPrintStructureObject(file_header, debug_info)
 
-        if self._debug:
+        if self._debug and file_header.map_offset > file_header_size:
             trailing_data = file_object.read(file_header.map_offset - file_header_size)
             self._DebugPrintData("Trailing data", trailing_data)
 
-- 
2.43.0


From 8fd44fb22d6813bc7a26e786944314438e45eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 76/92] fix: refuse Spotlight property pages without page data
 with a ParseError

---
 dtformats/spotlight_storedb.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index f3f8636..70c7d09 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1514,6 +1514,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
 
         page_data = file_object.read(page_header.page_size - bytes_read)
+        if not page_data:
+            raise errors.ParseError(
+                f"Missing page data at offset: 0x{file_offset:08x}"
+            )
 
         data_type_map = self._GetDataTypeMap(
             "spotlight_store_db_property_values_header"
@@ -1561,6 +1565,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         page_header, bytes_read = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "property page header"
         )
+        if page_header.page_size <= bytes_read:
+            raise errors.ParseError(
+                f"Unsupported property page size: {page_header.page_size:d}"
+            )
+
         if self._debug:
             block_number = file_offset // 0x1000
             self._DebugPrintDecimalValue("Block number", block_number)
@@ -1761,6 +1770,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
 
         page_data = file_object.read(page_header.page_size - bytes_read)
+        if not page_data:
+            raise errors.ParseError(
+                f"Missing page data at offset: 0x{file_offset:08x}"
+            )
 
         file_offset += bytes_read
 
-- 
2.43.0


From ab54d73fe0b7cbfe69422bdfe89fa8809dfafe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 77/92] fix: refuse a Spotlight chain of property pages that
 does not end

---
 dtformats/spotlight_storedb.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 70c7d09..fbe658d 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1598,8 +1598,15 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the property pages cannot be read.
         """
+        number_of_blocks = self._file_size // 0x1000
+
         file_offset = block_number * 0x1000
         while file_offset != 0:
+            if number_of_blocks <= 0:
+                raise errors.ParseError("Unsupported chain of property pages")
+
+            number_of_blocks -= 1
+
             _, next_block_number = self._ReadPropertyPage(
                 file_object, file_offset, property_table
             )
-- 
2.43.0


From 9e27ee19ef22b467b02604d50af5b14f0e4caeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 78/92] fix: refuse Spotlight record pages that cannot be
 decompressed with a ParseError

---
 dtformats/spotlight_storedb.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index fbe658d..234cb28 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -619,11 +619,21 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         if lz4_block_header.signature == b"bv41":
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
 
-            uncompressed_data = lz4.block.decompress(
-                compressed_data[12:end_of_data_offset],
-                uncompressed_size=lz4_block_header.uncompressed_data_size,
-                dict=previous_uncompressed_data,
-            )
+            try:
+                uncompressed_data = lz4.block.decompress(
+                    compressed_data[12:end_of_data_offset],
+                    uncompressed_size=lz4_block_header.uncompressed_data_size,
+                    dict=previous_uncompressed_data,
+                )
+            except (
+                MemoryError,
+                OverflowError,
+                lz4.block.LZ4BlockError,
+            ) as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress LZ4 block at offset: 0x{file_offset:08x} "
+                    f"with error: {exception!s}"
+                )
 
         elif lz4_block_header.signature == b"bv4-":
             end_of_data_offset = 8 + lz4_block_header.uncompressed_data_size
@@ -1795,7 +1805,13 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 )
 
             elif compressed_page_data[0] == 0x78:
-                page_data = zlib.decompress(compressed_page_data)
+                try:
+                    page_data = zlib.decompress(compressed_page_data)
+                except zlib.error as exception:
+                    raise errors.ParseError(
+                        f"Unable to decompress page data at offset: "
+                        f"0x{file_offset:08x} with error: {exception!s}"
+                    )
 
             # TODO: add support for other compression types.
             else:
-- 
2.43.0


From bd5fe9f994f38bc8641d2bc04ee283c90119f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 79/92] fix: read the values of a Spotlight integer array after
 its data size

---
 dtformats/spotlight_storedb.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 234cb28..68bc87d 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1481,18 +1481,17 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         array_of_values = []
 
-        data_offset = 0
-        while data_offset < data_size:
+        data_offset = bytes_read
+        data_end_offset = bytes_read + data_size
+        while data_offset < data_end_offset:
             integer_value, integer_value_size = self._ReadVariableSizeInteger(
-                data[data_offset:data_size]
+                data[data_offset:data_end_offset]
             )
             data_offset += integer_value_size
 
             array_of_values.append(integer_value)
 
-        bytes_read += data_size
-
-        return array_of_values, bytes_read
+        return array_of_values, data_end_offset
 
     def _ReadPropertyPage(self, file_object, file_offset, property_table):
         """Reads a property page.
-- 
2.43.0


From 7b7642220978940ff38994d06b5b9c4e62b093ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 80/92] fix: read the metadata attributes of a Spotlight record
 up to its end

---
 dtformats/spotlight_storedb.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 68bc87d..0f504ab 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1643,8 +1643,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         record_header, bytes_read = self._ReadRecordHeader(
             page_data[page_data_offset:], page_data_offset
         )
+        # Note that the data size of the record does not include the data size itself.
+        record_data_end_offset = page_data_offset + 4 + record_header.data_size
+
         page_data_offset += bytes_read
-        record_data_offset = bytes_read
 
         metadata_item = SpotlightStoreMetadataItem()
         metadata_item.identifier = record_header.identifier
@@ -1655,9 +1657,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         metadata_attribute_index = 0
         metadata_type_index = 0
 
-        record_data_end_offset = page_data_offset + record_header.data_size
-
-        while record_data_offset < record_header.data_size:
+        while page_data_offset < record_data_end_offset:
             relative_metadata_type_index, bytes_read = self._ReadVariableSizeInteger(
                 page_data[page_data_offset:record_data_end_offset]
             )
@@ -1668,7 +1668,6 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 )
 
             page_data_offset += bytes_read
-            record_data_offset += bytes_read
 
             metadata_type_index += relative_metadata_type_index
 
@@ -1690,7 +1689,6 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
 
             page_data_offset += bytes_read
-            record_data_offset += bytes_read
 
             metadata_item.attributes[metadata_attribute.key] = metadata_attribute
             metadata_attribute_index += 1
@@ -1847,7 +1845,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
             if self._debug:
                 record_data = page_data[
-                    page_data_offset + 4 : page_data_offset + record_header.data_size
+                    page_data_offset + 4 : page_data_offset
+                    + 4
+                    + record_header.data_size
                 ]
                 self._DebugPrintData("Record data", record_data)
 
-- 
2.43.0


From 029ca5b02490daea1c1dc0358865761e6ee518eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 81/92] fix: refuse Spotlight metadata attributes of an unknown
 type with a ParseError

---
 dtformats/spotlight_storedb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 0f504ab..6d6400c 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1684,6 +1684,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 self._DebugPrintDecimalValue(description, metadata_type_index)
 
             metadata_type = self._metadata_types.get(metadata_type_index)
+            if getattr(metadata_type, "value_type", None) is None:
+                raise errors.ParseError(
+                    f"Missing metadata attribute type: {metadata_type_index:d}"
+                )
+
             metadata_attribute, bytes_read = self._ReadMetadataAttribute(
                 metadata_type, page_data[page_data_offset:record_data_end_offset]
             )
-- 
2.43.0


From 4065cf9a6c4791c2a889a86878ff858d9c81451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 82/92] fix: refuse Spotlight string values without a string
 with a ParseError

---
 dtformats/spotlight_storedb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 6d6400c..bdcbc34 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1449,6 +1449,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 f"Unable to parse array of string values with error: {exception!s}"
             )
 
+        if not array_of_values and property_type & 0x03 != 0x02:
+            raise errors.ParseError("Missing string value")
+
         if property_type & 0x03 == 0x03:
             value = array_of_values[0]
             if "\x16\x02" in value:
-- 
2.43.0


From b72814a8405da67a7603a5dad58e7994f8eb07ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 83/92] fix: show Spotlight stores without records

---
 dtformats/spotlight_storedb.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index bdcbc34..9d4f662 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -2102,8 +2102,4 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         if self._debug:
             for record_identifier in sorted(self._record_descriptors.keys()):
-                metadata_item = self._GetMetadataItemByIdentifier(
-                    file_object, record_identifier
-                )
-            # TODO: do something with metadata_item or remove.
-            _ = metadata_item
+                self._GetMetadataItemByIdentifier(file_object, record_identifier)
-- 
2.43.0


From dfd4efc50bce4a7313d7d51744e62107413101de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 84/92] fix: refuse Spotlight binary data beyond the record
 with a ParseError

---
 dtformats/spotlight_storedb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 9d4f662..30e0544 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -1084,6 +1084,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             if self._debug:
                 self._DebugPrintDecimalValue("Data size", data_size)
 
+            if data_size > len(data) - bytes_read:
+                raise errors.ParseError("Binary data size value out of bounds")
+
             value = data[bytes_read : bytes_read + data_size]
             bytes_read += data_size
 
-- 
2.43.0


From 6db2a5b37290ef27cd79fd938128d331355f1780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 85/92] fix: refuse Spotlight streams maps with missing data
 with a ParseError

---
 dtformats/spotlight_storedb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 30e0544..1e76298 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -219,6 +219,8 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
           ParseError: if the file cannot be read.
         """
         data = file_object.read(self._data_size)
+        if len(data) != self._data_size:
+            raise errors.ParseError("Missing streams map data")
 
         for index, value_range in enumerate(self._ranges):
             value_offset, value_size = value_range
-- 
2.43.0


From e74f87be430ecd44934a95778e495e8b248d8d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:24 +0000
Subject: [PATCH 86/92] fix: refuse Spotlight values with missing data with a
 ParseError

---
 dtformats/spotlight_storedb.py | 60 +++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 1e76298..b18c686 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -372,7 +372,10 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
         try:
             offsets_array = data_type_map.MapByteStream(data, context=context)
 
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit offsets with error: {exception!s}"
             )
@@ -606,7 +609,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             lz4_block_header = data_type_map.MapByteStream(compressed_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to map LZ4 block header at offset: 0x{file_offset:08x} "
                 f"with error: {exception!s}"
@@ -785,7 +791,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:]
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -808,7 +817,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     page_data[page_data_offset + page_value_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 page_data_offset += page_value_size
                 raise errors.ParseError(
                     f"Unable to parse index data at offset: 0x{page_data_offset:08x} "
@@ -901,7 +913,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     stream_value[data_offset + padding_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -1143,7 +1158,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of byte values with error: {exception!s}"
             )
@@ -1188,7 +1206,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit floating-point values with error: "
                 f"{exception!s}"
@@ -1234,7 +1255,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 64-bit floating-point values with error: "
                 f"{exception!s}"
@@ -1291,7 +1315,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -1408,7 +1435,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
             try:
                 property_value = data_type_map.MapByteStream(stream_value[data_offset:])
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -1449,7 +1479,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of string values with error: {exception!s}"
             )
@@ -1729,7 +1762,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(data, context=context)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to map record at offset: 0x{page_data_offset:08x} with "
                 f"error: {exception!s}"
-- 
2.43.0


From 4eb020dfab1c4099b66e9dd50e50c44a8991efee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:44 +0000
Subject: [PATCH 87/92] fix: show Spotlight date and time values that are out
 of bounds

---
 dtformats/spotlight_storedb.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index b18c686..f1f9f41 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -468,11 +468,15 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             date_time_string = "Not set (0)"
         else:
             date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=value)
-            date_time_string = date_time.CopyToDateTimeString()
+            try:
+                date_time_string = date_time.CopyToDateTimeString()
+            except (OverflowError, ValueError):
+                date_time_string = None
+
             if date_time_string:
                 date_time_string = f"{date_time_string:s} UTC"
             else:
-                date_time_string = f"0x{value:08x}"
+                date_time_string, _ = self._FormatFloatingPoint(value)
 
         self._DebugPrintValue(description, date_time_string)
 
-- 
2.43.0


From 2658323634a898e1b13e392db45a70c495352f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:42 +0000
Subject: [PATCH 88/92] fix: Place the width of a unified logging format string
 operator before its precision

---
 dtformats/unified_logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 48165ca..4a3cd59 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -304,11 +304,11 @@ class FormatStringOperator:
 
             if self.specifier == "p":
                 self._format_string = (
-                    f"0x{{0:{flags:s}{precision:s}{width:s}{python_specifier:s}}}"
+                    f"0x{{0:{flags:s}{width:s}{precision:s}{python_specifier:s}}}"
                 )
             else:
                 self._format_string = (
-                    f"{{0:{flags:s}{precision:s}{width:s}{python_specifier:s}}}"
+                    f"{{0:{flags:s}{width:s}{precision:s}{python_specifier:s}}}"
                 )
 
         return self._format_string
-- 
2.43.0


From 81b2fdb6652b94d757e75240771f4bcbc1aaa9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:42 +0000
Subject: [PATCH 89/92] fix: Do not fail on a unified logging UUID value of an
 unsupported size

---
 dtformats/unified_logging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 4a3cd59..244d196 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -1946,6 +1946,9 @@ class UUIDFormatStringDecoder(BaseFormatStringDecoder):
         Returns:
           str: formatted UUID value.
         """
+        if len(value) != 16:
+            return "<decode: unsupported value>"
+
         uuid_value = uuid.UUID(bytes=value)
         return f"{uuid_value!s}".upper()
 
-- 
2.43.0


From bc3e22b434cd1155e43659374a2e933dca7adb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:25 +0000
Subject: [PATCH 90/92] fix: Do not look up a unified logging string reference
 in a range after its end

---
 dtformats/unified_logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 244d196..b53f3cd 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2240,7 +2240,7 @@ class DSCFile(data_format.BinaryDataFile):
                 continue
 
             relative_offset = string_reference - range_offset
-            if relative_offset <= range_size:
+            if relative_offset < range_size:
                 if is_dynamic:
                     string = "%s"
                 else:
@@ -5251,7 +5251,7 @@ class UUIDTextFile(data_format.BinaryDataFile):
                 continue
 
             relative_offset = string_reference - entry_descriptor.offset
-            if relative_offset <= entry_descriptor.data_size:
+            if relative_offset < entry_descriptor.data_size:
                 file_offset += relative_offset
                 return self._ReadString(self._file_object, file_offset)
 
-- 
2.43.0


From c7250810c71cccbc2e4f19779f0d5c7937ff1fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:25 +0000
Subject: [PATCH 91/92] fix: Refuse a timesync record whose size is too small

---
 dtformats/unified_logging.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index b53f3cd..e8455ea 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -2394,7 +2394,13 @@ class TimesyncDatabaseFile(data_format.BinaryDataFile):
         file_offset = 0
 
         while file_offset < self._file_size:
-            record, _ = self._ReadRecord(self._file_object, file_offset)
+            record, bytes_read = self._ReadRecord(self._file_object, file_offset)
+            if record.record_size < bytes_read:
+                raise errors.ParseError(
+                    f"Unsupported record size: {record.record_size:d} at offset: "
+                    f"0x{file_offset:08x}"
+                )
+
             yield record
 
             file_offset += record.record_size
-- 
2.43.0


From b2410ee0533f8b1042f50859d2956e632172e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:26 +0000
Subject: [PATCH 92/92] fix: Refuse unified logging trace values with missing
 sizes

---
 dtformats/unified_logging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index e8455ea..18b68af 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -4580,6 +4580,11 @@ class TraceV3File(data_format.BinaryDataFile):
         if not trace.number_of_values:
             return []
 
+        if len(values_data) < 1 + trace.number_of_values:
+            raise errors.ParseError(
+                f"Missing value sizes of: {trace.number_of_values:d} values"
+            )
+
         values = []
 
         value_data_offset = 0
-- 
2.43.0

