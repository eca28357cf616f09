From 17a93a7245045e58f6859e4d0a1c0056c0b69737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:32 +0000
Subject: [PATCH 01/62] fix: find a file by path through any of its same-named
 hard links

get_file_record_by_path() considered only the first matching $FILE_NAME of a
file record, so a file with the same name in two directories was found in one
of them only.
---
 dfir_ntfs/MFT.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 5b6cfdd..b168369 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1076,6 +1076,8 @@ class MasterFileTableParser(object):
 		"""
 
 		def compare_name_against_file_record(name, file_record, case_sensitive):
+			parent_directories = [] # A file can have several hard links (with the same name) in different directories.
+
 			for attr in file_record.attributes():
 				if type(attr) is AttributeRecordNonresident:
 					continue
@@ -1085,11 +1087,11 @@ class MasterFileTableParser(object):
 					continue
 
 				if case_sensitive and attr_value.get_file_name() == name:
-					return attr_value.get_parent_directory()
+					parent_directories.append(attr_value.get_parent_directory())
 				elif (not case_sensitive) and attr_value.get_file_name().upper() == name.upper():
-					return attr_value.get_parent_directory()
+					parent_directories.append(attr_value.get_parent_directory())
 
-			return
+			return parent_directories
 
 		if len(path) == 0:
 			raise MasterFileTableException('An empty path given')
@@ -1117,13 +1119,13 @@ class MasterFileTableParser(object):
 			except MasterFileTableException:
 				pass
 			else:
-				parent_directory = compare_name_against_file_record(last_path_component, file_record, case_sensitive)
-				if file_record.is_in_use() and parent_directory is not None:
-					if not must_be_directory:
-						candidate_parent_directories.append((parent_directory, file_record))
-					else:
-						if file_record.get_flags() & FILE_FILE_NAME_INDEX_PRESENT > 0:
+				for parent_directory in compare_name_against_file_record(last_path_component, file_record, case_sensitive):
+					if file_record.is_in_use():
+						if not must_be_directory:
 							candidate_parent_directories.append((parent_directory, file_record))
+						else:
+							if file_record.get_flags() & FILE_FILE_NAME_INDEX_PRESENT > 0:
+								candidate_parent_directories.append((parent_directory, file_record))
 
 			i += 1
 
@@ -1156,10 +1158,12 @@ class MasterFileTableParser(object):
 				except IndexError:
 					break
 
-				parent_directory = compare_name_against_file_record(path_component, file_record, case_sensitive)
-				if parent_directory is None:
+				parent_directories = compare_name_against_file_record(path_component, file_record, case_sensitive)
+				if len(parent_directories) == 0:
 					break
 
+				parent_directory = parent_directories[0] # A directory has only one parent.
+
 				i += 1
 
 	def build_full_paths(self, file_record, include_attributes = False):
-- 
2.43.0


From ac427f7a18e987aea529469b9328489c3ca6a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:43 +0000
Subject: [PATCH 02/62] fix: treat a parent directory without file names as an
 unknown parent

build_full_paths() raised an exception when a parent file record had no
$FILE_NAME attributes, so no paths were built for the whole file record.
---
 dfir_ntfs/MFT.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index b168369..66c12b5 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1245,7 +1245,13 @@ class MasterFileTableParser(object):
 
 					current_file_record = parent_file_record
 					while True:
-						file_name, parent_reference = get_preferred_file_name(current_file_record)
+						try:
+							file_name, parent_reference = get_preferred_file_name(current_file_record)
+						except MasterFileTableException:
+							# A parent file record has no file names.
+							path_components.append(UNKNOWN_PATH_PLACEHOLDER)
+							break
+
 						parent_segment_number, parent_sequence_number = DecodeFileRecordSegmentReference(parent_reference)
 
 						path_components.append(file_name)
-- 
2.43.0


From 9af3b87a4973a23b37973f427363ed61a160eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:23 +0000
Subject: [PATCH 03/62] fix: reject mapping pairs leading to a negative cluster
 number

With a nonzero volume offset, such a run was read from before the volume.
---
 dfir_ntfs/MFT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 66c12b5..2f42a32 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -159,6 +159,9 @@ def DecodeMappingPairs(MappingPairs):
 			data_runs.append((None, count))
 		else:
 			curr_offset += offset
+			if curr_offset < 0:
+				# Out of a volume.
+				raise MappingPairsException('Invalid mapping pair: negative offset')
 
 			# According to Microsoft, "if this produces a CurrentLcn of 0, then the VCNs from CurrentVcn to NextVcn–1 are unallocated".
 			# However, this is not true for the $Boot file. So, allow the first cluster of a file to be the first cluster of a volume.
-- 
2.43.0


From 85b9c979724d2057463b9db09eb9b27d1879d55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:23 +0000
Subject: [PATCH 04/62] fix: do not return slack space when reading past the
 end of a fragmented file

FragmentedFile.read() with a size going past the end of a file returned the
remaining bytes of the last cluster, which do not belong to the file.
---
 dfir_ntfs/MFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 2f42a32..19b690e 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1468,7 +1468,7 @@ class FragmentedFile(object):
 	def read(self, size = None):
 		"""The read() method for a file in a volume."""
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > self.file_size - self.current_offset_in_file: # Do not read past the end of a file (into its slack space).
 			size = self.file_size - self.current_offset_in_file
 
 		if size <= 0 or self.current_offset_in_file >= self.file_size: # Nothing to read.
-- 
2.43.0


From cb52880b322b151e3fbac095c790adbfc6b7aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:42 +0000
Subject: [PATCH 05/62] fix: do not raise an exception on an out-of-range WSL
 timestamp

A timestamp which cannot be represented aborted the whole parsing. Handle it
like invalid NTFS timestamps (None).
---
 dfir_ntfs/WSL.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/WSL.py b/dfir_ntfs/WSL.py
index c88fd03..f631375 100644
--- a/dfir_ntfs/WSL.py
+++ b/dfir_ntfs/WSL.py
@@ -7,9 +7,12 @@ import struct
 import datetime
 
 def DecodeUnixtime(TimestampSeconds, TimestampNanoseconds):
-	"""Decode the Unixtime timestamp and return the datetime object."""
+	"""Decode the Unixtime timestamp and return the datetime object. If the timestamp is invalid, return None."""
 
-	return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds = TimestampSeconds) + datetime.timedelta(microseconds = TimestampNanoseconds / 1000)
+	try:
+		return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds = TimestampSeconds) + datetime.timedelta(microseconds = TimestampNanoseconds / 1000)
+	except OverflowError:
+		return
 
 class LXXATTR(object):
 	"""This class is used to access Linux extended attributes stored in the LXXATTR extended attribute."""
-- 
2.43.0


From ceb0a85e6c6a2935738a46cd08a6913be9c263e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:42 +0000
Subject: [PATCH 06/62] fix: decode the GUID of a third-party reparse point

The GUID was never decoded when a value came from a file record (a bytearray is
not accepted by the uuid module), an exception was raised instead.
---
 dfir_ntfs/Attributes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index 63c9c04..5d30f1e 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -978,7 +978,10 @@ class ReparsePoint(GenericAttribute):
 		"""Get and return the reparse GUID. Third-party reparse points only!"""
 
 		if not self.is_reparse_tag_microsoft():
-			data = self.value[8 : 24]
+			data = bytes(self.value[8 : 24])
+			if len(data) != 16:
+				return
+
 			return uuid.UUID(bytes_le = data)
 
 	def get_reparse_buffer(self):
-- 
2.43.0


From 1338c5d496f5f103519cb2b1f108c5624c62390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:42 +0000
Subject: [PATCH 07/62] fix: do not decode invalid values of resident
 attributes

A truncated value (or a resident $INDEX_ALLOCATION attribute) in one file record
aborted the whole parsing with an undocumented exception. Return such a value as
a generic attribute instead.
---
 dfir_ntfs/Attributes.py | 10 ++++++++++
 dfir_ntfs/MFT.py        |  5 +++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index 5d30f1e..80f8b74 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -1106,3 +1106,13 @@ AttributeTypes = {
 	ATTR_TYPE_EA: ('$EA', EA),
 	ATTR_TYPE_LOGGED_UTILITY_STREAM: ('$LOGGED_UTILITY_STREAM', LoggedUtilityStream)
 }
+
+# Minimum sizes (in bytes) of values of resident attributes (smaller values are truncated):
+AttributeMinimumSizes = {
+	ATTR_TYPE_STANDARD_INFORMATION: 48,
+	ATTR_TYPE_FILE_NAME: 66,
+	ATTR_TYPE_VOLUME_INFORMATION: 12,
+	ATTR_TYPE_INDEX_ROOT: 32,
+	ATTR_TYPE_REPARSE_POINT: 8,
+	ATTR_TYPE_EA_INFORMATION: 8
+}
diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 19b690e..2437719 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -512,9 +512,10 @@ class AttributeRecordResident(object):
 
 		if self.type_code in Attributes.AttributeTypes.keys():
 			# A known attribute.
-			return Attributes.AttributeTypes[self.type_code][1](self.value)
+			if self.type_code != Attributes.ATTR_TYPE_INDEX_ALLOCATION and len(self.value) >= Attributes.AttributeMinimumSizes.get(self.type_code, 0):
+				return Attributes.AttributeTypes[self.type_code][1](self.value)
 
-		# An unknown attribute.
+		# An unknown attribute (or an invalid one: its value is truncated or cannot be resident).
 		return Attributes.GenericAttribute(self.value)
 
 	def __str__(self):
-- 
2.43.0


From 66d83da05f4048912c3cfe2f66a0078d669e106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:48 +0000
Subject: [PATCH 08/62] fix: do not take directory index entries from outside
 of the used part of a node

An index entry crossing the end of the used part of a node was returned with
bytes not belonging to it (or raised an undocumented exception if truncated).
---
 dfir_ntfs/Attributes.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index 80f8b74..cd47563 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -760,12 +760,15 @@ class IndexRoot(GenericAttribute):
 		index_header = self.get_index_header()
 		index_entry_pos = 16 + index_header.get_first_index_entry()
 		while index_entry_pos < 16 + index_header.get_first_free_byte() and index_entry_pos < len(self.value):
-			index_entry_raw = self.value[index_entry_pos : ]
+			index_entry_raw = self.value[index_entry_pos : 16 + index_header.get_first_free_byte()]
+			if len(index_entry_raw) < 16: # This index entry is truncated.
+				break
+
 			index_entry = IndexEntry(index_entry_raw)
 
 			index_entry_length = index_entry.get_length()
 
-			if index_entry_length < 16 or index_entry.get_attribute_length() == 0: # This index entry is invalid.
+			if index_entry_length < 16 or index_entry_length > len(index_entry_raw) or index_entry.get_attribute_length() == 0: # This index entry is invalid.
 				break
 
 			yield index_entry
@@ -849,12 +852,15 @@ class IndexBuffer(object):
 		index_header = self.get_index_header()
 		index_entry_pos = 24 + index_header.get_first_index_entry()
 		while index_entry_pos < 24 + index_header.get_first_free_byte() and index_entry_pos < len(self.index_buffer_raw):
-			index_entry_raw = self.index_buffer_raw[index_entry_pos : ]
+			index_entry_raw = self.index_buffer_raw[index_entry_pos : 24 + index_header.get_first_free_byte()]
+			if len(index_entry_raw) < 16: # This index entry is truncated.
+				break
+
 			index_entry = IndexEntry(index_entry_raw)
 
 			index_entry_length = index_entry.get_length()
 
-			if index_entry_length < 16 or index_entry.get_attribute_length() == 0: # This index entry is invalid.
+			if index_entry_length < 16 or index_entry_length > len(index_entry_raw) or index_entry.get_attribute_length() == 0: # This index entry is invalid.
 				break
 
 			yield index_entry
-- 
2.43.0


From 7fc22f1fb2fa3f41abfcfeccdcd345b02214a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:54 +0000
Subject: [PATCH 09/62] fix: parse a log file without an NTFS restart area

---
 dfir_ntfs/LogFile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index ed3da2e..a93fa1b 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -716,6 +716,7 @@ class LogFileParser(object):
 
 		self.cluster_size = CLUSTER_SIZE_DEFAULT # Adjusted in the 'collect_lsns' method.
 		self.oat_version = 1 # Adjusted in the 'collect_lsns' method.
+		self.use_dumps = True # Adjusted in the 'collect_lsns' method.
 
 	def lsn_to_offset(self, lsn):
 		"""Convert a log sequence number (LSN) to a file offset, return a (log_page_number, offset_in_page) tuple."""
-- 
2.43.0


From 7ef24319c2e00aa81802d1d94f702a458af81408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:39 +0000
Subject: [PATCH 10/62] fix: do not stop at a log record with invalid client
 data

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index a93fa1b..29b71d1 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1350,7 +1350,7 @@ class LogFileParser(object):
 				client_data = self.get_client_data(lsn)
 				try:
 					client_data_decoded = client_data.data_decoded()
-				except NotImplementedError:
+				except (ClientException, NotImplementedError):
 					pass
 				else:
 					if type(client_data_decoded) is NTFSLogRecord:
-- 
2.43.0


From ccce628ce155543148a61d5c8de571e6a132ac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:39 +0000
Subject: [PATCH 11/62] fix: use a right sequence number when looking for a
 next log record after the wrap

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 29b71d1..1ebc912 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -884,7 +884,7 @@ class LogFileParser(object):
 			if client_data_length < 8 or client_data_length % 8 != 0:
 				return
 
-			seqnum_expected = self.lsn_to_seqnum(lsn)
+			seqnum_expected = self.lsn_to_seqnum(current_lsn)
 
 			if client_data_length <= self.log_page_size - offset_in_page - self.record_header_length: # Client data is in the current log record page only.
 				# Try the current log record page.
-- 
2.43.0


From 0a17a51a1fa3c5ab1c8088264504eda4c6e7f9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:25 +0000
Subject: [PATCH 12/62] fix: handle the wrap of the log file after a log record
 written to several pages

---
 dfir_ntfs/LogFile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 1ebc912..b6ec1aa 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -951,6 +951,12 @@ class LogFileParser(object):
 				# Try the next log record page.
 				candidate_log_page_number += 1
 				candidate_offset_in_page = self.log_page_data_offset
+
+				# Handle the wrap.
+				if candidate_log_page_number * self.log_page_size >= self.file_size:
+					candidate_log_page_number = self.get_wrapped_log_record_page_number()
+					seqnum_expected += 1
+
 				candidate_lsn = self.offset_to_lsn(candidate_log_page_number, candidate_offset_in_page, seqnum_expected)
 
 				candidate_log_record_page = self.get_log_record_page_by_number(candidate_log_page_number)
-- 
2.43.0


From 688749f919b573d50a9001f08acd9d28213812b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:55 +0000
Subject: [PATCH 13/62] fix: do not take log sequence numbers from data which
 is not a log record

---
 dfir_ntfs/LogFile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index b6ec1aa..5682fa8 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -830,6 +830,7 @@ class LogFileParser(object):
 
 			if lsn != log_record_header.get_this_lsn():
 				self.lsns.remove(lsn)
+				continue
 
 			new_lsn = log_record_header.get_client_previous_lsn()
 			new_lsns.add(new_lsn)
-- 
2.43.0


From 70be09495bd26d8b06d661118585c4968da213cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:55 +0000
Subject: [PATCH 14/62] fix: do not read client data of an invalid length over
 and over again

---
 dfir_ntfs/LogFile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 5682fa8..48308c3 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1302,8 +1302,13 @@ class LogFileParser(object):
 			client_buf = log_record_header.buf[self.record_header_length : ]
 			client_data_length_left = client_data_length - len(client_buf)
 
+			log_pages_left = self.file_size // self.log_page_size
 			while client_data_length_left > 0:
+				if log_pages_left == 0: # The length is invalid (client data is larger than the log file).
+					break
+
 				log_page_number += 1
+				log_pages_left -= 1
 
 				# Handle the wrap.
 				if log_page_number * self.log_page_size >= self.file_size:
-- 
2.43.0


From a50e57755ca2b4b5413665693d4b127ac73f6310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:32 +0000
Subject: [PATCH 15/62] fix: do not apply a copy of a log record page to an
 invalid offset

---
 dfir_ntfs/LogFile.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 48308c3..c6d4cff 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -709,6 +709,7 @@ class LogFileParser(object):
 			raise LogFileException('Invalid record header length: {} < {}'.format(self.record_header_length, LogRecordHeader.sizeof))
 
 		self.log_page_data_offset = restart_area.get_log_page_data_offset()
+		self.log_file_size = restart_area.get_file_size()
 
 		self.sequence_number_bits = restart_area.get_sequence_number_bits()
 		if self.sequence_number_bits >= 64 or self.sequence_number_bits < 3:
@@ -1198,6 +1199,14 @@ class LogFileParser(object):
 		self.file_object = self.old_file_object
 		self.writable = False
 
+	def is_valid_page_offset(self, file_offset):
+		"""Check if a given file offset (or None) belongs to a log record page in the "infinite" (circular) area (the file given can be truncated)."""
+
+		if file_offset is None or file_offset % self.log_page_size != 0:
+			return False
+
+		return file_offset >= self.get_wrapped_log_record_page_number() * self.log_page_size and file_offset + self.log_page_size <= max(self.file_size, self.log_file_size)
+
 	def apply_tail_page(self):
 		"""Apply a tail log record page to the log file. The log file version should be 1.1. The file object should be writable."""
 
@@ -1224,6 +1233,8 @@ class LogFileParser(object):
 
 		if single_tail_page is not None: # A proper tail log record page was found.
 			file_offset = single_tail_page.get_file_offset_11()
+			if not self.is_valid_page_offset(file_offset): # This copy is invalid.
+				return
 
 			self.file_object.seek(file_offset)
 			self.file_object.write(single_tail_page.buf_protected)
@@ -1255,6 +1266,8 @@ class LogFileParser(object):
 
 		for fast_page in fast_pages:
 			file_offset = fast_page.get_file_offset_2x()
+			if not self.is_valid_page_offset(file_offset): # This copy is invalid.
+				continue
 
 			self.file_object.seek(file_offset)
 			self.file_object.write(fast_page.buf_protected)
-- 
2.43.0


From a94b0b403d874f2316ca82b04a77e6a96e3d401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:32 +0000
Subject: [PATCH 16/62] fix: do not replace a log record page with an outdated
 tail copy

---
 dfir_ntfs/LogFile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index c6d4cff..81e8d1f 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1236,6 +1236,10 @@ class LogFileParser(object):
 			if not self.is_valid_page_offset(file_offset): # This copy is invalid.
 				return
 
+			current_page = self.get_log_record_page_by_number(file_offset // self.log_page_size)
+			if current_page is not None and current_page.get_last_end_lsn() >= single_tail_page.get_last_end_lsn(): # This copy is out of date.
+				return
+
 			self.file_object.seek(file_offset)
 			self.file_object.write(single_tail_page.buf_protected)
 
-- 
2.43.0


From 672031adae66e97e4a5b152dfb30f372c9dd3fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:50 +0000
Subject: [PATCH 17/62] fix: apply fast log record pages with the end of the
 last log record

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 81e8d1f..3dd4c10 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1261,7 +1261,7 @@ class LogFileParser(object):
 		i = 2
 		while i < 34:
 			fast_page = self.get_log_record_page_by_number(i)
-			if fast_page is not None and fast_page.get_last_lsn() > highest_lsn:
+			if fast_page is not None and fast_page.get_last_lsn() >= highest_lsn: # The last log record can span several pages (and only some of them can be present in the "infinite" area).
 				fast_pages.append(fast_page)
 
 			i += 1
-- 
2.43.0


From c72670cbefa3cc576b65da500b87f5301313704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:56 +0000
Subject: [PATCH 18/62] fix: do not stop at a log record with an invalid offset
 of table data

---
 dfir_ntfs/LogFile.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 3dd4c10..34a0c76 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1385,12 +1385,12 @@ class LogFileParser(object):
 					if type(client_data_decoded) is NTFSLogRecord:
 						redo_op = client_data_decoded.get_redo_operation()
 						if redo_op == OpenNonresidentAttribute:
-							attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
-
 							oat_index = client_data_decoded.get_target_attribute()
-							oat_entry_data = client_data_decoded.get_redo_data()
 
 							try:
+								attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
+								oat_entry_data = client_data_decoded.get_redo_data()
+
 								if self.oat_version >= 1:
 									oat_entry = OpenAttributeEntry1(oat_entry_data)
 								else:
@@ -1401,12 +1401,22 @@ class LogFileParser(object):
 							else:
 								oat[oat_index] = (oat_entry.get_file_reference(), attribute_name)
 						elif self.use_dumps and redo_op == OpenAttributeTableDump:
+							try:
+								dump_data = client_data_decoded.get_redo_data()
+							except ClientException:
+								dump_data = b'' # Something is wrong, treat this dump as an empty one.
+
 							old_oat_dump = latest_oat_dump
-							latest_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
+							latest_oat_dump = OpenAttributeTableDumpParser(dump_data, self.oat_version)
 							oat_dump_count += 1
 						elif self.use_dumps and redo_op == AttributeNamesDump:
+							try:
+								dump_data = client_data_decoded.get_redo_data()
+							except ClientException:
+								dump_data = b'' # Something is wrong, treat this dump as an empty one.
+
 							old_an_dump = latest_an_dump
-							latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
+							latest_an_dump = AttributeNamesDumpParser(dump_data)
 							an_dump_count += 1
 
 						client_data_decoded.oat = oat.copy()
-- 
2.43.0


From 38ace54bb0f8c0d43966e2129baf0dda1124503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:37 +0000
Subject: [PATCH 19/62] fix: do not attribute updates to an outdated open
 attribute entry after a damaged log record

---
 dfir_ntfs/LogFile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 34a0c76..8b103bb 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1396,8 +1396,8 @@ class LogFileParser(object):
 								else:
 									oat_entry = OpenAttributeEntry0(oat_entry_data)
 							except ClientException:
-								# Something is wrong, clear the open attribute table.
-								oat = dict()
+								# Something is wrong, this entry is unknown now (do not use an outdated one).
+								oat[oat_index] = None
 							else:
 								oat[oat_index] = (oat_entry.get_file_reference(), attribute_name)
 						elif self.use_dumps and redo_op == OpenAttributeTableDump:
-- 
2.43.0


From 3f14e019275181ffd95cc9935b4e121709a19e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:37 +0000
Subject: [PATCH 20/62] fix: do not mix attribute names with an open attribute
 table from another checkpoint

---
 dfir_ntfs/LogFile.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 8b103bb..34d5797 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1365,13 +1365,10 @@ class LogFileParser(object):
 		self.sort_lsns()
 
 		for client_id in self.lsns_sorted.keys():
+			pending_oat_dump = None # An open attribute table dump not yet followed by an attribute names dump.
+
 			latest_oat_dump = None
-			old_oat_dump = None
 			latest_an_dump = None
-			old_an_dump = None
-
-			oat_dump_count = 0
-			an_dump_count = 0
 
 			oat = dict()
 
@@ -1406,30 +1403,22 @@ class LogFileParser(object):
 							except ClientException:
 								dump_data = b'' # Something is wrong, treat this dump as an empty one.
 
-							old_oat_dump = latest_oat_dump
-							latest_oat_dump = OpenAttributeTableDumpParser(dump_data, self.oat_version)
-							oat_dump_count += 1
+							pending_oat_dump = OpenAttributeTableDumpParser(dump_data, self.oat_version)
 						elif self.use_dumps and redo_op == AttributeNamesDump:
 							try:
 								dump_data = client_data_decoded.get_redo_data()
 							except ClientException:
 								dump_data = b'' # Something is wrong, treat this dump as an empty one.
 
-							old_an_dump = latest_an_dump
-							latest_an_dump = AttributeNamesDumpParser(dump_data)
-							an_dump_count += 1
+							if pending_oat_dump is not None: # Always use two dumps made together.
+								latest_oat_dump = pending_oat_dump
+								latest_an_dump = AttributeNamesDumpParser(dump_data)
+								pending_oat_dump = None
 
 						client_data_decoded.oat = oat.copy()
 
-						if self.use_dumps and oat_dump_count > 0 and oat_dump_count == an_dump_count:
-							client_data_decoded.oat_dump = latest_oat_dump
-							client_data_decoded.an_dump = latest_an_dump
-						elif self.use_dumps and oat_dump_count > 0 and oat_dump_count != an_dump_count:
-							client_data_decoded.oat_dump = old_oat_dump
-							client_data_decoded.an_dump = old_an_dump
-						else:
-							client_data_decoded.oat_dump = None
-							client_data_decoded.an_dump = None
+						client_data_decoded.oat_dump = latest_oat_dump
+						client_data_decoded.an_dump = latest_an_dump
 
 					yield client_data_decoded
 
-- 
2.43.0


From 3a02f6e59d9c479e8efa955fb32ac6af04f4576a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:24 +0000
Subject: [PATCH 21/62] fix: do not lose an overlay of a null target of a
 forwarder block

---
 dfir_ntfs/ShadowCopy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 81b6fda..87f595a 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -1115,7 +1115,7 @@ class ShadowParser(object):
 			else: # Offsets from the forward lookup should be used entirely.
 				return lookup_in_next_store(forward_offset, True)
 
-		if (not regular_entry_found) and (not do_forward_lookup) and offset in self.current_possible_null_targets and \
+		if (not regular_entry_found) and (not do_forward_lookup) and len(new_offsets) == 0 and offset in self.current_possible_null_targets and \
 		 switch_mode == 0 and self.return_null_blocks: # This is a null target of a forwarder block.
 			return [ None ] * 32
 
@@ -1704,7 +1704,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 			else: # Offsets from the forward lookup should be used entirely.
 				return lookup_in_next_store(forward_offset, True)
 
-		if (not regular_entry_found) and (not do_forward_lookup) and offset in self.current_possible_null_targets and \
+		if (not regular_entry_found) and (not do_forward_lookup) and len(new_offsets) == 0 and offset in self.current_possible_null_targets and \
 		 switch_mode == 0 and self.return_null_blocks: # This is a null target of a forwarder block.
 			return [ (None, None) ] * 32
 
-- 
2.43.0


From ab7171b7cdf5ff7638865a126666b2999eaae24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:39 +0000
Subject: [PATCH 22/62] fix: do not read past the end of a shadow copy

---
 dfir_ntfs/ShadowCopy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 87f595a..e8e4fe3 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -1227,6 +1227,9 @@ class ShadowParser(object):
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
 			return b''
 
+		if size > volume_size - self.current_offset: # The last block can be larger than the data left.
+			size = volume_size - self.current_offset
+
 		block_offset = self.current_offset // 0x4000 * 0x4000
 		offset_in_block = self.current_offset % 0x4000
 
@@ -1771,6 +1774,9 @@ class ShadowParserTwoVolumes(ShadowParser):
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
 			return b''
 
+		if size > volume_size - self.current_offset: # The last block can be larger than the data left.
+			size = volume_size - self.current_offset
+
 		block_offset = self.current_offset // 0x4000 * 0x4000
 		offset_in_block = self.current_offset % 0x4000
 
-- 
2.43.0


From 933dbe52b285e01d767c04f0888897460cd9708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:32 +0000
Subject: [PATCH 23/62] fix: do not follow a loop in a chain of shadow blocks

---
 dfir_ntfs/ShadowCopy.py | 55 ++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index e8e4fe3..0253892 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -702,7 +702,10 @@ class ShadowParser(object):
 		self.control_blocks = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -819,7 +822,10 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -850,7 +856,10 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -871,7 +880,10 @@ class ShadowParser(object):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			location_description_block_buf = self.volume_object.read(0x4000)
 
@@ -910,7 +922,10 @@ class ShadowParser(object):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			diff_area_block_buf = self.volume_object.read(0x4000)
 
@@ -1318,7 +1333,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		self.control_blocks_storage = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -1331,7 +1349,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 			curr_offset = control_block.get_next_control_block_volume_offset()
 
 		curr_offset = self.start_block_storage.get_first_control_block_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			control_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1435,7 +1456,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1466,7 +1490,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1487,7 +1514,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			location_description_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1526,7 +1556,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		seen_offsets = set()
+		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
+			seen_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			diff_area_block_buf = self.volume_storage_object.read(0x4000)
 
-- 
2.43.0


From 40ef8be90192605f5b1844c7375229eeb29c0322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:55 +0000
Subject: [PATCH 24/62] fix: do not fail with an overflow on too large offsets
 of shadow blocks

---
 dfir_ntfs/ShadowCopy.py | 66 +++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 38 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 0253892..f52cd94 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -53,6 +53,15 @@ ShadowCopyInformation = namedtuple('ShadowCopyInformation', [ 'stack_position',
 LocationDescriptionItems = namedtuple('LocationDescriptionItems', [ 'volume_offset', 'store_offset', 'size' ])
 OnDiskTableEntry = namedtuple('OnDiskTableEntry', [ 'original_volume_offset', 'data_block_offset_in_store', 'data_block_volume_offset', 'flags', 'allocation_bitmap' ])
 
+def ReadData(FileObject, Offset, Size):
+	"""Read and return data from a file object at a given offset (no data is returned when the offset is too large for a file)."""
+
+	if Offset > 0x7FFFFFFFFFFFFFFF:
+		return b''
+
+	FileObject.seek(Offset)
+	return FileObject.read(Size)
+
 class ShadowCopyException(Exception):
 	"""This is a top-level exception for this module."""
 
@@ -690,8 +699,7 @@ class ShadowParser(object):
 		self.volume_offset = volume_offset
 		self.volume_size = volume_size
 
-		self.volume_object.seek(self.volume_offset)
-		start_block_buf = self.volume_object.read(8192)
+		start_block_buf = ReadData(self.volume_object, self.volume_offset, 8192)
 
 		try:
 			self.start_block = StartBlock(start_block_buf)
@@ -706,8 +714,7 @@ class ShadowParser(object):
 		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
 			seen_offsets.add(curr_offset)
 
-			self.volume_object.seek(self.volume_offset + curr_offset)
-			control_block_buf = self.volume_object.read(0x4000)
+			control_block_buf = ReadData(self.volume_object, self.volume_offset + curr_offset, 0x4000)
 
 			control_block = ControlBlock(control_block_buf)
 			if control_block.get_volume_offset() != curr_offset:
@@ -826,8 +833,7 @@ class ShadowParser(object):
 		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
 			seen_offsets.add(curr_offset)
 
-			self.volume_object.seek(self.volume_offset + curr_offset)
-			bitmap_block_buf = self.volume_object.read(0x4000)
+			bitmap_block_buf = ReadData(self.volume_object, self.volume_offset + curr_offset, 0x4000)
 
 			bitmap_block = Bitmap(bitmap_block_buf)
 			if bitmap_block.get_volume_offset() != curr_offset:
@@ -860,8 +866,7 @@ class ShadowParser(object):
 		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
 			seen_offsets.add(curr_offset)
 
-			self.volume_object.seek(self.volume_offset + curr_offset)
-			bitmap_block_buf = self.volume_object.read(0x4000)
+			bitmap_block_buf = ReadData(self.volume_object, self.volume_offset + curr_offset, 0x4000)
 
 			bitmap_block = Bitmap(bitmap_block_buf)
 			if bitmap_block.get_volume_offset() != curr_offset:
@@ -884,8 +889,7 @@ class ShadowParser(object):
 		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
 			seen_offsets.add(curr_offset)
 
-			self.volume_object.seek(self.volume_offset + curr_offset)
-			location_description_block_buf = self.volume_object.read(0x4000)
+			location_description_block_buf = ReadData(self.volume_object, self.volume_offset + curr_offset, 0x4000)
 
 			location_description_block = LocationDescription(location_description_block_buf)
 			if location_description_block.get_volume_offset() != curr_offset:
@@ -903,8 +907,7 @@ class ShadowParser(object):
 
 		offset = self.current_cbi3.get_application_information_block_offset()
 		if offset > 0:
-			self.volume_object.seek(self.volume_offset + offset)
-			application_information_block_buf = self.volume_object.read(0x4000)
+			application_information_block_buf = ReadData(self.volume_object, self.volume_offset + offset, 0x4000)
 
 			application_information_block = ApplicationInformation(application_information_block_buf)
 			if application_information_block.get_volume_offset() != offset:
@@ -926,8 +929,7 @@ class ShadowParser(object):
 		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
 			seen_offsets.add(curr_offset)
 
-			self.volume_object.seek(self.volume_offset + curr_offset)
-			diff_area_block_buf = self.volume_object.read(0x4000)
+			diff_area_block_buf = ReadData(self.volume_object, self.volume_offset + curr_offset, 0x4000)
 
 			diff_area_block_buf = DiffAreaTable(diff_area_block_buf)
 			if diff_area_block_buf.get_volume_offset() != curr_offset:
@@ -1160,8 +1162,7 @@ class ShadowParser(object):
 					data += b'\x00' * 512
 
 				else: # A block with data.
-					self.volume_object.seek(self.volume_offset + new_offset)
-					new_data = self.volume_object.read(512)
+					new_data = ReadData(self.volume_object, self.volume_offset + new_offset, 512)
 
 					data += new_data
 
@@ -1177,8 +1178,7 @@ class ShadowParser(object):
 					data += b'ORIGINAL        ' * 32
 
 				else: # A block with different data, return it.
-					self.volume_object.seek(self.volume_offset + new_offset)
-					new_data = self.volume_object.read(512)
+					new_data = ReadData(self.volume_object, self.volume_offset + new_offset, 512)
 
 					data += new_data
 
@@ -1313,11 +1313,9 @@ class ShadowParserTwoVolumes(ShadowParser):
 		self.volume_storage_object = volume_storage_object
 		self.volume_storage_offset = volume_storage_offset
 
-		self.volume_object.seek(self.volume_offset)
-		start_block_buf = self.volume_object.read(8192)
+		start_block_buf = ReadData(self.volume_object, self.volume_offset, 8192)
 
-		self.volume_storage_object.seek(self.volume_storage_offset)
-		start_block_storage_buf = self.volume_storage_object.read(8192)
+		start_block_storage_buf = ReadData(self.volume_storage_object, self.volume_storage_offset, 8192)
 
 		try:
 			self.start_block = StartBlock(start_block_buf)
@@ -1337,8 +1335,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
 			seen_offsets.add(curr_offset)
 
-			self.volume_object.seek(self.volume_offset + curr_offset)
-			control_block_buf = self.volume_object.read(0x4000)
+			control_block_buf = ReadData(self.volume_object, self.volume_offset + curr_offset, 0x4000)
 
 			control_block = ControlBlock(control_block_buf)
 			if control_block.get_volume_offset() != curr_offset:
@@ -1353,8 +1350,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
 			seen_offsets.add(curr_offset)
 
-			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
-			control_block_buf = self.volume_storage_object.read(0x4000)
+			control_block_buf = ReadData(self.volume_storage_object, self.volume_storage_offset + curr_offset, 0x4000)
 
 			control_block = ControlBlock(control_block_buf)
 			if control_block.get_volume_offset() != curr_offset:
@@ -1460,8 +1456,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
 			seen_offsets.add(curr_offset)
 
-			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
-			bitmap_block_buf = self.volume_storage_object.read(0x4000)
+			bitmap_block_buf = ReadData(self.volume_storage_object, self.volume_storage_offset + curr_offset, 0x4000)
 
 			bitmap_block = Bitmap(bitmap_block_buf)
 			if bitmap_block.get_volume_offset() != curr_offset:
@@ -1494,8 +1489,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
 			seen_offsets.add(curr_offset)
 
-			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
-			bitmap_block_buf = self.volume_storage_object.read(0x4000)
+			bitmap_block_buf = ReadData(self.volume_storage_object, self.volume_storage_offset + curr_offset, 0x4000)
 
 			bitmap_block = Bitmap(bitmap_block_buf)
 			if bitmap_block.get_volume_offset() != curr_offset:
@@ -1518,8 +1512,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
 			seen_offsets.add(curr_offset)
 
-			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
-			location_description_block_buf = self.volume_storage_object.read(0x4000)
+			location_description_block_buf = ReadData(self.volume_storage_object, self.volume_storage_offset + curr_offset, 0x4000)
 
 			location_description_block = LocationDescription(location_description_block_buf)
 			if location_description_block.get_volume_offset() != curr_offset:
@@ -1537,8 +1530,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 
 		offset = self.current_cbi3.get_application_information_block_offset()
 		if offset > 0:
-			self.volume_storage_object.seek(self.volume_storage_offset + offset)
-			application_information_block_buf = self.volume_storage_object.read(0x4000)
+			application_information_block_buf = ReadData(self.volume_storage_object, self.volume_storage_offset + offset, 0x4000)
 
 			application_information_block = ApplicationInformation(application_information_block_buf)
 			if application_information_block.get_volume_offset() != offset:
@@ -1560,8 +1552,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 		while curr_offset != 0 and curr_offset not in seen_offsets: # Do not follow a loop.
 			seen_offsets.add(curr_offset)
 
-			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
-			diff_area_block_buf = self.volume_storage_object.read(0x4000)
+			diff_area_block_buf = ReadData(self.volume_storage_object, self.volume_storage_offset + curr_offset, 0x4000)
 
 			diff_area_block_buf = DiffAreaTable(diff_area_block_buf)
 			if diff_area_block_buf.get_volume_offset() != curr_offset:
@@ -1776,8 +1767,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 				data += b'\x00' * 512
 
 			else: # A block with data.
-				file_object.seek(file_object_offset + new_offset)
-				new_data = file_object.read(512)
+				new_data = ReadData(file_object, file_object_offset + new_offset, 512)
 
 				data += new_data
 
-- 
2.43.0


From 4ad251985f8097e9f38af9c9fb87a92e393d0f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:13 +0000
Subject: [PATCH 25/62] fix: do not mix the metadata of two shadow copies after
 an error

---
 dfir_ntfs/ShadowCopy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index f52cd94..1bed8ae 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -776,6 +776,8 @@ class ShadowParser(object):
 		elif cnt > 1:
 			raise ShadowCopyException('Cannot select a shadow copy (more than one found)')
 
+		self.shadow_selected = False # If something is wrong with the metadata, do not mix it with the metadata for the shadow copy selected before.
+
 		# Read the metadata for the shadow copy selected.
 		self.current_volume_size = self.current_cbi2.get_volume_size()
 		self.current_bitmap = self.read_bitmap()
@@ -1399,6 +1401,8 @@ class ShadowParserTwoVolumes(ShadowParser):
 		elif cnt > 1:
 			raise ShadowCopyException('Cannot select a shadow copy (more than one found)')
 
+		self.shadow_selected = False # If something is wrong with the metadata, do not mix it with the metadata for the shadow copy selected before.
+
 		# Read the metadata for the shadow copy selected.
 		self.current_volume_size = self.current_cbi2.get_volume_size()
 		self.current_bitmap = self.read_bitmap()
-- 
2.43.0


From 0c5b32d2f4a09bd33a7c939bc2773027a5722662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:06 +0000
Subject: [PATCH 26/62] fix: do not read a GPT partition entry array which does
 not fit into a volume

---
 dfir_ntfs/PartitionTable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/PartitionTable.py b/dfir_ntfs/PartitionTable.py
index d0c8ab9..5c5423f 100644
--- a/dfir_ntfs/PartitionTable.py
+++ b/dfir_ntfs/PartitionTable.py
@@ -131,6 +131,9 @@ class GPT(object):
 		if size_of_partition_entry < 128 or size_of_partition_entry % 128 != 0:
 			raise ValueError('Invalid partition entry size: {}'.format(size_of_partition_entry))
 
+		if number_of_partition_entries * size_of_partition_entry > self.volume_size - partition_entry_lba * self.sector_size:
+			raise ValueError('Invalid number of partition entries: {}'.format(number_of_partition_entries))
+
 		disk_guid = uuid.UUID(bytes_le = disk_guid_raw)
 
 		# Read and validate the partition entry array (but do not use it).
@@ -177,6 +180,9 @@ class GPT(object):
 		if size_of_partition_entry < 128 or size_of_partition_entry % 128 != 0:
 			raise ValueError('Invalid partition entry size: {}'.format(size_of_partition_entry))
 
+		if number_of_partition_entries * size_of_partition_entry > self.volume_size - partition_entry_lba * self.sector_size:
+			raise ValueError('Invalid number of partition entries: {}'.format(number_of_partition_entries))
+
 		if self.volume_object.seek(partition_entry_lba * self.sector_size) != partition_entry_lba * self.sector_size:
 			raise ValueError('Cannot seek to the GPT partition entry array')
 
-- 
2.43.0


From 56720a5fec78aa9906779668bfcdc4ea4539f93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:06 +0000
Subject: [PATCH 27/62] fix: do not lose logical partitions when there is an
 invalid extended partition

---
 dfir_ntfs/PartitionTable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/PartitionTable.py b/dfir_ntfs/PartitionTable.py
index 5c5423f..a6e145a 100644
--- a/dfir_ntfs/PartitionTable.py
+++ b/dfir_ntfs/PartitionTable.py
@@ -332,7 +332,7 @@ class MBR(object):
 			next_ebr_lba_relative = 0
 
 			if first_ebr_lba == 0:
-				return []
+				continue
 
 			while True:
 				curr_ebr_lba = first_ebr_lba + next_ebr_lba_relative
-- 
2.43.0


From 0235d3b9a6d29016fe14bbc0f2a0a1d4ae1b958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:35 +0000
Subject: [PATCH 28/62] fix: do not report an empty orphan long name

---
 dfir_ntfs/addons/FAT.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index 5ccac7a..1cef584 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -1240,7 +1240,8 @@ class DirectoryEntries(object):
 				if not is_long_entry_valid:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None:
+							yield OrphanLongEntry(long_name_partial)
 
 					# Reset the long name stash and try this entry as the first one in the set.
 					long_entities = []
@@ -1313,7 +1314,8 @@ class DirectoryEntries(object):
 				else:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None:
+							yield OrphanLongEntry(long_name_partial)
 
 					long_name = None
 			else:
@@ -1445,7 +1447,8 @@ class DirectoryEntries(object):
 
 			if len(long_entities) > 0:
 				long_name_partial = BuildLongName(long_entities)
-				yield OrphanLongEntry(long_name_partial)
+				if long_name_partial is not None:
+					yield OrphanLongEntry(long_name_partial)
 
 	def __str__(self):
 		return 'DirectoryEntries'
-- 
2.43.0


From 17416cd5b864249c8d8fa0710960070b6921ed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:35 +0000
Subject: [PATCH 29/62] fix: do not follow a loop to an orphan directory (FAT)

---
 dfir_ntfs/addons/FAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index 1cef584..46a3372 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -1693,7 +1693,7 @@ class FileSystemParser(object):
 				if len(buf) < 512 or buf[32 : 35] != b'.. ' or buf[0 : 2] != b'. ':
 					continue
 
-				for item in process_buf(buf, '<Orphan directory {}>'.format(first_cluster), set([])):
+				for item in process_buf(buf, '<Orphan directory {}>'.format(first_cluster), set([first_cluster])):
 					yield item
 
 	def __str__(self):
-- 
2.43.0


From 2333f4018391afb1c671038e2c7af3a022805685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:35 +0000
Subject: [PATCH 30/62] fix: do not fail on deeply nested directories (FAT)

---
 dfir_ntfs/addons/FAT.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index 46a3372..45c2745 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -1103,6 +1103,8 @@ FileEntry = namedtuple('FileEntry', [ 'is_deleted', 'is_directory', 'short_name'
 
 OrphanLongEntry = namedtuple('OrphanLongEntry', [ 'long_name_partial' ])
 
+Subdirectory = namedtuple('Subdirectory', [ 'buf', 'path', 'stack' ]) # This is used internally.
+
 def ExpandPath(ParentPath, FileEntryOrOrphanLongEntry):
 	if len(ParentPath) > 0 and ParentPath[-1] != PATH_SEPARATOR:
 		ParentPath += PATH_SEPARATOR
@@ -1650,8 +1652,23 @@ class FileSystemParser(object):
 									if bufs_match(new_buf, extra_buf):
 										new_buf += extra_buf
 
-						for item in process_buf(new_buf, parent_path + PATH_SEPARATOR + preferred_name, set(stack)):
-							yield item
+						yield Subdirectory(new_buf, parent_path + PATH_SEPARATOR + preferred_name, set(stack))
+
+		def process_tree(buf, parent_path, stack):
+			# The number of nested directories is not limited, so do not use recursion here.
+
+			generators = [ process_buf(buf, parent_path, stack) ]
+			while len(generators) > 0:
+				try:
+					item = next(generators[-1])
+				except StopIteration:
+					generators.pop()
+					continue
+
+				if type(item) is Subdirectory:
+					generators.append(process_buf(item.buf, item.path, item.stack))
+				else:
+					yield item
 
 
 		reallocated_directories = set()
@@ -1679,7 +1696,7 @@ class FileSystemParser(object):
 			stack = set()
 
 
-		for item in process_buf(buf, '', set(stack)): # Pass a new instance of the set ('stack').
+		for item in process_tree(buf, '', set(stack)): # Pass a new instance of the set ('stack').
 			yield item
 
 		orphan_directories = reallocated_directories - visited_directories
@@ -1693,7 +1710,7 @@ class FileSystemParser(object):
 				if len(buf) < 512 or buf[32 : 35] != b'.. ' or buf[0 : 2] != b'. ':
 					continue
 
-				for item in process_buf(buf, '<Orphan directory {}>'.format(first_cluster), set([first_cluster])):
+				for item in process_tree(buf, '<Orphan directory {}>'.format(first_cluster), set([first_cluster])):
 					yield item
 
 	def __str__(self):
-- 
2.43.0


From e2248d47c086de22f94bda534a5dffd687423fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:35 +0000
Subject: [PATCH 31/62] fix: validate truncated exFAT file names

---
 dfir_ntfs/addons/exFAT.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 7cc3e53..b919bdb 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -125,6 +125,9 @@ def BuildName(NameEntities, NameLength):
 
 	buf = b''.join(NameEntities)
 
+	if NameLength is not None: # If this name is too long, truncate it.
+		buf = buf[ : NameLength * 2]
+
 	# Remove everything after the first null character (including it).
 	i = 0
 	while i < len(buf):
@@ -138,9 +141,6 @@ def BuildName(NameEntities, NameLength):
 	if len(name) == 0: # This is an invalid name.
 		return
 
-	if NameLength is not None and len(name) > NameLength: # This name is too long, truncate it.
-		return name[ : NameLength]
-
 	for character_code in FORBIDDEN_CHARACTERS:
 		character = chr(character_code)
 		if character in name: # This is an invalid name.
-- 
2.43.0


From fdec56b44488e1d1b4760e3a0d9134a67f1bc11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:35 +0000
Subject: [PATCH 32/62] fix: skip exFAT directories which are not a whole
 number of sectors

---
 dfir_ntfs/addons/exFAT.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index b919bdb..0045962 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1262,6 +1262,9 @@ class FileSystemParser(object):
 						if len(new_buf) == 0: # This directory is really empty, skip it.
 							continue
 
+						if len(new_buf) % 512 != 0: # The directory size is invalid, skip this directory.
+							continue
+
 						for item in process_buf(new_buf, parent_path + PATH_SEPARATOR + dir_entry.name, set(stack)):
 							yield item
 
@@ -1291,7 +1294,7 @@ class FileSystemParser(object):
 				except (FileSystemException, ValueError):
 					continue
 
-				if len(buf) < 512 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
+				if len(buf) < 512 or len(buf) % 512 != 0 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
 					continue
 
 				for item in process_buf(buf, '<Orphan directory {}>'.format(first_cluster), set([])):
-- 
2.43.0


From 9749c25d92a3d4f9b2772745ea3a519569869f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:35 +0000
Subject: [PATCH 33/62] fix: do not fail when comparing an invalid timestamp of
 an exFAT directory

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 0045962..29cd97b 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1247,7 +1247,7 @@ class FileSystemParser(object):
 								reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 							else:
 								ts = reallocated_directories_metadata[dir_entry.first_cluster][0]
-								if dir_entry.mtime > ts:
+								if dir_entry.mtime is not None and (ts is None or dir_entry.mtime > ts):
 									reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 
 							continue
-- 
2.43.0


From 3f7f24dacfcfefb7e775f37efa239fd940788a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:35 +0000
Subject: [PATCH 34/62] fix: do not follow a loop to an orphan directory
 (exFAT)

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 29cd97b..cf7d052 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1297,7 +1297,7 @@ class FileSystemParser(object):
 				if len(buf) < 512 or len(buf) % 512 != 0 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
 					continue
 
-				for item in process_buf(buf, '<Orphan directory {}>'.format(first_cluster), set([])):
+				for item in process_buf(buf, '<Orphan directory {}>'.format(first_cluster), set([first_cluster])):
 					yield item
 
 	def __str__(self):
-- 
2.43.0


From 360a52f7712390a76372df0211f00244d8e4a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:35 +0000
Subject: [PATCH 35/62] fix: do not fail on deeply nested directories (exFAT)

---
 dfir_ntfs/addons/exFAT.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index cf7d052..6e5b5eb 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -704,6 +704,8 @@ OrphanEntry = namedtuple('OrphanEntry', [ 'name_partial' ])
 VolumeLabelEntry = namedtuple('VolumeLabelEntry', [ 'volume_label' ])
 AllocationBitmapEntry = namedtuple('AllocationBitmapEntry', [ 'bitmap_id', 'first_cluster', 'size' ])
 
+Subdirectory = namedtuple('Subdirectory', [ 'buf', 'path', 'stack' ]) # This is used internally.
+
 def ExpandPath(ParentPath, FileEntryOrOrphanEntry):
 	if len(ParentPath) > 0 and ParentPath[-1] != PATH_SEPARATOR:
 		ParentPath += PATH_SEPARATOR
@@ -1265,12 +1267,27 @@ class FileSystemParser(object):
 						if len(new_buf) % 512 != 0: # The directory size is invalid, skip this directory.
 							continue
 
-						for item in process_buf(new_buf, parent_path + PATH_SEPARATOR + dir_entry.name, set(stack)):
-							yield item
+						yield Subdirectory(new_buf, parent_path + PATH_SEPARATOR + dir_entry.name, set(stack))
 
 				elif type(dir_entry) is OrphanEntry:
 					yield ExpandPath(parent_path, dir_entry)
 
+		def process_tree(buf, parent_path, stack):
+			# The number of nested directories is not limited, so do not use recursion here.
+
+			generators = [ process_buf(buf, parent_path, stack) ]
+			while len(generators) > 0:
+				try:
+					item = next(generators[-1])
+				except StopIteration:
+					generators.pop()
+					continue
+
+				if type(item) is Subdirectory:
+					generators.append(process_buf(item.buf, item.path, item.stack))
+				else:
+					yield item
+
 
 		reallocated_directories = set()
 		reallocated_directories_metadata = dict()
@@ -1281,7 +1298,7 @@ class FileSystemParser(object):
 
 		stack = set([first])
 
-		for item in process_buf(buf, '', set(stack)): # Pass a new instance of the set ('stack').
+		for item in process_tree(buf, '', set(stack)): # Pass a new instance of the set ('stack').
 			yield item
 
 		orphan_directories = reallocated_directories - visited_directories
@@ -1297,7 +1314,7 @@ class FileSystemParser(object):
 				if len(buf) < 512 or len(buf) % 512 != 0 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
 					continue
 
-				for item in process_buf(buf, '<Orphan directory {}>'.format(first_cluster), set([first_cluster])):
+				for item in process_tree(buf, '<Orphan directory {}>'.format(first_cluster), set([first_cluster])):
 					yield item
 
 	def __str__(self):
-- 
2.43.0


From 80833aade038d09d959f18c8cfaa76ac8c24cef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:35 +0000
Subject: [PATCH 36/62] fix: do not fail when the allocation bitmap is too
 short (exFAT)

---
 dfir_ntfs/addons/exFAT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 6e5b5eb..23140ce 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1043,6 +1043,9 @@ class Bitmap(object):
 		byte_pos = cluster // 8
 		bit_pos = cluster % 8
 
+		if byte_pos >= len(self.bitmap_buf): # The bitmap is truncated.
+			return
+
 		is_allocated = (self.bitmap_buf[byte_pos] >> bit_pos) & 1 > 0
 		return is_allocated
 
-- 
2.43.0


From 9b7476257818301b98e254381307503482dfccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:35 +0000
Subject: [PATCH 37/62] fix: report a truncated boot region (exFAT)

---
 dfir_ntfs/addons/exFAT.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 23140ce..d2f46fc 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -535,6 +535,9 @@ class BR(object):
 		if self.get_mustbezero() != b'\x00' * 53:
 			raise BootRegionException('Invalid (non-zero) null area')
 
+		if len(self.br_buf) < self.get_bytespersector() * 12:
+			raise BootRegionException('Truncated boot region')
+
 		if self.get_checksum() != self.calculate_checksum():
 			raise BootRegionChecksumException('Invalid boot region checksum')
 
-- 
2.43.0


From 32677d33ce56c8a335c112b5d55f7208fa27e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:11 +0000
Subject: [PATCH 38/62] fix: $INDEX_ROOT entries end at the entry carrying the
 end flag

---
 dfir_ntfs/Attributes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index cd47563..c0d29be 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -773,6 +773,9 @@ class IndexRoot(GenericAttribute):
 
 			yield index_entry
 
+			if index_entry.get_flags() & INDEX_ENTRY_END > 0:
+				break
+
 			if index_entry_length % 8 != 0:
 				index_entry_length_aligned = index_entry_length + 8 - index_entry_length % 8
 			else:
-- 
2.43.0


From bcd9711bb4b186689e86008e16f55001d99eb50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:11 +0000
Subject: [PATCH 39/62] fix: an index entry whose attribute leaves the entry is
 invalid

---
 dfir_ntfs/Attributes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/Attributes.py b/dfir_ntfs/Attributes.py
index c0d29be..8c420d4 100644
--- a/dfir_ntfs/Attributes.py
+++ b/dfir_ntfs/Attributes.py
@@ -771,6 +771,9 @@ class IndexRoot(GenericAttribute):
 			if index_entry_length < 16 or index_entry_length > len(index_entry_raw) or index_entry.get_attribute_length() == 0: # This index entry is invalid.
 				break
 
+			if 16 + index_entry.get_attribute_length() > index_entry_length: # The attribute is out of bounds.
+				break
+
 			yield index_entry
 
 			if index_entry.get_flags() & INDEX_ENTRY_END > 0:
@@ -866,6 +869,9 @@ class IndexBuffer(object):
 			if index_entry_length < 16 or index_entry_length > len(index_entry_raw) or index_entry.get_attribute_length() == 0: # This index entry is invalid.
 				break
 
+			if 16 + index_entry.get_attribute_length() > index_entry_length: # The attribute is out of bounds.
+				break
+
 			yield index_entry
 
 			if index_entry.get_flags() & INDEX_ENTRY_END > 0:
-- 
2.43.0


From 967942e71cdaf40ed6b49aa678a740f523070b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:11 +0000
Subject: [PATCH 40/62] fix: do not report a truncated Linux extended attribute

---
 dfir_ntfs/WSL.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/WSL.py b/dfir_ntfs/WSL.py
index f631375..81fbcdb 100644
--- a/dfir_ntfs/WSL.py
+++ b/dfir_ntfs/WSL.py
@@ -59,6 +59,9 @@ class LXXATTR(object):
 
 			value_length = struct.unpack('<H', block_raw[4 : 6])[0]
 
+			if 7 + name_length + value_length > len(block_raw): # This attribute is truncated.
+				break
+
 			name = block_raw[7 : 7 + name_length]
 			value = block_raw[7 + name_length : 7 + name_length + value_length]
 
-- 
2.43.0


From 7f21c0dfa47169612cec50adbbffc48c0fa584e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:11 +0000
Subject: [PATCH 41/62] fix: report an invalid FAT boot sector without a volume
 or FAT size

---
 dfir_ntfs/addons/FAT.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index 45c2745..548ecdb 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -131,6 +131,8 @@ def GetCountOfClusters(BSBPB):
 		totsec = BSBPB.get_bpb_totsec32()
 		if totsec == 0:
 			totsec = BSBPB.get_bs_totsec64()
+			if totsec is None or totsec == 0:
+				raise BootSectorException('Invalid number of sectors (zero)')
 
 	if BSBPB.get_bpb_fatsz16() > 0:
 		RootDirSectors = (BSBPB.get_bpb_rootentcnt() * 32 + BSBPB.get_bpb_bytspersec() - 1) // BSBPB.get_bpb_bytspersec()
@@ -139,7 +141,11 @@ def GetCountOfClusters(BSBPB):
 
 		return CountofClusters
 
-	DataSec = totsec - (BSBPB.get_bpb_rsvdseccnt() + BSBPB.get_bpb_numfats() * BSBPB.get_bpb_fatsz32())
+	fatsz32 = BSBPB.get_bpb_fatsz32()
+	if fatsz32 is None:
+		raise BootSectorException('Invalid FAT size')
+
+	DataSec = totsec - (BSBPB.get_bpb_rsvdseccnt() + BSBPB.get_bpb_numfats() * fatsz32)
 	CountofClusters = DataSec // BSBPB.get_bpb_secperclus()
 
 	return CountofClusters
-- 
2.43.0


From 614d05008a93907e04cd48e2b01d0b8ea78dc2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:11 +0000
Subject: [PATCH 42/62] fix: exFAT cluster heap offset limit follows from the
 volume length

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index d2f46fc..f691553 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -570,7 +570,7 @@ class BR(object):
 		if cluster_heap_offset < fat_offset + fat_length * number_of_fats:
 			raise BootRegionException('Invalid cluster heap offset (too small)')
 
-		if cluster_heap_offset > cluster_count * sectors_per_cluster:
+		if cluster_heap_offset > volume_length - cluster_count * sectors_per_cluster:
 			raise BootRegionException('Invalid cluster heap offset (too large)')
 
 		if cluster_count > 0xFFFFFFF5:
-- 
2.43.0


From c1155ab58d4aeadcb09e66e6f6c906c9b9b0471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:55 +0000
Subject: [PATCH 43/62] fix: skip index entries without a file name (file table
 report)

---
 ntfs_parser | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntfs_parser b/ntfs_parser
index 4e605ff..31bc82b 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -213,7 +213,7 @@ def process_mft(source_tag = None):
 			if attr_index_root is not None:
 				for index_entry in attr_index_root.index_entries():
 					attr_file_name_raw = index_entry.get_attribute()
-					if attr_file_name_raw is None:
+					if attr_file_name_raw is None or len(attr_file_name_raw) <= 66:
 						continue
 
 					attr_file_name = Attributes.FileName(attr_file_name_raw)
-- 
2.43.0


From 0811d2edab1fb440abcddefa0f4bfa177019d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:33 +0000
Subject: [PATCH 44/62] fix: use the parent recorded in an index entry (index
 report)

---
 ntfs_parser | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 31bc82b..9833366 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -765,8 +765,9 @@ def process_indx():
 
 						if attr_file_name.get_parent_directory() != MFT.EncodeFileRecordSegmentReference(parent_mft_number, parent_sequence_number):
 							# This index entry points to a different parent for some reason.
+							real_parent_mft_number, real_parent_sequence_number = MFT.DecodeFileRecordSegmentReference(attr_file_name.get_parent_directory())
 							try:
-								real_parent_file_record = mft.get_file_record_by_number(parent_mft_number, parent_sequence_number)
+								real_parent_file_record = mft.get_file_record_by_number(real_parent_mft_number, real_parent_sequence_number)
 								parent_file_paths = mft.build_full_paths(real_parent_file_record)
 							except MFT.MasterFileTableException:
 								parent_file_path = None
@@ -814,8 +815,9 @@ def process_indx():
 				for attr_file_name in slack_parser.carve():
 					if attr_file_name.get_parent_directory() != MFT.EncodeFileRecordSegmentReference(parent_mft_number, parent_sequence_number):
 						# This index entry points to a different parent for some reason.
+						real_parent_mft_number, real_parent_sequence_number = MFT.DecodeFileRecordSegmentReference(attr_file_name.get_parent_directory())
 						try:
-							real_parent_file_record = mft.get_file_record_by_number(parent_mft_number, parent_sequence_number)
+							real_parent_file_record = mft.get_file_record_by_number(real_parent_mft_number, real_parent_sequence_number)
 							parent_file_paths = mft.build_full_paths(real_parent_file_record)
 						except MFT.MasterFileTableException:
 							parent_file_path = None
-- 
2.43.0


From f3b2950f6f35378167741c763ea5f16f07a0e52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 45/62] fix: a directory index which cannot be read does not
 end the report (index report)

---
 ntfs_parser | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 9833366..e4c8b84 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -734,14 +734,11 @@ def process_indx():
 
 	csv_writer.writerow(['Source', 'MFT reference number', 'Is directory', 'Path', '$FN M timestamp', '$FN A timestamp', '$FN C timestamp', '$FN E timestamp', 'File size'])
 
-	for file_record in mft.file_records():
+	def process_file_record(file_record):
 
 		# Parse this file record.
 
-		try:
-			file_paths = mft.build_full_paths(file_record, True)
-		except MFT.MasterFileTableException:
-			continue
+		file_paths = mft.build_full_paths(file_record, True)
 
 		parent_mft_number = file_record.get_master_file_table_number()
 		parent_sequence_number = file_record.get_sequence_number()
@@ -860,6 +857,12 @@ def process_indx():
 
 					csv_writer.writerow(['Index slack', fr_number, fr_directory, file_path, fn_mtime, fn_atime, fn_ctime, fn_etime, file_size])
 
+	for file_record in mft.file_records():
+		try:
+			process_file_record(file_record)
+		except MFT.MasterFileTableException: # A damaged file record or a directory index which cannot be read.
+			continue
+
 	fs.close()
 
 def process_all_mft():
-- 
2.43.0


From 15a5e973f07111fa9cfa51082263f48ce8191d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:16 +0000
Subject: [PATCH 46/62] fix: invalid redo or undo data does not end the report
 (log report)

---
 ntfs_parser | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index e4c8b84..0920884 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -354,8 +354,16 @@ def process_log():
 		target_attribute_name = None
 		redo_op = log_record.get_redo_operation()
 		undo_op = log_record.get_undo_operation()
-		redo_data = log_record.get_redo_data()
-		undo_data = log_record.get_undo_data()
+
+		try:
+			redo_data = log_record.get_redo_data()
+		except LogFile.ClientException: # The data is invalid.
+			redo_data = b''
+
+		try:
+			undo_data = log_record.get_undo_data()
+		except LogFile.ClientException: # The data is invalid.
+			undo_data = b''
 
 		output_lines.append('LSN: {}'.format(log_record.lsn))
 		output_lines.append('Transaction ID: {}'.format(log_record.transaction_id))
-- 
2.43.0


From 7c25924ee4c984845c850443b9e940fe5cf88891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:16 +0000
Subject: [PATCH 47/62] fix: a truncated index entry does not end the report
 (log report)

---
 ntfs_parser | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 0920884..84d6885 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -616,11 +616,14 @@ def process_log():
 
 		if redo_op == LogFile.AddIndexEntryRoot or redo_op == LogFile.AddIndexEntryAllocation or redo_op == LogFile.WriteEndOfIndexBuffer or undo_op == LogFile.AddIndexEntryRoot or undo_op == LogFile.AddIndexEntryAllocation or undo_op == LogFile.WriteEndOfIndexBuffer:
 			if redo_op == LogFile.AddIndexEntryRoot or redo_op == LogFile.AddIndexEntryAllocation or redo_op == LogFile.WriteEndOfIndexBuffer:
-				index_entry = Attributes.IndexEntry(redo_data)
+				index_entry_buf = redo_data
 			else:
-				index_entry = Attributes.IndexEntry(undo_data)
+				index_entry_buf = undo_data
+
+			attr_value_buf = None
+			if len(index_entry_buf) >= 16:
+				attr_value_buf = Attributes.IndexEntry(index_entry_buf).get_attribute()
 
-			attr_value_buf = index_entry.get_attribute()
 			if attr_value_buf is not None and len(attr_value_buf) > 66:
 				attr_fn = Attributes.FileName(attr_value_buf)
 
-- 
2.43.0


From dafcf0f8e821794bd517e072802a01919307864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:16 +0000
Subject: [PATCH 48/62] fix: a truncated attribute does not end the report (log
 report)

---
 ntfs_parser | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntfs_parser b/ntfs_parser
index 84d6885..37235f4 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -530,7 +530,7 @@ def process_log():
 
 				if value_offset > 0 and value_offset % 8 == 0 and value_length > 0:
 					attr_value_buf = attr_buf[value_offset : value_offset + value_length]
-					if len(attr_value_buf) == value_length:
+					if len(attr_value_buf) == value_length and value_length >= Attributes.AttributeMinimumSizes.get(type_code, 0):
 						if type_code == Attributes.ATTR_TYPE_STANDARD_INFORMATION:
 							attr_si = Attributes.StandardInformation(attr_value_buf)
 
-- 
2.43.0


From 37c0e3fb8721dde0d75d1a447efae4a62118660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:16 +0000
Subject: [PATCH 49/62] fix: a truncated file name does not end the report
 (journal and log reports)

---
 ntfs_parser | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index 37235f4..38f1753 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -308,7 +308,11 @@ def process_usn():
 
 		if type(usn_record) is USN.USN_RECORD_V2_OR_V3:
 			r_timestamp = format_timestamp(usn_record.get_timestamp())
-			fr_file_name = usn_record.get_file_name()
+
+			try:
+				fr_file_name = usn_record.get_file_name()
+			except ValueError: # The file name is truncated.
+				fr_file_name = ''
 		else:
 			r_timestamp = ''
 			fr_file_name = ''
@@ -710,7 +714,11 @@ def process_log():
 
 						if type(usn_record) is USN.USN_RECORD_V2_OR_V3:
 							output_lines.append(' Timestamp: {}'.format(format_timestamp(usn_record.get_timestamp())))
-							output_lines.append(' File name: {}'.format(usn_record.get_file_name()))
+
+							try:
+								output_lines.append(' File name: {}'.format(usn_record.get_file_name()))
+							except ValueError: # The file name is truncated.
+								pass
 
 						output_lines.append('')
 
-- 
2.43.0


From 05d3f73f01449f4b7305a427eea63d6a24ff6f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:19 +0000
Subject: [PATCH 50/62] fix: the header of an open attribute table is not an
 entry

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 34d5797..934390f 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1972,7 +1972,7 @@ class OpenAttributeTableDumpParser(object):
 	def find_file_reference_by_index(self, index):
 		"""Find and return the file reference using the entry index."""
 
-		if index >= len(self.buf):
+		if index < 24 or index >= len(self.buf): # An index pointing to the table header is invalid too.
 			raise ClientException('Invalid index: {}'.format(index))
 
 		open_attribute_entry_buf = self.buf[index : ]
-- 
2.43.0


From 813c1e0be1ce87da281d30ebbec7e0147fd1b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:19 +0000
Subject: [PATCH 51/62] fix: report an invalid (negative) file record segment
 number

---
 dfir_ntfs/MFT.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 2437719..be5d8ec 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1000,8 +1000,8 @@ class MasterFileTableParser(object):
 		"""Get and return a file record segment (FileRecordSegment) by its number."""
 
 		file_record_segment_offset = file_record_segment_number * self.file_record_segment_size
-		if file_record_segment_offset > self.file_size:
-			raise MasterFileTableException('Invalid offset (too large): {}'.format(file_record_segment_offset))
+		if file_record_segment_offset < 0 or file_record_segment_offset > self.file_size:
+			raise MasterFileTableException('Invalid offset (negative or too large): {}'.format(file_record_segment_offset))
 
 		self.file_object.seek(file_record_segment_offset)
 		buf = self.file_object.read(self.file_record_segment_size)
@@ -1015,8 +1015,8 @@ class MasterFileTableParser(object):
 		"""
 
 		base_file_record_segment_offset = base_file_record_segment_number * self.file_record_segment_size
-		if base_file_record_segment_offset > self.file_size:
-			raise MasterFileTableException('Invalid offset (too large): {}'.format(base_file_record_segment_offset))
+		if base_file_record_segment_offset < 0 or base_file_record_segment_offset > self.file_size:
+			raise MasterFileTableException('Invalid offset (negative or too large): {}'.format(base_file_record_segment_offset))
 
 		self.file_object.seek(base_file_record_segment_offset)
 		buf = self.file_object.read(self.file_record_segment_size)
-- 
2.43.0


From 046ca8c2d5a9a661c151879cf9805a80376f0637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:55 +0000
Subject: [PATCH 52/62] fix: report a truncated client record (log file)

---
 dfir_ntfs/LogFile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 934390f..4ae0fd0 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -419,6 +419,9 @@ class ClientRecord(object):
 	def __init__(self, client_record_raw):
 		self.buf = client_record_raw
 
+		if len(self.buf) < 32:
+			raise ClientRecordException('Truncated client record')
+
 		client_name_length = self.get_client_name_length()
 		if client_name_length > 128: # Do not cross the 'sizeof' boundary.
 			raise ClientRecordException('Invalid name length: {}'.format(client_name_length))
-- 
2.43.0


From 63b480f2a59fb542e1339331424532b0a6c467a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:13 +0000
Subject: [PATCH 53/62] fix: report invalid positions and sizes in a boot
 sector and in data runs

---
 dfir_ntfs/MFT.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index be5d8ec..aa84ce6 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1453,7 +1453,11 @@ class FragmentedFile(object):
 
 				offset += virtual_cluster_number - clusters_skipped
 
-				self.volume_object.seek(self.volume_offset + offset * self.cluster_size)
+				position = self.volume_offset + offset * self.cluster_size
+				if position > 0x7FFFFFFFFFFFFFFF: # This position is too large for a file.
+					raise MasterFileTableException('Invalid cluster number: {}'.format(offset))
+
+				self.volume_object.seek(position)
 				data = self.volume_object.read(self.cluster_size)
 
 				if len(data) == 0:
@@ -1528,8 +1532,14 @@ class FileSystemParser(FragmentedFile):
 
 		# Read and parse the first file record segment.
 		frs_size = self.boot.get_file_record_segment_size()
+		if frs_size not in FILE_RECORD_SEGMENT_SIZES_SUPPORTED:
+			raise FileRecordSegmentException('Invalid (unsupported) size of the file record segment: {}'.format(frs_size))
+
 		first_frs_offset = self.boot.get_first_mft_cluster() * self.cluster_size
 
+		if self.volume_offset + first_frs_offset > 0x7FFFFFFFFFFFFFFF: # This position is too large for a file.
+			raise MasterFileTableException('Invalid cluster number of the $MFT file: {}'.format(self.boot.get_first_mft_cluster()))
+
 		self.volume_object.seek(self.volume_offset + first_frs_offset)
 		first_frs_buf = self.volume_object.read(frs_size)
 		first_frs = FileRecordSegment(first_frs_buf, suggested_mft_number = 0)
-- 
2.43.0


From ccfcbd3d2a1039033343be4d0c2f350a05cd684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:13 +0000
Subject: [PATCH 54/62] fix: repeating a search for file control blocks gives
 the same result

---
 dfir_ntfs/MFT.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index aa84ce6..c8bbaba 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1756,6 +1756,10 @@ class MetadataCarver(object):
 				file_pos += 4096
 
 
+		# Forget the offsets guessed before (if any).
+		self.guessed_pos_duplicated_information = None
+		self.guessed_pos_atime_real = None
+
 		pos_dict_dup = {}
 		pos_dict_a = {}
 		c = 0
-- 
2.43.0


From 5d53f084ae2d7e89187855098a99e2c00f53c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:49 +0000
Subject: [PATCH 55/62] fix: use another restart page when a restart area is
 invalid

---
 dfir_ntfs/LogFile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 4ae0fd0..164925a 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -266,6 +266,9 @@ class RestartPage(object):
 		if restart_offset == 0 or restart_offset % 8 != 0 or restart_offset >= len(self.buf) or restart_offset >= system_page_size:
 			raise RestartPageException('Invalid restart offset: {}'.format(restart_offset))
 
+		for __ in self.get_restart_area().clients(): # Validate the restart area and the client records.
+			pass
+
 	def get_chkdsk_lsn(self):
 		"""Get and return the last log sequence number (LSN) found during the chkdsk scan."""
 
@@ -313,6 +316,9 @@ class RestartArea(object):
 	def __init__(self, restart_area_raw, system_page_size):
 		self.buf = restart_area_raw
 
+		if len(self.buf) < 44:
+			raise RestartAreaException('Truncated restart area')
+
 		client_array_offset = self.get_client_array_offset()
 		if client_array_offset == 0 or client_array_offset % 8 != 0 or client_array_offset >= len(self.buf) or client_array_offset >= system_page_size:
 			raise RestartAreaException('Invalid client array offset: {}'.format(client_array_offset))
-- 
2.43.0


From 9e18b5817533a206f4b27b9a2b883e157a81f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:49 +0000
Subject: [PATCH 56/62] fix: do not fail on an invalid client name (log file)

---
 dfir_ntfs/LogFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 164925a..1c797f9 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -466,7 +466,7 @@ class ClientRecord(object):
 		"""Get, decode and return the name of this client."""
 
 		name_raw = self.buf[32 : 32 + self.get_client_name_length()]
-		return name_raw.decode('utf-16le')
+		return name_raw.decode('utf-16le', errors = 'replace')
 
 	def __str__(self):
 		return 'ClientRecord, name: {}, oldest LSN: {}, client restart LSN: {}, sequence number: {}'.format(self.get_client_name(), self.get_oldest_lsn(), self.get_client_restart_lsn(), self.get_sequence_number())
-- 
2.43.0


From 5b295d6231a546fe64c6072542781783cb514f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:47 +0000
Subject: [PATCH 57/62] fix: an invalid tail copy does not hide a valid one
 (log file)

---
 dfir_ntfs/LogFile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 1c797f9..5d3435b 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1225,6 +1225,12 @@ class LogFileParser(object):
 		tail_page_1 = self.get_log_record_page_by_number(2)
 		tail_page_2 = self.get_log_record_page_by_number(3)
 
+		if tail_page_1 is not None and not self.is_valid_page_offset(tail_page_1.get_file_offset_11()): # This copy is invalid.
+			tail_page_1 = None
+
+		if tail_page_2 is not None and not self.is_valid_page_offset(tail_page_2.get_file_offset_11()): # This copy is invalid.
+			tail_page_2 = None
+
 		if tail_page_1 is None and tail_page_2 is None: # Nothing to do, both tail log record pages are invalid.
 			return
 
@@ -1242,8 +1248,6 @@ class LogFileParser(object):
 
 		if single_tail_page is not None: # A proper tail log record page was found.
 			file_offset = single_tail_page.get_file_offset_11()
-			if not self.is_valid_page_offset(file_offset): # This copy is invalid.
-				return
 
 			current_page = self.get_log_record_page_by_number(file_offset // self.log_page_size)
 			if current_page is not None and current_page.get_last_end_lsn() >= single_tail_page.get_last_end_lsn(): # This copy is out of date.
-- 
2.43.0


From 00b0b3cb386c0669c8baf1063949b6b90379eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:44 +0000
Subject: [PATCH 58/62] fix: do not use settings of another state of the log
 file when it is parsed again

---
 dfir_ntfs/LogFile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index 5d3435b..ea34089 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -781,6 +781,11 @@ class LogFileParser(object):
 	def collect_lsns(self):
 		"""Collect valid log sequence numbers (LSNs) found in this log file."""
 
+		# Do not use the values adjusted before (when a different state of the log file was parsed).
+		self.cluster_size = CLUSTER_SIZE_DEFAULT
+		self.oat_version = 1
+		self.use_dumps = True
+
 		self.lsns = set()
 
 		if self.restart_page_1 is not None:
-- 
2.43.0


From eadd4f3e25643d59adccc796206a83afb41f588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:44 +0000
Subject: [PATCH 59/62] fix: discard the recovered log data when parsing stops
 early

---
 dfir_ntfs/LogFile.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index ea34089..a69ce80 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1371,6 +1371,16 @@ class LogFileParser(object):
 		If 'recover_log_data' is True, apply a tail log record page or fast log record pages before parsing the log data.
 		"""
 
+		try:
+			for client_data_decoded in self.parse_ntfs_records_internal(recover_log_data):
+				yield client_data_decoded
+		finally: # The caller can stop before the last record.
+			if recover_log_data:
+				self.discard_changes()
+
+	def parse_ntfs_records_internal(self, recover_log_data):
+		"""This method does the same as the parse_ntfs_records() method, but it does not discard changes made to a writable file object. This method is used internally."""
+
 		if recover_log_data:
 			self.prepare_for_writes()
 
@@ -1440,9 +1450,6 @@ class LogFileParser(object):
 
 					yield client_data_decoded
 
-		if recover_log_data:
-			self.discard_changes()
-
 	def __str__(self):
 		return 'LogFileParser, file size: {}'.format(self.file_size)
 
-- 
2.43.0


From 9c11adf7bc1889f3e8b3d7e09b05c36dd49de301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:44 +0000
Subject: [PATCH 60/62] fix: do not collect child file record segments twice
 when the first pass is repeated

---
 dfir_ntfs/MFT.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index c8bbaba..403d3db 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1295,6 +1295,8 @@ class MasterFileTableParser(object):
 	def execute_first_pass(self):
 		"""Populate a cache of child in-use file record segments, calculate the statistics."""
 
+		self.child_cache = dict() # The first pass can be executed again.
+
 		frs_cnt = 0
 		child_frs_cnt = 0
 
-- 
2.43.0


From 4c873860593e5a5f031bd31bbcb1f877b3fe97f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:12 +0000
Subject: [PATCH 61/62] fix: keep the collected child file record segments when
 a repeated first pass fails

---
 dfir_ntfs/MFT.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 403d3db..999699d 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1295,7 +1295,7 @@ class MasterFileTableParser(object):
 	def execute_first_pass(self):
 		"""Populate a cache of child in-use file record segments, calculate the statistics."""
 
-		self.child_cache = dict() # The first pass can be executed again.
+		child_cache = dict() # The first pass can be executed again, do not lose the current data if it fails.
 
 		frs_cnt = 0
 		child_frs_cnt = 0
@@ -1322,13 +1322,14 @@ class MasterFileTableParser(object):
 				reference_parent = frs.get_base_file_record_segment()
 
 				child_frs_number = pos // self.file_record_segment_size
-				if reference_parent in self.child_cache.keys():
-					self.child_cache[reference_parent].append(child_frs_number)
+				if reference_parent in child_cache.keys():
+					child_cache[reference_parent].append(child_frs_number)
 				else:
-					self.child_cache[reference_parent] = [ child_frs_number ]
+					child_cache[reference_parent] = [ child_frs_number ]
 
 			pos += self.file_record_segment_size
 
+		self.child_cache = child_cache
 		self.statistics = (frs_cnt, child_frs_cnt)
 		self.first_pass_done = True
 
-- 
2.43.0


From 8986735479256a3707fb87faa97b3251c4003461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:19 +0000
Subject: [PATCH 62/62] fix: the signature of an extended boot sector is at its
 end (exFAT)

---
 dfir_ntfs/addons/exFAT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index f691553..86537ee 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -462,8 +462,8 @@ class BR(object):
 		if sector_number < 1 or sector_number > 8:
 			raise ValueError('Invalid extended boot sector number ({})'.format(sector_number))
 
-		offset = self.get_bytespersector() * sector_number
-		return self.br_buf[offset + 508 : offset + 512]
+		offset = self.get_bytespersector() * (sector_number + 1)
+		return self.br_buf[offset - 4 : offset]
 
 	def get_oem_guid(self):
 		"""Get, decode and return the GUID defined in the OEM parameters sector (as an UUID object)."""
-- 
2.43.0

