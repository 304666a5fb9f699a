From 65809e28824f7933e2e298bd171df680271d58e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 01/39] fix: accept samples that were logged including their
 trailing padding

---
 pyulog/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 11e86d0..1eaab40 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -739,7 +739,7 @@ class ULog(object):
             self.timestamp_idx = -1
             self.max_data_size = 0 # Max size of each data point (including padding fields at end)
 
-            self._parse_format(message_formats)
+            self._parse_format(message_formats) # also sets max_data_size
 
             self.timestamp_offset = 0
             for field in self.field_data:
@@ -753,7 +753,6 @@ class ULog(object):
             dtype_list = []
             for field in self.field_data:
                 numpy_type = ULog._UNPACK_TYPES[field.type_str][2]
-                self.max_data_size += ULog._UNPACK_TYPES[field.type_str][1]
                 dtype_list.append((field.field_name, numpy_type))
             self.dtype = np.dtype(dtype_list).newbyteorder('<')
 
@@ -761,6 +760,9 @@ class ULog(object):
         def _parse_format(self, message_formats):
             self._parse_nested_type('', self.message_name, message_formats)
 
+            self.max_data_size = sum(ULog._UNPACK_TYPES[field.type_str][1]
+                                     for field in self.field_data)
+
             # remove padding fields at the end
             while (len(self.field_data) > 0 and
                    self.field_data[-1].field_name.startswith('_padding')):
-- 
2.43.0


From fb9997154c96e93b6d1270762e16788fc17f7149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 02/39] fix: ignore an incomplete last message in the
 definitions section

---
 pyulog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 1eaab40..9044b1c 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -900,10 +900,12 @@ class ULog(object):
         header = self._MessageHeader()
         while True:
             data = self._file_handle.read(3)
-            if not data:
+            if len(data) < 3:
                 break
             header.initialize(data)
             data = self._file_handle.read(header.msg_size)
+            if len(data) < header.msg_size:
+                break # less data than expected. File is most likely cut
             try:
                 if header.msg_type == self.MSG_TYPE_INFO:
                     msg_info = self._MessageInfo(data, header)
-- 
2.43.0


From 490b0a3510b084343670490845f29e1024e8341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 03/39] fix: a malformed message in the data section must not
 end the parsing

---
 pyulog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 9044b1c..a6c2df1 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1122,7 +1122,9 @@ class ULog(object):
                             if self._has_sync:
                                 self._find_sync(header.msg_size)
 
-                except IndexError:
+                except UnicodeDecodeError:
+                    raise # string errors are only tolerated if requested
+                except (IndexError, KeyError, ValueError, struct.error):
                     if not self._file_corrupt:
                         print("File corruption detected while reading file data!")
                         self._file_corrupt = True
-- 
2.43.0


From c748ac5941345e282e4c77d384306a34e3daeba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 04/39] fix: keep the subscriptions across appended sections

---
 pyulog/core.py | 46 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index a6c2df1..765a87c 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -879,6 +879,7 @@ class ULog(object):
 
         # read the whole file, or the rest if data appended
         self._read_file_data(message_name_filter_list)
+        self._finalize_data()
 
         self._file_handle.close()
         del self._file_handle
@@ -1075,11 +1076,10 @@ class ULog(object):
                     elif header.msg_type == self.MSG_TYPE_ADD_LOGGED_MSG:
                         msg_add_logged = self._MessageAddLogged(data, header,
                                                                 self._message_formats)
-                        if (message_name_filter_list is None or
-                                msg_add_logged.message_name in message_name_filter_list):
-                            self._subscriptions[msg_add_logged.msg_id] = msg_add_logged
-                        else:
-                            self._filtered_message_ids.add(msg_add_logged.msg_id)
+                        self._add_subscription(
+                            msg_add_logged,
+                            selected=(message_name_filter_list is None or
+                                      msg_add_logged.message_name in message_name_filter_list))
                     elif header.msg_type == self.MSG_TYPE_LOGGING:
                         msg_logging = self.MessageLogging(data, header)
                         self._logged_messages.append(msg_logging)
@@ -1132,12 +1132,36 @@ class ULog(object):
         except struct.error:
             pass #we read past the end of the file
 
-        # convert into final representation
-        while self._subscriptions:
-            _, value = self._subscriptions.popitem()
-            if len(value.buffer) > 0: # only add if we have data
-                data_item = ULog.Data(value)
-                self._data_list.append(data_item)
+    def _add_subscription(self, msg_add_logged, selected):
+        """
+        add a _MessageAddLogged object. The same message id can be announced again
+        (e.g. in appended data): what was logged for it so far must not get lost.
+        """
+        msg_id = msg_add_logged.msg_id
+        previous = self._subscriptions.get(msg_id)
+        if previous is not None:
+            if (selected and previous.message_name == msg_add_logged.message_name and
+                    previous.multi_id == msg_add_logged.multi_id):
+                return # still the same data
+            del self._subscriptions[msg_id]
+            self._finalize_subscription(previous)
+
+        if selected:
+            self._subscriptions[msg_id] = msg_add_logged
+            self._filtered_message_ids.discard(msg_id)
+        else:
+            self._filtered_message_ids.add(msg_id)
+
+    def _finalize_subscription(self, subscription):
+        """ convert the data of a subscription into the final representation """
+        if len(subscription.buffer) > 0: # only add if we have data
+            self._data_list.append(ULog.Data(subscription))
+
+    def _finalize_data(self):
+        """ convert into final representation (after all sections are read) """
+        for subscription in self._subscriptions.values():
+            self._finalize_subscription(subscription)
+        self._subscriptions = {}
         # Sorting is necessary to be able to compare two ULogs correctly
         self.data_list.sort(key=lambda ds: (ds.name, ds.multi_id))
 
-- 
2.43.0


From fbcc1df623427a17342395199e8fc39e4f851559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 05/39] fix: never read beyond the start of an appended section
 twice

---
 pyulog/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyulog/core.py b/pyulog/core.py
index 765a87c..94a7463 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -900,6 +900,8 @@ class ULog(object):
     def _read_file_definitions(self):
         header = self._MessageHeader()
         while True:
+            if self._reached_appended_data(self._file_handle.tell() + 1):
+                break
             data = self._file_handle.read(3)
             if len(data) < 3:
                 break
@@ -907,6 +909,8 @@ class ULog(object):
             data = self._file_handle.read(header.msg_size)
             if len(data) < header.msg_size:
                 break # less data than expected. File is most likely cut
+            if self._reached_appended_data(self._file_handle.tell()):
+                break # the last message before the appended data is incomplete
             try:
                 if header.msg_type == self.MSG_TYPE_INFO:
                     msg_info = self._MessageInfo(data, header)
@@ -968,6 +972,11 @@ class ULog(object):
                     print("File corruption detected while reading file definitions!")
                     self._file_corrupt = True
 
+    def _reached_appended_data(self, offset):
+        """ check if a file offset is behind the start of the first appended section """
+        return bool(self.has_data_appended and len(self._appended_offsets) > 0 and
+                    offset > self._appended_offsets[0])
+
     def _find_sync(self, last_n_bytes=-1):
         """
         read the file from a given location until the end of sync_byte sequence is found
@@ -1121,6 +1130,7 @@ class ULog(object):
                             # seek back msg_size to look for sync sequence in payload
                             if self._has_sync:
                                 self._find_sync(header.msg_size)
+                        curr_file_pos = self._file_handle.tell()
 
                 except UnicodeDecodeError:
                     raise # string errors are only tolerated if requested
-- 
2.43.0


From c7523d7ba6027dbb5f7a9aba5a685da0d96a2d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 06/39] fix: loading a log in another thread must not change
 how strings are parsed

---
 pyulog/core.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 94a7463..0eda143 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -4,6 +4,7 @@ import struct
 import copy
 import sys
 import contextlib
+import threading
 import numpy as np
 #pylint: disable=too-many-instance-attributes, unused-argument, missing-docstring
 #pylint: disable=protected-access, too-many-branches
@@ -22,6 +23,12 @@ else:
         return str(cstr)
 
 
+class _StringParsing(threading.local):
+    """ string parsing options of the load in progress in the current thread """
+    # when set to True disables string parsing exceptions
+    disable_exceptions = False
+
+
 class ULog(object):
     """
     This class parses an ulog file
@@ -76,8 +83,7 @@ class ULog(object):
     _unpack_ushort = struct.Struct('<H').unpack
     _unpack_uint64 = struct.Struct('<Q').unpack
 
-    # when set to True disables string parsing exceptions
-    _disable_str_exceptions = False
+    _string_parsing = _StringParsing()
 
     @staticmethod
     def parse_string(cstr):
@@ -86,7 +92,7 @@ class ULog(object):
         parametrized exception handling
         """
         ret = ''
-        if _RUNNING_PYTHON3 and ULog._disable_str_exceptions:
+        if _RUNNING_PYTHON3 and ULog._string_parsing.disable_exceptions:
             ret = _parse_string(cstr, 'ignore')
         else:
             ret = _parse_string(cstr)
@@ -132,7 +138,7 @@ class ULog(object):
         self._has_sync = True # set to false when first file search for sync fails
         self._sync_seq_cnt = 0 # number of sync packets found in file
 
-        ULog._disable_str_exceptions = disable_str_exceptions
+        ULog._string_parsing.disable_exceptions = disable_str_exceptions
 
         if log_file is not None:
             self._load_file(log_file, message_name_filter_list, parse_header_only)
-- 
2.43.0


From 869d03238d857a3e18491c0939a92120f360ea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 07/39] fix: load unbuffered files completely

---
 pyulog/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyulog/core.py b/pyulog/core.py
index 0eda143..25d1a42 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1,6 +1,7 @@
 """ Main Module to load and parse an ULog file """
 
 import struct
+import io
 import copy
 import sys
 import contextlib
@@ -860,6 +861,9 @@ class ULog(object):
         """ load and parse an ULog file into memory """
         if isinstance(log_file, str):
             self._file_handle = open(log_file, "rb") #pylint: disable=consider-using-with
+        elif isinstance(log_file, io.RawIOBase):
+            # an unbuffered file can return less data than requested
+            self._file_handle = io.BufferedReader(log_file)
         else:
             self._file_handle = log_file
 
-- 
2.43.0


From f23ef22cffad0bca38d84136ba38580c5b4ec9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 08/39] fix: write char fields that are not ASCII

---
 pyulog/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 25d1a42..5b81942 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -440,10 +440,9 @@ class ULog(object):
                     field_encoding = self._UNPACK_TYPES[field_type][0]
                     field_data = data_set.data[field_name][i_sample]
 
-                    # For char type, convert np.int8 into single bytes() object
-                    # so that struct.pack can handle it
+                    # For char type, the data is np.int8
                     if field_encoding == 'c':
-                        field_data = bytes(chr(field_data), 'utf-8')
+                        field_encoding = 'b'
 
                     data.extend(struct.pack('<' + field_encoding, field_data))
 
-- 
2.43.0


From cd86de7e8a087c7b66396178c82dd6d6f1226fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 09/39] fix: write information messages of any array type

---
 pyulog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 5b81942..213a832 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -366,8 +366,8 @@ class ULog(object):
         if value_type.startswith('char['):
             value_bytes = bytes(value, 'utf-8')
             data.extend(value_bytes)
-        elif value_type.startswith('uint8_t['):
-            data.extend(value)
+        elif isinstance(value, (bytes, bytearray)):
+            data.extend(value) # array (or non-basic type), kept as it was read
         else:
             code = self._UNPACK_TYPES[value_type][0]
             data.extend(struct.pack('<' + code, value))
-- 
2.43.0


From 310eb48b0f26ab543f1e1830f52af6f29ac970bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 10/39] fix: hashing an open log file must not move its
 position

---
 pyulog/db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 9ce7ff3..a9bee76 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -122,11 +122,14 @@ class DatabaseULog(ULog):
 
         file_hash = hashlib.sha256()
         with file_context as open_file:
+            position = open_file.tell() if open_file.seekable() else None
             while True:
                 block = open_file.read(4096)
                 file_hash.update(block)
                 if block == b'':
                     break
+            if position is not None:
+                open_file.seek(position)
         return file_hash.hexdigest()
 
 
-- 
2.43.0


From 41a9b5ec31bb83a1d24cfe88ddbf58700d87bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 11/39] fix: write logs completely to unbuffered files

---
 pyulog/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyulog/core.py b/pyulog/core.py
index 213a832..6fdb832 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -246,6 +246,13 @@ class ULog(object):
 
     def write_ulog(self, log_file):
         """ write current data back into a ulog file """
+        if isinstance(log_file, io.RawIOBase):
+            # an unbuffered file can write less data than requested
+            buffered_file = io.BufferedWriter(log_file)
+            self.write_ulog(buffered_file)
+            buffered_file.detach()
+            return
+
         if isinstance(log_file, str):
             handle = open(log_file, "wb")
         else:
-- 
2.43.0


From acbaf1be0852a7ccf3211af596e433e7b9f8514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 12/39] fix: a failed save must not leave a primary key behind

---
 pyulog/db.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index a9bee76..8d660f5 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -530,7 +530,7 @@ class DatabaseULog(ULog):
                     self._sha256sum,
                 )
             )
-            self._pk = cur.lastrowid
+            primary_key = cur.lastrowid
 
             # appended_offsets
             cur.executemany('''
@@ -541,7 +541,7 @@ class DatabaseULog(ULog):
                 ''', [(
                     list_index,
                     offset,
-                    self._pk,
+                    primary_key,
                 ) for list_index, offset in enumerate(self._appended_offsets)])
 
             # data_list
@@ -556,7 +556,7 @@ class DatabaseULog(ULog):
                         dataset.multi_id,
                         dataset.msg_id,
                         dataset.timestamp_idx,
-                        self._pk,
+                        primary_key,
                     )
                 )
                 dataset_id = cur.lastrowid
@@ -602,7 +602,7 @@ class DatabaseULog(ULog):
                 ''', [(
                     dropout.timestamp,
                     dropout.duration,
-                    self._pk,
+                    primary_key,
                 ) for dropout in self._dropouts])
 
             # logged_messages
@@ -615,7 +615,7 @@ class DatabaseULog(ULog):
                     message.log_level,
                     message.timestamp,
                     message.message,
-                    self._pk,
+                    primary_key,
                 ) for message in self._logged_messages])
 
             # logged_messages_tagged
@@ -630,7 +630,7 @@ class DatabaseULog(ULog):
                         message.timestamp,
                         tag,
                         message.message,
-                        self._pk,
+                        primary_key,
                     ) for message in messages])
 
             # message_formats
@@ -640,7 +640,7 @@ class DatabaseULog(ULog):
                     (Name, ULogId)
                     VALUES
                     (?, ?)
-                    ''', (name, self._pk))
+                    ''', (name, primary_key))
                 format_id = cur.lastrowid
                 cur.executemany('''
                     INSERT INTO ULogMessageFormatField
@@ -659,7 +659,7 @@ class DatabaseULog(ULog):
                     key,
                     value,
                     self._msg_info_dict_types[key],
-                    self._pk,
+                    primary_key,
                 ) for key, value in self.msg_info_dict.items()])
 
             # msg_info_multiple_dict
@@ -669,7 +669,7 @@ class DatabaseULog(ULog):
                     (Key, Typename, ULogId)
                     VALUES
                     (?, ?, ?)
-                    ''', (key, self._msg_info_multiple_dict_types[key], self._pk))
+                    ''', (key, self._msg_info_multiple_dict_types[key], primary_key))
                 message_id = cur.lastrowid
                 for list_index, message_list in enumerate(lists):
                     cur.execute('''
@@ -699,7 +699,7 @@ class DatabaseULog(ULog):
                 ''', [(
                     key,
                     value,
-                    self._pk,
+                    primary_key,
                 ) for key, value in self.initial_parameters.items()])
 
             # _default_parameters
@@ -713,7 +713,7 @@ class DatabaseULog(ULog):
                         default_type,
                         key,
                         value,
-                        self._pk,
+                        primary_key,
                     ) for key, value in parameters.items()])
 
             # changed_parameters
@@ -726,10 +726,11 @@ class DatabaseULog(ULog):
                     timestamp,
                     key,
                     value,
-                    self._pk,
+                    primary_key,
                 ) for timestamp, key, value in self.changed_parameters])
 
             cur.close()
+        self._pk = primary_key # only known to be valid after the commit
 
     def delete(self):
         '''
-- 
2.43.0


From aef04a586a51ffc8cdd875556f9627cb95d233c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 13/39] fix: read a stored log in a single transaction

---
 pyulog/db.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 8d660f5..32f771f 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -220,12 +220,13 @@ class DatabaseULog(ULog):
         Even if the log was originally saved with append_json=True, this
         function will always use the faster BLOB column for retrieval.
         '''
-        if not DatabaseULog.exists_in_db(self._db, self._pk):
-            raise KeyError(f'No ULog in database with Id={self._pk}')
-
         with self._db() as con:
             cur = con.cursor()
 
+            # Read everything in one transaction, the log could be deleted or
+            # replaced by another process meanwhile.
+            cur.execute('BEGIN')
+
             # ULog metadata
             cur.execute('''
                 SELECT FileVersion,
@@ -240,6 +241,8 @@ class DatabaseULog(ULog):
                 WHERE Id = ?
                 ''', (self._pk,))
             ulog_result = cur.fetchone()
+            if ulog_result is None:
+                raise KeyError(f'No ULog in database with Id={self._pk}')
             self._file_version = ulog_result[0]
             self._start_timestamp = ulog_result[1]
             self._last_timestamp = ulog_result[2]
@@ -448,6 +451,8 @@ class DatabaseULog(ULog):
             return existing_dataset
 
         with db_context:
+            if db_cursor is None:
+                cur.execute('BEGIN')
             cur.execute('''
                 SELECT Id, TimestampIndex, MessageId
                 FROM ULogDataset
-- 
2.43.0


From 506102f4f7270900851daa7e8cf07fc04ad2797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 14/39] fix: loading a stored log again must not duplicate its
 content

---
 pyulog/db.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 32f771f..caf29ea 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -260,8 +260,7 @@ class DatabaseULog(ULog):
                 ORDER BY SeriesIndex
                 ''', (self._pk,))
             offsets_result = cur.fetchall()
-            for offset, in offsets_result:
-                self._appended_offsets.append(offset)
+            self._appended_offsets = [offset for offset, in offsets_result]
 
             # data_list
             self._data_list = []
@@ -281,6 +280,7 @@ class DatabaseULog(ULog):
                 self._data_list.append(dataset)
 
             # dropouts
+            self._dropouts = []
             cur.execute('''
                 SELECT Timestamp, Duration
                 FROM ULogMessageDropout
@@ -295,6 +295,7 @@ class DatabaseULog(ULog):
                 )
 
             # logged_messages
+            self._logged_messages = []
             cur.execute('''
                 SELECT LogLevel, Timestamp, Message
                 FROM ULogMessageLogging
@@ -310,6 +311,7 @@ class DatabaseULog(ULog):
                 )
 
             # logged_messages_tagged
+            self._logged_messages_tagged = {}
             cur.execute('''
                 SELECT LogLevel, Tag, Timestamp, Message
                 FROM ULogMessageLoggingTagged
@@ -328,6 +330,7 @@ class DatabaseULog(ULog):
                 )
 
             # message_formats
+            self._message_formats = {}
             cur.execute('''
                 SELECT
                     msg.Name,
@@ -404,6 +407,7 @@ class DatabaseULog(ULog):
                 self._default_parameters[default_type][key] = value
 
             # changed_parameters
+            self._changed_parameters = []
             cur.execute('''
                 SELECT Timestamp, Key, Value
                 FROM ULogChangedParameter
-- 
2.43.0


From 32e6a50cedea927bfcc23eb4b8ac9758264d0730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 15/39] fix: negative infinity in the JSON copy of a dataset

---
 pyulog/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index caf29ea..572d251 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -582,7 +582,7 @@ class DatabaseULog(ULog):
                         timestamp_list = [str(s) for s in dataset.data['timestamp'].tolist()]
                         values_json = str(
                             dict(zip(timestamp_list, values.tolist()))
-                        ).replace('nan', 'null').replace('inf', 'null').replace("'", '"')
+                        ).replace('nan', 'null').replace('-inf', 'null').replace('inf', 'null').replace("'", '"')
                         json_placeholder = 'json(?)'  # Saves some space
                     else:
                         values_json = None
-- 
2.43.0


From e76cb8acc3686df16e5316150976170bde7ddbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 16/39] fix: a log read from a file is not lazily loaded

---
 pyulog/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 572d251..d78ae18 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -174,7 +174,7 @@ class DatabaseULog(ULog):
 
         self._pk = primary_key
         self._db = db_handle
-        self._lazy_loaded = lazy
+        self._lazy_loaded = lazy and log_file is None
         if log_file is not None:
             self._sha256sum = DatabaseULog.calc_sha256sum(log_file)
 
-- 
2.43.0


From b7029ab93c3f016ea1ce2e64be7769e7494ceacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 17/39] fix: NaN and numbers in multi-part information are
 restored from the database

---
 pyulog/db.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index d78ae18..1e4e9e6 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -207,6 +207,17 @@ class DatabaseULog(ULog):
         '''The computed SHA256 digest of the file, stored for later use.'''
         return self._sha256sum
 
+    @staticmethod
+    def _restore_value(value, typename=None):
+        '''
+        Sqlite stores NaN as NULL, and numbers as strings in columns of type TEXT.
+        '''
+        if value is None:
+            return float('nan')
+        if isinstance(value, str) and typename in DatabaseULog._UNPACK_TYPES:
+            return float(value) if typename in ('float', 'double') else int(value)
+        return value
+
     # pylint: disable=too-many-locals,too-many-branches
     def load(self, lazy=True):
         '''
@@ -359,7 +370,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for key, typename, value in cur.fetchall():
-                self._msg_info_dict[key] = value
+                self._msg_info_dict[key] = self._restore_value(value)
                 self._msg_info_dict_types[key] = typename
 
             # msg_info_multiple_dict
@@ -384,7 +395,8 @@ class DatabaseULog(ULog):
                         WHERE ListId = ?
                         ORDER BY SeriesIndex
                         ''', (list_id,))
-                    self._msg_info_multiple_dict[key].append([value for (value,) in cur.fetchall()])
+                    self._msg_info_multiple_dict[key].append(
+                        [self._restore_value(value, typename) for (value,) in cur.fetchall()])
 
             # initial_parameters
             cur.execute('''
@@ -393,7 +405,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for key, value in cur.fetchall():
-                self._initial_parameters[key] = value
+                self._initial_parameters[key] = self._restore_value(value)
 
             # _default_parameters
             cur.execute('''
@@ -404,7 +416,7 @@ class DatabaseULog(ULog):
             for default_type, key, value in cur.fetchall():
                 if default_type not in self._default_parameters:
                     self._default_parameters[default_type] = {}
-                self._default_parameters[default_type][key] = value
+                self._default_parameters[default_type][key] = self._restore_value(value)
 
             # changed_parameters
             self._changed_parameters = []
@@ -414,7 +426,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for timestamp, key, value in cur.fetchall():
-                self._changed_parameters.append((timestamp, key, value))
+                self._changed_parameters.append((timestamp, key, self._restore_value(value)))
 
             cur.close()
         self._lazy_loaded = lazy
@@ -695,7 +707,7 @@ class DatabaseULog(ULog):
                         (?, ?, ?)
                         ''', [(
                             series_index,
-                            value,
+                            repr(value) if isinstance(value, float) else value,
                             list_id,
                         ) for series_index, value in enumerate(message_list)])
 
-- 
2.43.0


From 0c9d86b503d0114b0447033cbb5611f86ff9fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 18/39] fix: write bool fields as they were read

---
 pyulog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 6fdb832..f97604f 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -447,8 +447,8 @@ class ULog(object):
                     field_encoding = self._UNPACK_TYPES[field_type][0]
                     field_data = data_set.data[field_name][i_sample]
 
-                    # For char type, the data is np.int8
-                    if field_encoding == 'c':
+                    # For char and bool types, the data is np.int8
+                    if field_encoding in ('c', '?'):
                         field_encoding = 'b'
 
                     data.extend(struct.pack('<' + field_encoding, field_data))
-- 
2.43.0


From b6a741310279e0d2622a4e9a30e246f4a551cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:16 +0000
Subject: [PATCH 19/39] fix: record the schema version in the transaction of
 the migration

An interruption between a migration script and the update of user_version left
a database on which every further migration failed.
---
 pyulog/migrate_db.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index b2345ee..b9e2408 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -87,7 +87,10 @@ def _read_migration_file(migration_id, sql_dir):
     if not migration_lines.strip().endswith('COMMIT;'):
         raise ValueError(f'Migration file {migration_filename} must end with "COMMIT;"')
 
-    migration_lines +=  f'\nPRAGMA user_version = {migration_id};'
+    # The version belongs to the same transaction as the changes, otherwise an
+    # interruption between the two leaves a database that cannot be migrated.
+    migration_lines = migration_lines.strip()[:-len('COMMIT;')]
+    migration_lines +=  f'PRAGMA user_version = {migration_id};\nCOMMIT;\n'
     return migration_filename, migration_lines
 
 def migrate_db(db_path, sql_dir=None, noop=False, force=False):
-- 
2.43.0


From 74671e06397a61a9b2efa604055b958dd25da742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:16 +0000
Subject: [PATCH 20/39] fix: migrate databases with stored logs

Migration 2 failed with 'FOREIGN KEY constraint failed' if any log was stored,
since switching off foreign keys inside of a transaction has no effect.
---
 pyulog/migrate_db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index b9e2408..126f954 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -120,6 +120,9 @@ def migrate_db(db_path, sql_dir=None, noop=False, force=False):
     db_handle = DatabaseULog.get_db_handle(db_path)
     with db_handle() as con:
         cur = con.cursor()
+        # This has no effect inside of the transactions of the scripts, and with
+        # foreign keys enforced the tables of stored logs cannot be replaced.
+        cur.execute('PRAGMA foreign_keys=off')
         for migration_id in range(db_schema_version+1,
                                   DatabaseULog.SCHEMA_VERSION+1):
             migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)
-- 
2.43.0


From 0cdf26698c9eb9cf30a2433968ea938a676ac694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:16 +0000
Subject: [PATCH 21/39] fix: run only one migration of a database at a time

Concurrent migrations executed scripts twice, which failed or lost the hashes
of the stored logs and set the version back.
---
 pyulog/migrate_db.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index 126f954..2d85081 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -10,6 +10,7 @@ down, just up.
 
 import os
 import argparse
+import contextlib
 from pyulog.db import DatabaseULog
 
 def main():
@@ -118,8 +119,16 @@ def migrate_db(db_path, sql_dir=None, noop=False, force=False):
     ))
 
     db_handle = DatabaseULog.get_db_handle(db_path)
-    with db_handle() as con:
+    with contextlib.closing(db_handle()) as con, con:
         cur = con.cursor()
+        if not noop:
+            # Lock the database until all scripts are done, and check the version
+            # again: another process might have migrated the database meanwhile.
+            cur.execute('PRAGMA locking_mode=EXCLUSIVE')
+            cur.execute('BEGIN EXCLUSIVE')
+            cur.execute('PRAGMA user_version')
+            db_schema_version = max(db_schema_version, cur.fetchone()[0])
+            con.commit()
         # This has no effect inside of the transactions of the scripts, and with
         # foreign keys enforced the tables of stored logs cannot be replaced.
         cur.execute('PRAGMA foreign_keys=off')
-- 
2.43.0


From 5777ad728e341f2b24b25e941039039d35e3f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 22/39] fix: a time bound behind the last sample is no error

---
 pyulog/extract_message.py | 5 +++--
 pyulog/ulog2csv.py        | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyulog/extract_message.py b/pyulog/extract_message.py
index a0394d6..578aa37 100644
--- a/pyulog/extract_message.py
+++ b/pyulog/extract_message.py
@@ -38,10 +38,11 @@ def extract_message(ulog_file_name: str, message: str,
     data_keys.insert(0, 'timestamp')  # we want timestamp at first position
 
     #get the index for row where timestamp exceeds or equals the required value
-    time_s_i = np.where(data.data['timestamp'] >= time_s * 1e6)[0][0] \
+    #(the number of rows if there is none)
+    time_s_i = np.where(np.append(data.data['timestamp'] >= time_s * 1e6, True))[0][0] \
             if time_s else 0
     #get the index for row upto the timestamp of the required value
-    time_e_i = np.where(data.data['timestamp'] >= time_e * 1e6)[0][0] \
+    time_e_i = np.where(np.append(data.data['timestamp'] >= time_e * 1e6, True))[0][0] \
             if time_e else len(data.data['timestamp'])
 
     # write the data
diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index adadca8..575f5ff 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -131,10 +131,11 @@ def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e
             csvfile.write(delimiter.join(data_keys) + '\n')
 
             #get the index for row where timestamp exceeds or equals the required value
-            time_s_i = np.where(d.data['timestamp'] >= time_s * 1e6)[0][0] \
+            #(the number of rows if there is none)
+            time_s_i = np.where(np.append(d.data['timestamp'] >= time_s * 1e6, True))[0][0] \
                     if time_s else 0
             #get the index for row upto the timestamp of the required value
-            time_e_i = np.where(d.data['timestamp'] >= time_e * 1e6)[0][0] \
+            time_e_i = np.where(np.append(d.data['timestamp'] >= time_e * 1e6, True))[0][0] \
                     if time_e else len(d.data['timestamp'])
 
             # write the data
-- 
2.43.0


From d4634a8ddd69faa21b64deda22b00555c6852d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 23/39] fix: report a parameter export that could not be
 written completely

---
 pyulog/params.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyulog/params.py b/pyulog/params.py
index be4d422..2a8f28d 100644
--- a/pyulog/params.py
+++ b/pyulog/params.py
@@ -148,3 +148,6 @@ def main():
 
             output_file.write(str(param_type))
             output_file.write('\n')
+
+    if output_file is not sys.stdout:
+        output_file.close()
-- 
2.43.0


From b80711c4b3d0f1ec9f0016cdb08343f5707b9a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 24/39] fix: keep event definitions only when they were loaded
 completely

---
 pyulog/px4_events.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyulog/px4_events.py b/pyulog/px4_events.py
index 809f5e6..2583460 100644
--- a/pyulog/px4_events.py
+++ b/pyulog/px4_events.py
@@ -55,9 +55,11 @@ class PX4Events:
         json_definitions = self._get_default_json_def_cb(
             self._default_parser is not None)
         if json_definitions is not None:
-            self._default_parser = Parser()
-            self._default_parser.load_definitions(json_definitions)
-            self._default_parser.set_profile(self._events_profile)
+            parser = Parser()
+            parser.load_definitions(json_definitions)
+            parser.set_profile(self._events_profile)
+            # keep it only after everything was loaded
+            self._default_parser = parser
 
         return self._default_parser
 
-- 
2.43.0


From c247095321df2d4a96803a995881d7edc5cfdf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 25/39] fix: list empty text messages

---
 pyulog/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/messages.py b/pyulog/messages.py
index dbfa77d..d6850f9 100644
--- a/pyulog/messages.py
+++ b/pyulog/messages.py
@@ -34,7 +34,7 @@ def main():
         for t, log_level, message in logged_messages:
             # backwards compatibility: a string message with appended tab is output
             # in addition to an event with the same message so we can ignore those
-            if message[-1] == '\t':
+            if message.endswith('\t'):
                 continue
             events.append((t, log_level, message))
 
-- 
2.43.0


From 400ea5925f7ae8024d6be0c432316e925c4990c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 26/39] fix: do not read what gets added to a log that ends
 within the definitions as data

---
 pyulog/core.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index f97604f..aba16de 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -876,7 +876,7 @@ class ULog(object):
         # parse the whole file
         self._read_file_header()
         self._last_timestamp = self._start_timestamp
-        self._read_file_definitions()
+        log_continues = self._read_file_definitions()
 
         if self._debug:
             print("header end offset: {:}".format(self._file_handle.tell()))
@@ -892,9 +892,11 @@ class ULog(object):
             for offset in self._appended_offsets:
                 self._read_file_data(message_name_filter_list, read_until=offset)
                 self._file_handle.seek(offset)
+            log_continues = True
 
         # read the whole file, or the rest if data appended
-        self._read_file_data(message_name_filter_list)
+        if log_continues:
+            self._read_file_data(message_name_filter_list)
         self._finalize_data()
 
         self._file_handle.close()
@@ -914,17 +916,22 @@ class ULog(object):
         self._start_timestamp, = ULog._unpack_uint64(header_data[8:])
 
     def _read_file_definitions(self):
+        """
+        read the file definitions section
+        return false if the file ends within it (it might still be growing, what gets
+        added meanwhile is not the data section)
+        """
         header = self._MessageHeader()
         while True:
             if self._reached_appended_data(self._file_handle.tell() + 1):
                 break
             data = self._file_handle.read(3)
             if len(data) < 3:
-                break
+                return False
             header.initialize(data)
             data = self._file_handle.read(header.msg_size)
             if len(data) < header.msg_size:
-                break # less data than expected. File is most likely cut
+                return False # less data than expected. File is most likely cut
             if self._reached_appended_data(self._file_handle.tell()):
                 break # the last message before the appended data is incomplete
             try:
@@ -987,6 +994,7 @@ class ULog(object):
                 if not self._file_corrupt:
                     print("File corruption detected while reading file definitions!")
                     self._file_corrupt = True
+        return True
 
     def _reached_appended_data(self, offset):
         """ check if a file offset is behind the start of the first appended section """
-- 
2.43.0


From 65d1a4e44fccea2d038ec20f30caac9e86a27d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 27/39] fix: refuse a log file that changes while it is
 imported instead of storing it under the wrong hash

---
 pyulog/db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 1e4e9e6..db00c38 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -179,6 +179,9 @@ class DatabaseULog(ULog):
             self._sha256sum = DatabaseULog.calc_sha256sum(log_file)
 
         super().__init__(log_file, **kwargs)
+        if isinstance(log_file, str) and DatabaseULog.calc_sha256sum(log_file) != self._sha256sum:
+            # the content would be stored under the hash of a different one
+            raise ValueError(f'{log_file} was changed while it was read.')
         if primary_key is not None:
             self.load(lazy=lazy)
 
-- 
2.43.0


From fe045c88360767067f406dab52d6c7f97432934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 28/39] fix: logs with NaN parameters or information are equal
 to themselves

---
 pyulog/core.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index aba16de..9c6f340 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -516,10 +516,23 @@ class ULog(object):
         if not isinstance(other, ULog):
             return NotImplemented
         return all(
-            self_value == getattr(other, field)
+            self._equal_values(self_value, getattr(other, field))
             for field, self_value in self.__dict__.items()
         )
 
+    @staticmethod
+    def _equal_values(left, right):
+        """ compare attributes, where a NaN (e.g. of a parameter) equals another NaN """
+        if isinstance(left, dict) and isinstance(right, dict):
+            return left.keys() == right.keys() and \
+                all(ULog._equal_values(left[key], right[key]) for key in left)
+        if isinstance(left, (list, tuple)) and isinstance(right, type(left)):
+            return len(left) == len(right) and \
+                all(ULog._equal_values(*pair) for pair in zip(left, right))
+        if isinstance(left, float) and isinstance(right, float):
+            return left == right or bool(np.isnan(left) and np.isnan(right))
+        return left == right
+
     class Data(object):
         """ contains the final topic data for a single topic and instance """
 
-- 
2.43.0


From f9a8bfe9c164cf8079d68aa075dc71a3058bc940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 29/39] fix: no NaN pitch for a vertical attitude whose
 quaternion is rounded

---
 pyulog/px4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyulog/px4.py b/pyulog/px4.py
index 71490cd..61495db 100644
--- a/pyulog/px4.py
+++ b/pyulog/px4.py
@@ -93,7 +93,8 @@ class PX4ULog(object):
             q = [message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)]
             roll = np.arctan2(2.0 * (q[0] * q[1] + q[2] * q[3]),
                               1.0 - 2.0 * (q[1] * q[1] + q[2] * q[2]))
-            pitch = np.arcsin(2.0 * (q[0] * q[2] - q[3] * q[1]))
+            # with rounding this can be slightly above 1 for a vertical attitude
+            pitch = np.arcsin(np.clip(2.0 * (q[0] * q[2] - q[3] * q[1]), -1.0, 1.0))
             yaw = np.arctan2(2.0 * (q[0] * q[3] + q[1] * q[2]),
                              1.0 - 2.0 * (q[2] * q[2] + q[3] * q[3]))
             message_data.data['roll'+field_name_suffix] = roll
-- 
2.43.0


From 4dafc448f01efb04762d45c5818316a3b1db00a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 30/39] fix: damage in the definitions must not end the parsing
 or hide what follows

---
 pyulog/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 9c6f340..95dfd8a 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -942,6 +942,11 @@ class ULog(object):
             if len(data) < 3:
                 return False
             header.initialize(data)
+            if header.msg_size == 0 or header.msg_type == 0:
+                # this is no message (data got lost): advance only by a single byte
+                self._check_packet_corruption(header)
+                self._file_handle.seek(-2, 1)
+                continue
             data = self._file_handle.read(header.msg_size)
             if len(data) < header.msg_size:
                 return False # less data than expected. File is most likely cut
@@ -1003,7 +1008,11 @@ class ULog(object):
                         # skipping the message
                         self._file_handle.seek(-2-header.msg_size, 1)
 
-            except IndexError:
+            except UnicodeDecodeError:
+                raise # string errors are only tolerated if requested
+            except (IndexError, ValueError, struct.error):
+                if header.msg_type == self.MSG_TYPE_FLAG_BITS:
+                    raise # unknown how to read the log
                 if not self._file_corrupt:
                     print("File corruption detected while reading file definitions!")
                     self._file_corrupt = True
-- 
2.43.0


From 2df3165047360d606759bdd4f1033d1002e26181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 31/39] fix: a damaged format that contains itself must not end
 the parsing

---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 95dfd8a..8fd853a 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1180,7 +1180,7 @@ class ULog(object):
 
                 except UnicodeDecodeError:
                     raise # string errors are only tolerated if requested
-                except (IndexError, KeyError, ValueError, struct.error):
+                except (IndexError, KeyError, ValueError, RecursionError, struct.error):
                     if not self._file_corrupt:
                         print("File corruption detected while reading file data!")
                         self._file_corrupt = True
-- 
2.43.0


From 26eaae6a2978d9b808d9f2e98e8b1a7797fb5626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 32/39] fix: print multi-part information of numbers

---
 pyulog/info.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyulog/info.py b/pyulog/info.py
index 129bc6f..cddba6e 100644
--- a/pyulog/info.py
+++ b/pyulog/info.py
@@ -95,6 +95,9 @@ def main():
                 if len(m) > 0 and isinstance(m[0], (bytes, bytearray)):
                     print("# {} {} (len: {:}):".format(message, i, sum(len(item) for item in m)))
                     print(separator.join(' '.join('{:02x}'.format(x) for x in item) for item in m))
+                elif len(m) > 0 and not isinstance(m[0], str): # numbers
+                    print("# {} {}:".format(message, i))
+                    print((separator or ' ').join(str(item) for item in m))
                 else:
                     print("# {} {}:".format(message, i))
                     print(separator.join(m))
-- 
2.43.0


From 933f139880d2a83966f82814b5d748c10812178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:54 +0000
Subject: [PATCH 33/39] fix: write logs that use a message id for more than one
 topic

---
 pyulog/core.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 8fd853a..9ebc07d 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -403,12 +403,27 @@ class ULog(object):
             file.write(header)
             file.write(data)
 
+    def _assign_message_ids(self):
+        """
+        get the message ids to write, for all data sets in the order of their message id.
+        An id can be announced again for another topic later in the log, but here all
+        subscriptions get written in front of the data.
+        """
+        used = {data_set.msg_id for data_set in self._data_list}
+        msg_ids = []
+        for msg_id in sorted(data_set.msg_id for data_set in self._data_list):
+            if msg_id in msg_ids:
+                msg_id = next(i for i in range(1 << 16) if i not in used)
+                used.add(msg_id)
+            msg_ids.append(msg_id)
+        return msg_ids
+
     def _write_logged_message_subscriptions(self, file):
         data_sets = sorted(self._data_list, key=lambda x: x.msg_id)
 
-        for data_set in data_sets:
+        for data_set, msg_id in zip(data_sets, self._assign_message_ids()):
             data = bytearray()
-            data.extend(struct.pack('<BH', data_set.multi_id, data_set.msg_id))
+            data.extend(struct.pack('<BH', data_set.multi_id, msg_id))
             data.extend(bytes(data_set.name, 'utf-8'))
 
             header = struct.pack('<HB', len(data), self.MSG_TYPE_ADD_LOGGED_MSG)
@@ -434,11 +449,11 @@ class ULog(object):
         data_sets = sorted(self._data_list, key=lambda x: x.msg_id)
         data_items = []
 
-        for data_set in data_sets:
+        for data_set, assigned_id in zip(data_sets, self._assign_message_ids()):
             data_set_length = len(data_set.data[data_set.field_data[0].field_name])
             for i_sample in range(data_set_length):
                 timestamp = data_set.data['timestamp'][i_sample]
-                msg_id = struct.pack('<H', data_set.msg_id)
+                msg_id = struct.pack('<H', assigned_id)
                 data = bytearray()
                 data.extend(msg_id)
                 for field in data_set.field_data:
-- 
2.43.0


From 203898fa8a1115d2227f5337aae2897320a422fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:35 +0000
Subject: [PATCH 34/39] fix: keep default parameters of types other than system
 and setup when rewriting

The type of a default (a bit of the message) was turned into bit mask minus one, which
is the number of the bit only for the first two. Writing a log with any other type
raised struct.error or gave the defaults another type.
---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 9ebc07d..b05cd26 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -875,7 +875,7 @@ class ULog(object):
         while default_types: # iterate over each bit
             def_type = default_types & (~default_types+1)
             default_types ^= def_type
-            def_type -= 1
+            def_type = def_type.bit_length() - 1 # number of the bit
             if def_type not in self._default_parameters:
                 self._default_parameters[def_type] = {}
             self._default_parameters[def_type][msg_param.key] = msg_param.value
-- 
2.43.0


From 657516ce72cf323f470e9ed601e5ff581a2644cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:44 +0000
Subject: [PATCH 35/39] fix: convert logs with flight modes above 17 to KML

The table of colors has 18 entries, the conversion failed with an IndexError
for modes like orbit (21) or VTOL takeoff (22).
---
 pyulog/ulog2kml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/ulog2kml.py b/pyulog/ulog2kml.py
index a3f8fcb..346cfd2 100644
--- a/pyulog/ulog2kml.py
+++ b/pyulog/ulog2kml.py
@@ -51,7 +51,7 @@ def _kml_default_colors(x):
                   simplekml.Color.lawngreen, simplekml.Color.indianred, simplekml.Color.hotpink,
                   simplekml.Color.bisque, simplekml.Color.cyan, simplekml.Color.darksalmon,
                   simplekml.Color.deepskyblue, simplekml.Color.lime, simplekml.Color.orchid]
-    return colors_arr[x]
+    return colors_arr[x % len(colors_arr)]
 
 
 
-- 
2.43.0


From 084e5c6f8ca188a3e07568049daa61179971077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:38 +0000
Subject: [PATCH 36/39] fix: convert strings with non-ASCII characters to CSV

---
 pyulog/ulog2csv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index 575f5ff..f9acc66 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -54,13 +54,13 @@ def main():
 
 def read_string_data(data: ULog.Data, field_name: str, array_size: int, data_index: int) -> str:
     """ Parse a data field as string """
-    s = ''
+    s = bytearray()
     for index in range(array_size):
         character = data.data[f'{field_name}[{index}]'][data_index]
         if character == 0:
             break
-        s += chr(character)
-    return s
+        s.append(int(character) & 0xff)  # characters are parsed as int8
+    return s.decode('utf-8', 'replace')
 
 def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e,
                      disable_str_exceptions=False):
-- 
2.43.0


From 25a0a9e786e21aadba0e94c9c3380e84e2372c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:39 +0000
Subject: [PATCH 37/39] fix: quote strings that contain the delimiter, quotes
 or line ends in CSV files

---
 pyulog/ulog2csv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index f9acc66..d6e8eb8 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -144,6 +144,8 @@ def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e
                 for k in range(len(data_keys)):
                     if data_keys[k] in string_array_sizes: # string
                         s = read_string_data(d, data_keys[k], string_array_sizes[data_keys[k]], i)
+                        if any(c in s for c in (delimiter, '"', '\n', '\r')):
+                            s = '"' + s.replace('"', '""') + '"'
                         csvfile.write(s)
                     else:
                         csvfile.write(str(d.data[data_keys[k]][i]))
-- 
2.43.0


From 3c7a5bdf5a96a951885ef1d6ebac9e02e9a73bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:53 +0000
Subject: [PATCH 38/39] fix: do not let the time difference wrap around when
 time stamps run backwards

---
 pyulog/ulog2kml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/ulog2kml.py b/pyulog/ulog2kml.py
index 346cfd2..4c069b5 100644
--- a/pyulog/ulog2kml.py
+++ b/pyulog/ulog2kml.py
@@ -214,7 +214,7 @@ def _kml_add_position_data(kml, ulog, position_topic_name, colors, style,
 
     last_t = 0
     for i in range(len(pos_lon)):
-        cur_t = pos_t[i]
+        cur_t = int(pos_t[i])
 
         if (cur_t - last_t)/1e6 > minimum_interval_s: # assume timestamp is in [us]
             pos_data = [pos_lon[i], pos_lat[i], pos_alt[i] + altitude_offset]
-- 
2.43.0


From a9ae5bb194cbffec1a5315cdb746b08537476e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:53 +0000
Subject: [PATCH 39/39] fix: convert characters above 127 to ROS 2 messages

---
 pyulog/ulog2ros2bag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyulog/ulog2ros2bag.py b/pyulog/ulog2ros2bag.py
index 08f3183..3352ba8 100644
--- a/pyulog/ulog2ros2bag.py
+++ b/pyulog/ulog2ros2bag.py
@@ -356,6 +356,8 @@ def ros2ify_value(field_name: str, value, MsgType: object):
     # startswith() accounts for array types
     if value_type == np.int8 and ros2_type.startswith("bool"):
         return bool(value)
+    if value_type == np.int8 and ros2_type.startswith("uint8"):  # char
+        return value.item() & 0xFF
 
     return value.item()
 
-- 
2.43.0

