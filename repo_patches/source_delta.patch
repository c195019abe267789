From 4ebb75c0bb02085646a912312b86410f128de459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 01/44] fix: write and read DMap char scalars as signed 8-bit
 values

Negative values raised ValueError and values above 127 were written as two
bytes, corrupting the record.
---
 pydarnio/dmap/dmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 8cb06bd..f820fd3 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -691,9 +691,9 @@ class DmapRead():
             # This casting is needed to keep the correct instance otherwise
             # python will default it to int which later could have some
             # consequences if you try to rewrite the file
-            data = self.dmap_bytearr[self.cursor]
+            data = struct.unpack_from('b', self.dmap_buffer, self.cursor)
             self.cursor += data_fmt_bytes
-            return data
+            return data[0]
         elif data_type_fmt == 's':
             byte_counter = 0
             while self.dmap_bytearr[self.cursor + byte_counter] != 0 or \
@@ -1098,7 +1098,7 @@ class DmapWrite(object):
             if isinstance(scalar.value, str):
                 raise dmap_exceptions.DmapCharError(scalar.name, self.rec_num)
             # scalar_data_bytes = scalar.value
-            scalar_data_bytes = chr(scalar.value).encode('utf-8')
+            scalar_data_bytes = struct.pack('b', scalar.value)
         elif scalar.data_type_fmt == 'f':
             scalar_data_value = np.float32(scalar.value)
             scalar_data_bytes = struct.pack(scalar.data_type_fmt,
-- 
2.43.0


From 778e33a178b10300140201d4cf14020cb29eed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 02/44] fix: encode DMap names and strings to their full byte
 length

The length of the text was counted in characters, so non-ASCII text lost its
last bytes and terminator; embedded NULs ended the string early. Both made
the record unreadable.
---
 pydarnio/dmap/dmap.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index f820fd3..2a4c13d 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1064,6 +1064,24 @@ class DmapWrite(object):
         self.dmap_bytearr.extend(struct.pack('i', num_arrays))
         self.dmap_bytearr.extend(data_bytearray)
 
+    def _text_to_bytes(self, text: str) -> bytes:
+        """
+        Converts a name or string value to its NUL-terminated byte format.
+
+        Raises
+        ------
+        DmapDataError
+            if the text contains a NUL character, which would end the
+            string early when read back
+        """
+        text_bytes = "{0}".format(text).encode('utf-8')
+        if b'\0' in text_bytes:
+            message = "Error: {text!r} contains a NUL character and cannot be"\
+                " written. Failed at record {rec}".format(text=text,
+                                                         rec=self.rec_num)
+            raise dmap_exceptions.DmapDataError(self.filename, message)
+        return text_bytes + b'\0'
+
     def dmap_scalar_to_bytes(self, scalar: DmapScalar) -> bytes:
         """
         Converts a DmapScalar to byte format.
@@ -1080,19 +1098,13 @@ class DmapWrite(object):
             Bytes of the scalar
         """
 
-        scalar_name = "{0}\0".format(scalar.name)
-        scalar_name_format = '{0}s'.format(len(scalar_name))
-        scalar_name_bytes = struct.pack(scalar_name_format,
-                                        scalar_name.encode('utf-8'))
+        scalar_name_bytes = self._text_to_bytes(scalar.name)
 
         scalar_type_bytes = struct.pack('c',
                                         chr(scalar.data_type).encode('utf-8'))
 
         if scalar.data_type_fmt == 's':
-            scalar_data = "{0}\0".format(scalar.value)
-            scalar_data_format = '{0}s'.format(len(scalar_data))
-            scalar_data_bytes = struct.pack(scalar_data_format,
-                                            scalar_data.encode('utf-8'))
+            scalar_data_bytes = self._text_to_bytes(scalar.value)
         elif scalar.data_type_fmt == 'c':
             # char is defined as int8 by RST
             if isinstance(scalar.value, str):
@@ -1137,10 +1149,7 @@ class DmapWrite(object):
             raise dmap_exceptions.DmapDataError(self.filename, message)
 
         array_value = array.value.flatten()
-        array_name = "{0}\0".format(array.name)
-        array_name_format = '{0}s'.format(len(array_name))
-        array_name_bytes = struct.pack(array_name_format,
-                                       array_name.encode('utf-8'))
+        array_name_bytes = self._text_to_bytes(array.name)
 
         array_type_bytes = struct.pack('c',
                                        chr(array.data_type).encode('utf-8'))
-- 
2.43.0


From c04c781725c13e097519bbe05c98eb9dfc187ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 03/44] fix: do not reverse the caller's array shape when
 writing DMap arrays

The shape was reversed in place, so a second write of the same records stored
the dimensions in the wrong order.
---
 pydarnio/dmap/dmap.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 2a4c13d..72dee76 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1156,9 +1156,8 @@ class DmapWrite(object):
 
         array_dim_bytes = struct.pack('i', array.dimension)
         array_shape_bytes = bytes()
-        if array.dimension > 1:
-            array.shape.reverse()
-        for size in array.shape:
+        # the fastest varying dimension is written first
+        for size in reversed(array.shape):
             array_shape_bytes += struct.pack('i', size)
 
         array_data_bytes = array_value.tostring()
-- 
2.43.0


From 0f317468e588fab07380b517a20cbb35988cd2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 04/44] fix: start every DMap write from an empty buffer

The buffer was only created with the writer, so writing again, or after a
failed write, repeated the earlier records in the output.
---
 pydarnio/dmap/dmap.py      | 1 +
 pydarnio/dmap/superdarn.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 72dee76..1e56233 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1017,6 +1017,7 @@ class DmapWrite(object):
         # For performance increase len of the records can be
         # attribute value initialized in the class
         pyDARNio_log.debug("Converting DMap records to bytes")
+        self.dmap_bytearr = bytearray()
         for self.rec_num in range(len(self.dmap_records)):
             record = self.dmap_records[self.rec_num]
             self._dmap_record_to_bytes(record)
diff --git a/pydarnio/dmap/superdarn.py b/pydarnio/dmap/superdarn.py
index 017fda7..b545441 100644
--- a/pydarnio/dmap/superdarn.py
+++ b/pydarnio/dmap/superdarn.py
@@ -885,6 +885,7 @@ class SDarnWrite(DmapWrite):
 
         """
         self.rec_num = 0
+        self.dmap_bytearr = bytearray()
         pyDARNio_log.debug("Checking and converting SuperDARN data to bytes ")
 
         for self.rec_num in range(len(self.dmap_records)):
-- 
2.43.0


From fc872c6a683f6781316d81c4651524e9e4343b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 05/44] fix: accept the 64-bit arrays that the DMap reader
 returns

numpy gives arrays read with struct codes q and Q the scalar types longlong
and ulonglong, which dict2dmap refused, so such records could not be written.
---
 pydarnio/utils/conversions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/utils/conversions.py b/pydarnio/utils/conversions.py
index 281b481..3e3fc5b 100644
--- a/pydarnio/utils/conversions.py
+++ b/pydarnio/utils/conversions.py
@@ -39,10 +39,12 @@ FORMAT_CONVERSION = {np.int8: 'c',  # RST defines char as an int8 in rtypes.h
                      np.float64: 'd',
                      str: 's',
                      np.int64: 'q',
+                     np.longlong: 'q',
                      np.uint8: 'B',
                      np.uint16: 'H',
                      np.uint32: 'I',
-                     np.uint64: 'Q'}
+                     np.uint64: 'Q',
+                     np.ulonglong: 'Q'}
 
 DMAP_CASTING_TYPES = {'c': np.int8,  # RST defined char
                       'h': np.int16,  # Short
-- 
2.43.0


From 019f57e260376a4d50cc1f1a6b05c0fae8ca7919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 06/44] fix: write arrays of non-native byte order with the
 right values

The raw memory of the array was written whatever its byte order.
---
 pydarnio/dmap/dmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 1e56233..b46a79f 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1161,7 +1161,9 @@ class DmapWrite(object):
         for size in reversed(array.shape):
             array_shape_bytes += struct.pack('i', size)
 
-        array_data_bytes = array_value.tostring()
+        # DMap data is stored in the byte order of the host
+        array_data_bytes = array_value.astype(
+            array_value.dtype.newbyteorder('='), copy=False).tobytes()
 
         array_total_bytes = array_name_bytes + array_type_bytes + \
             array_dim_bytes + array_shape_bytes + array_data_bytes
-- 
2.43.0


From b90fa5eb8ab4cab669e00b17f3721e12d693cfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 07/44] fix: report malformed DMap strings and arrays with DMap
 errors

Unterminated strings, text that is not UTF-8, arrays running past the end of
the data and negative slist sizes raised IndexError, UnicodeDecodeError or
ValueError, or read to the end of the data.
---
 pydarnio/dmap/dmap.py | 53 +++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index b46a79f..5658735 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -567,7 +567,8 @@ class DmapRead():
 
         # slist is the array that holds the range gates that have valid data
         # when qflg is 1
-        if any(x <= 0 for x in array_shape) and array_name != "slist":
+        if any(x < 0 or (x == 0 and array_name != "slist")
+               for x in array_shape):
             message = "Error: Array shape {shape} contains "\
                 "dimension size <= 0."\
                 " Failed at record {rec}".format(shape=array_shape,
@@ -695,15 +696,14 @@ class DmapRead():
             self.cursor += data_fmt_bytes
             return data[0]
         elif data_type_fmt == 's':
-            byte_counter = 0
-            while self.dmap_bytearr[self.cursor + byte_counter] != 0 or \
-                    self.cursor + byte_counter >= self.dmap_end_bytes:
-                # add 1 byte to byte_counter because
-                # a string is a list of chars
-                byte_counter += 1  # 1 is the number of bytes of a char
-
-            self.bytes_check(self.cursor + byte_counter, 'cursor',
-                             self.dmap_end_bytes, 'Total number of Bytes')
+            # strings end with a NUL byte
+            string_end = self.dmap_bytearr.find(b'\0', self.cursor)
+            if string_end < 0:
+                message = "Error: String at cursor {cursor} is not terminated"\
+                    " before the end of the data. Failed at record {rec}"\
+                    "".format(cursor=self.cursor, rec=self.rec_num)
+                raise dmap_exceptions.DmapDataError(self.dmap_file, message)
+            byte_counter = string_end - self.cursor
 
             # format byte counter to a string format for unpacking
             # WARNING: not using format for performance purposes
@@ -713,7 +713,13 @@ class DmapRead():
                                       self.cursor)
             # 1 is the number of bytes in a char
             self.cursor = self.cursor + byte_counter + 1
-            return data[0].decode('utf-8')
+            try:
+                return data[0].decode('utf-8')
+            except UnicodeDecodeError as err:
+                message = "Error: String is not valid text: {err}. Failed at"\
+                    " record {rec}".format(err=err, rec=self.rec_num)
+                raise dmap_exceptions.DmapDataError(self.dmap_file,
+                                                    message) from err
         else:
             data = struct.unpack_from(data_type_fmt,
                                       self.dmap_buffer,
@@ -797,16 +803,23 @@ class DmapRead():
         DmapDataError
             Mismatch on the data type and the size specified in the byte array.
         """
-        if data_type_fmt == 'c':
-            # In RST rtypes.h file, chars are defined as int8
-            # allowing this assumption to be allowed for now
-            array = np.frombuffer(self.dmap_buffer, np.int8,
-                                  total_number_cells, self.cursor)
-        else:
-            array = np.frombuffer(self.dmap_buffer, data_type_fmt,
-                                  total_number_cells, self.cursor)
+        try:
+            if data_type_fmt == 'c':
+                # In RST rtypes.h file, chars are defined as int8
+                # allowing this assumption to be allowed for now
+                array = np.frombuffer(self.dmap_buffer, np.int8,
+                                      total_number_cells, self.cursor)
+            else:
+                array = np.frombuffer(self.dmap_buffer, data_type_fmt,
+                                      total_number_cells, self.cursor)
+            array = np.reshape(array, shape, order='C')
+        except ValueError as err:
+            message = "Error: Array of shape {shape} cannot be read: {err}."\
+                " Failed at record {rec}".format(shape=shape, err=err,
+                                                 rec=self.rec_num)
+            raise dmap_exceptions.DmapDataError(self.dmap_file,
+                                                message) from err
         self.cursor += total_number_cells * data_fmt_bytes
-        array = np.reshape(array, shape, order='C')
         return array
 
 
-- 
2.43.0


From 400a381508cfcbab9c2731197d48b6b06fcd41f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 08/44] fix: read all records from the start on every DMap read
 call

After a failed read or integrity check the next call carried on in the middle
of the data and skipped the bad record, and reading as another file type
returned the earlier records unchecked. SDarnRead.get_records raised
AttributeError before the first read.
---
 pydarnio/dmap/dmap.py      | 3 +++
 pydarnio/dmap/superdarn.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 5658735..d2843ee 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -395,6 +395,9 @@ class DmapRead():
 
         # read bytes until end of byte array
         pyDARNio_log.debug("Reading DMap records")
+        self.rec_num = 0
+        self.cursor = 0
+        self._dmap_records = collections.deque()
         while self.cursor < self.dmap_end_bytes:
             new_record = self.read_record()
             self._dmap_records.append(new_record)
diff --git a/pydarnio/dmap/superdarn.py b/pydarnio/dmap/superdarn.py
index b545441..7c76a11 100644
--- a/pydarnio/dmap/superdarn.py
+++ b/pydarnio/dmap/superdarn.py
@@ -36,6 +36,7 @@ Notes
 -----
 DmapRead and DmapWrite are inherited by SDarnRead and SDarnWrite
 """
+import collections
 import logging
 
 from typing import Union, List
@@ -323,6 +324,7 @@ class SDarnRead(DmapRead):
         DmapRead : for inheritance information
         """
         DmapRead.__init__(self, filename, stream)
+        self.records = []
 
     # helper function that could be used parallelization
     def _read_darn_record(self, format_fields: List[dict],
@@ -885,6 +887,8 @@ class SDarnWrite(DmapWrite):
 
         """
         self.rec_num = 0
+        self.cursor = 0
+        self._dmap_records = collections.deque()
         self.dmap_bytearr = bytearray()
         pyDARNio_log.debug("Checking and converting SuperDARN data to bytes ")
 
-- 
2.43.0


From 3447b3850daa7f4d3609a2a0b56e5aa7106a9601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 09/44] fix: write the records given to write_dmap_stream

Records passed to the call were ignored when the writer already held some.
---
 pydarnio/dmap/dmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index d2843ee..757e94f 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -991,7 +991,7 @@ class DmapWrite(object):
         No checks are done, this up to the user to ensure their fields are
         correct.
         """
-        if self.dmap_records == []:
+        if len(dmap_records) > 0:
             self.dmap_records = self.__check_dmap_dict(dmap_records)
         self._empty_record_check()
         pyDARNio_log.info("Writing to dmap stream")
-- 
2.43.0


From 4fa79a125c3bbfebf7b2810cf409c6b84f5a13e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 10/44] fix: refuse to write an empty deque of DMap records

The readers return deques; an empty one was not seen as empty and an empty
file was written.
---
 pydarnio/dmap/dmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 757e94f..0c175a5 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -999,7 +999,7 @@ class DmapWrite(object):
         return self.dmap_bytearr
 
     def _empty_record_check(self):
-        if self.dmap_records == []:
+        if len(self.dmap_records) == 0:
             raise dmap_exceptions.DmapDataError(self.filename,
                                                 "DMap record is empty "
                                                 "there is nothing to write.")
-- 
2.43.0


From 43094eed5e2f34037c37f5ea9be63433edb46241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 11/44] fix: find the maximum number of beams over all records
 when restructuring files

---
 pydarnio/borealis/base_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 8519dfa..7a4fca6 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -613,10 +613,10 @@ class BaseFormat():
                         except KeyError:
                             continue
                         # Initialize shape to first record's field dimensions
+                        if field == 'beam_nums':
+                            max_num_beams = max(field_shape[0], max_num_beams)
                         if rec_idx == 0:
                             fields_max_dims[field] = field_shape
-                            if field == 'beam_nums':
-                                max_num_beams = max(field_shape[0], max_num_beams)
                         else:
                             # Update dims to keep largest for all records
                             new_shape = map(lambda dima, dimb: max(dima, dimb),
-- 
2.43.0


From e0f0a15cff072c268ac8bc7d8ed2fd332f68bb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 12/44] fix: restructure Borealis v0.7 bfiq arrays to site
 records with bytes descriptors

---
 pydarnio/borealis/borealis_formats.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index c9ba76c..b7765e6 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2490,6 +2490,20 @@ class BorealisBfiq(BorealisBfiqv0_6):
             })
         return unshared_fields_dims
 
+    @classmethod
+    def site_specific_fields_generate(cls):
+        """
+        See BaseFormat class for description and use of this method.
+
+        Notes
+        -----
+        In Borealis v0.7, data_descriptors is an array of bytes.
+        """
+        fields_generate = super().site_specific_fields_generate()
+        fields_generate['data_descriptors'] = lambda arrays, record_num: np.bytes_(
+            ['num_antenna_arrays', 'num_sequences', 'num_beams', 'num_samps'])
+        return fields_generate
+
 
 class BorealisAntennasIq(BorealisAntennasIqv0_6):
     """
-- 
2.43.0


From c01ce338cd5091abec940bb3694a8af00ff5b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 13/44] fix: read and write Borealis rawrf site files

---
 pydarnio/borealis/borealis_formats.py | 44 ++++++++-------------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index b7765e6..29244ff 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -1685,6 +1685,18 @@ class BorealisRawrfv0_4(BaseFormat):
         """
         return cls.fields.array_types('rawrf')
 
+    @classmethod
+    def site_fields(cls):
+        """
+        See BaseFormat class for description and use of this method.
+
+        Notes
+        -----
+        The rawrf format has no array structure and therefore does not sort
+        its fields into shared, unshared and site specific fields.
+        """
+        return list(cls.single_element_types()) + list(cls.array_dtypes())
+
 
 class BorealisRawacfv0_5(BorealisRawacfv0_4):
     """
@@ -2602,38 +2614,6 @@ class BorealisRawrf(BorealisRawrfv0_6):
     """
     fields = BorealisFields
 
-    @classmethod
-    def unshared_fields_dims_array(cls):
-        """
-        See BaseFormat class for description and use of this method.
-
-        Notes
-        -----
-        In Borealis v0.7, tx_antenna_phases was added to rawrf. It is an
-        unshared field because their values may not be the same from record to record.
-        """
-        unshared_fields_dims = super().unshared_fields_dims_array()
-        unshared_fields_dims.update({
-            'tx_antenna_phases': [cls.find_num_antennas],
-            })
-        return unshared_fields_dims
-
-    @classmethod
-    def unshared_fields_dims_site(cls):
-        """
-        See BaseFormat class for description and use of this method.
-
-        Notes
-        -----
-        In Borealis v0.7, tx_antenna_phases was added to rawrf. It is an
-        unshared field because their values may not be the same from record to record.
-        """
-        unshared_fields_dims = super().unshared_fields_dims_site()
-        unshared_fields_dims.update({
-            'tx_antenna_phases': [lambda arrays, record_num: arrays['data'].shape[1]],
-            })
-        return unshared_fields_dims
-
 
 # borealis versions
 borealis_version_dict = {
-- 
2.43.0


From 6521f69cbd1b9dcf1b1ecf2234d4f2c61353392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 14/44] fix: keep per-sequence pulse phase offsets when reading
 Borealis site files

---
 pydarnio/borealis/borealis_utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index e00fefe..d7cb168 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -636,5 +636,8 @@ class BorealisUtilities():
             if 'pulse_phase_offset' not in rec:
                 continue
             ppo = rec['pulse_phase_offset']
-            if ppo.shape != rec['pulses'].shape:  # The field is broken, was empty when written to file and so was restructured improperly
+            valid_shapes = [rec['pulses'].shape]
+            if 'num_sequences' in rec:
+                valid_shapes.append((rec['num_sequences'],) + rec['pulses'].shape)
+            if ppo.shape not in valid_shapes:  # The field is broken, was empty when written to file and so was restructured improperly
                 rec['pulse_phase_offset'] = np.zeros(rec['pulses'].shape, dtype=np.float32)
\ No newline at end of file
-- 
2.43.0


From 65644883c5c06e9ffea37643283aaef32452ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 15/44] fix: keep valid pulse phase offsets of two pulses when
 reading Borealis array files

---
 pydarnio/borealis/borealis_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index d7cb168..d9aba92 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -624,7 +624,7 @@ class BorealisUtilities():
         if 'pulse_phase_offset' not in data_dict:
             return
         ppo = data_dict['pulse_phase_offset']
-        if ppo.shape == (2,):  # The field is broken, was empty when written to file and so was restructured improperly
+        if ppo.shape == (2,) and ppo.dtype == np.int64:  # The field is broken, was empty when written to file and so was restructured improperly
             data_dict['pulse_phase_offset'] = np.zeros((data_dict['num_sequences'].shape[0], 0), dtype=np.float32)
 
     @staticmethod
-- 
2.43.0


From e5464e3150010b08d0fc728e7f3429713f0523d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 16/44] fix: restructure Borealis pulse phase offsets given
 once per pulse

---
 pydarnio/borealis/base_format.py      | 31 ++++++++++++++++++++++++++-
 pydarnio/borealis/borealis_formats.py | 14 ++----------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 7a4fca6..f1859bb 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -605,7 +605,7 @@ class BaseFormat():
                                 actual_size = site_file[record_name][field].size
                                 num_sequences = site_file[record_name]['data_dimensions'][1]
                                 num_pulses = site_file[record_name]['pulses'].size
-                                if actual_size != num_sequences * num_pulses and actual_size != 0:
+                                if actual_size not in [0, num_pulses, num_sequences * num_pulses]:
                                     if actual_size == 1:    # This is the special case
                                         field_shape = (0,)
                                     else:
@@ -1570,3 +1570,32 @@ class BaseFormat():
 
         return list(max_ppo_shape)
 
+    @staticmethod
+    def find_pulse_phase_offset_dims(arrays: dict, record_num: int) -> list:
+        """
+        Finds the shape of the phase encoding values of a single record in
+        array style data.
+
+        Parameters
+        ----------
+        arrays
+            Array style data, with the record as first dimension of
+            pulse_phase_offset
+        record_num
+            Index of the record in the arrays
+
+        Returns
+        -------
+        ppo_shape
+            [num_sequences, num_pulses] if there is one offset per pulse and
+            sequence, [num_pulses] if there is one offset per pulse, and [-1]
+            if the field was not restructured properly.
+        """
+
+        ppo_shape = arrays["pulse_phase_offset"].shape
+        if len(ppo_shape) == 1:
+            return [-1]
+        if len(ppo_shape) == 2:
+            return [ppo_shape[1]]
+        return [arrays["num_sequences"][record_num]] + list(ppo_shape[2:])
+
diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index 29244ff..6a8d8be 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2111,12 +2111,7 @@ class BorealisBfiqv0_6(BorealisBfiqv0_5):
             'lp_status_word': [],
             'gps_locked': [],
             'gps_to_system_time_diff': [],
-            'pulse_phase_offset': [lambda arrays, record_num:
-                                   -1 if arrays['pulse_phase_offset'].size < arrays['num_sequences'][record_num]
-                                   else
-                                   list((arrays['num_sequences'][record_num],)
-                                        + arrays['pulse_phase_offset'][
-                                              record_num].shape[1:])],
+            'pulse_phase_offset': [cls.find_pulse_phase_offset_dims],
             })
         return unshared_fields_dims
 
@@ -2184,12 +2179,7 @@ class BorealisAntennasIqv0_6(BorealisAntennasIqv0_5):
             'lp_status_word': [],
             'gps_locked': [],
             'gps_to_system_time_diff': [],
-            'pulse_phase_offset': [lambda arrays, record_num:
-                                   -1 if arrays['pulse_phase_offset'].size < arrays['num_sequences'][record_num]
-                                   else
-                                   list((arrays['num_sequences'][record_num],)
-                                        + arrays['pulse_phase_offset'][
-                                              record_num].shape[1:])],
+            'pulse_phase_offset': [cls.find_pulse_phase_offset_dims],
             })
         return unshared_fields_dims
 
-- 
2.43.0


From 9d854bd44715d10d84cde84fd4f3c97ab49eb952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 17/44] fix: check per-sequence pulse phase offsets before
 converting to iqdat

---
 pydarnio/borealis/borealis_convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 77fae9a..0c119dd 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -398,7 +398,7 @@ class BorealisConvert(BorealisRead):
                                                   record['pulses'],
                                                   int(record['tau_spacing'] /
                                                       record['tx_pulse_len'])))
-                if not all([x == 0 for x in record['pulse_phase_offset']]):
+                if np.any(record['pulse_phase_offset']):
                     raise borealis_exceptions.\
                             BorealisConvert2IqdatError(
                                 'Increased complexity: Borealis bfiq file '
-- 
2.43.0


From 4980c7a652fe3eeb46d0260382635a4317072d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 18/44] fix: use the h5py name of the default compression of
 Borealis array files

---
 pydarnio/borealis/borealis.py       | 8 ++++----
 pydarnio/borealis/borealis_array.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pydarnio/borealis/borealis.py b/pydarnio/borealis/borealis.py
index 331f9ca..10e9714 100644
--- a/pydarnio/borealis/borealis.py
+++ b/pydarnio/borealis/borealis.py
@@ -302,11 +302,11 @@ class BorealisWrite():
         the data.
     compression: Union[str, None]
         The type of compression the file is written with. Default is
-        None for site structure, and 'zlib' for array structure.
+        None for site structure, and 'gzip' for array structure.
         Site structured files will have no compression to match
         files actually written on-site, where records are constantly
         appended so there is no compression. Array structured files
-        will have 'zlib' compression to enable a faster read time
+        will have 'gzip' compression to enable a faster read time
         for downstream users.
     arrays: dict
         The Borealis data in a dictionary of arrays, according to the
@@ -391,11 +391,11 @@ class BorealisWrite():
     def compression(self):
         """
         The type of compression the file is written with. Default is
-        None for site structure, and 'zlib' for array structure.
+        None for site structure, and 'gzip' for array structure.
         Site structured files will have no compression to match
         files actually written on-site, where records are constantly
         appended so there is no compression. Array structured files
-        will have 'zlib' compression to enable a faster read time
+        will have 'gzip' compression to enable a faster read time
         for downstream users.
         """
         return self._writer.compression
diff --git a/pydarnio/borealis/borealis_array.py b/pydarnio/borealis/borealis_array.py
index 0b15680..372cb24 100644
--- a/pydarnio/borealis/borealis_array.py
+++ b/pydarnio/borealis/borealis_array.py
@@ -273,8 +273,8 @@ class BorealisArrayWrite():
     software_version: str
     format: subclass of borealis_formats.BaseFormat
     compression: str
-        The type of compression to write the file as. Default zlib.
-        zlib is hdf5 default compression for fast reading. We want
+        The type of compression to write the file as. Default gzip.
+        gzip is hdf5 default compression for fast reading. We want
         the fastest read possible for downstream users with this
         structure style.
 
@@ -288,7 +288,7 @@ class BorealisArrayWrite():
     """
 
     def __init__(self, filename: str, borealis_arrays: dict,
-                 borealis_filetype: str, hdf5_compression: str = 'zlib'):
+                 borealis_filetype: str, hdf5_compression: str = 'gzip'):
         """
         Write Borealis arrays to an array restructured file.
 
@@ -306,7 +306,7 @@ class BorealisArrayWrite():
             'antennas_iq'
             'rawacf'
         hdf5_compression: str
-            String representing hdf5 compression type. Default zlib.
+            String representing hdf5 compression type. Default gzip.
 
         Raises
         ------
-- 
2.43.0


From c39c66d2855649da2b6ea1ca882e4119a236f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 19/44] fix: restructure Borealis records with empty arrays
 next to longer ones

---
 pydarnio/borealis/base_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index f1859bb..6ef9dc3 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1128,7 +1128,7 @@ class BaseFormat():
                     # dims with a determined max value
                     data_buffer = data_dict[k][field]
                     buffer_shape = data_buffer.shape
-                    index_slice = [slice(0, i) for i in buffer_shape if i != 0]
+                    index_slice = [slice(0, i) for i in buffer_shape]
                     # insert record index at start of array's slice list
                     index_slice.insert(0, rec_idx)
                     index_slice = tuple(index_slice)
-- 
2.43.0


From 998cfe56e7af0267ff8ba19913e17d622e600813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 20/44] fix: report every site to array file failure as a
 restructure error

---
 pydarnio/borealis/borealis_restructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 2846901..59b2d30 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -445,7 +445,7 @@ class BorealisRestructure(object):
                                            unshared_fields)
             self.format.write_arrays(self.outfile_name, new_data_dict, self.compression)
 
-        except TypeError as err:
+        except Exception as err:
             raise borealis_exceptions.BorealisRestructureError(
                 'Records for {}: Error restructuring {} from site to array '
                 'style: {}'.format(self.infile_name, self.format.__name__, err)
-- 
2.43.0


From 541609939a40cc4e5f5d4a23ab2256c64268ba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 21/44] fix: write Borealis text attributes as UTF-8

---
 pydarnio/borealis/base_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 6ef9dc3..a9298ee 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1384,7 +1384,7 @@ class BaseFormat():
                 for k, v in group_dict.items():
                     if k in attribute_types.keys():
                         if isinstance(v, str):
-                            group.attrs[k] = np.bytes_(v)
+                            group.attrs[k] = np.bytes_(v.encode('utf-8'))
                         else:
                             group.attrs[k] = v
                     elif v.dtype.type == np.str_:
@@ -1417,7 +1417,7 @@ class BaseFormat():
             for k, v in arrays.items():
                 if k in attribute_types:
                     if isinstance(v, str):
-                        f.attrs[k] = np.bytes_(v)
+                        f.attrs[k] = np.bytes_(v.encode('utf-8'))
                     else:
                         f.attrs[k] = v
                 elif v.dtype.type == np.str_:
-- 
2.43.0


From f04610a66c3e2d3c00255ddd703bd9086fb58a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 22/44] fix: decode per-record text as UTF-8 when restructuring
 Borealis files

---
 pydarnio/borealis/borealis_restructure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 59b2d30..3813cb8 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -436,7 +436,10 @@ class BorealisRestructure(object):
                             # place data buffer in the correct place
                             empty_array[index_slice] = data_buffer
                         else:  # not an array, num_records is the only dimension
-                            empty_array[rec_idx] = data_dict[field]
+                            value = data_dict[field]
+                            if isinstance(value, bytes):
+                                value = value.decode('utf-8')
+                            empty_array[rec_idx] = value
 
             attribute_types = self.format.array_single_element_types()
             dataset_types = self.format.array_array_dtypes()
-- 
2.43.0


From d34a119fa57b1b2b20fa3449999084f36cc8be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 23/44] fix: keep per-record text longer than 256 characters
 when restructuring

---
 pydarnio/borealis/base_format.py          | 5 +++--
 pydarnio/borealis/borealis_restructure.py | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index a9298ee..afb28e1 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1104,8 +1104,9 @@ class BaseFormat():
                 datatype = cls.array_dtypes()[field]
             if datatype == str:
                 # unicode type needs to be explicitly set to have
-                # multiple chars (256)
-                datatype='|U256'
+                # multiple chars (at least 256)
+                max_len = max(len(record[field]) for record in data_dict.values())
+                datatype = '|U{}'.format(max(256, max_len))
             empty_array = np.empty(array_dims, dtype=datatype)
             # Some indices may not be filled due to dimensions that are maximum values (num_sequences, etc. can change
             # between records), so they are initialized with a known value first.
diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 3813cb8..2061196 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -439,6 +439,9 @@ class BorealisRestructure(object):
                             value = data_dict[field]
                             if isinstance(value, bytes):
                                 value = value.decode('utf-8')
+                            if isinstance(value, str) and len(value) > empty_array.dtype.itemsize // 4:
+                                empty_array = empty_array.astype('|U{}'.format(len(value)))
+                                new_data_dict[field] = empty_array
                             empty_array[rec_idx] = value
 
             attribute_types = self.format.array_single_element_types()
-- 
2.43.0


From 16765096343073030829c1a19205dda8bfad9d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 24/44] fix: refuse unknown Borealis file types of site data
 with the documented error

---
 pydarnio/borealis/borealis_site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_site.py b/pydarnio/borealis/borealis_site.py
index 833b064..f30320e 100644
--- a/pydarnio/borealis/borealis_site.py
+++ b/pydarnio/borealis/borealis_site.py
@@ -343,12 +343,12 @@ class BorealisSiteWrite():
         BorealisVersionError
             Borealis software version format does not exist in pyDARNio
         """
+        self.filename = filename
         self._records = borealis_records
         if borealis_filetype not in ['bfiq', 'antennas_iq', 'rawacf', 'rawrf']:
             raise borealis_exceptions.BorealisFileTypeError(
                 self.filename, borealis_filetype)
         self.borealis_filetype = borealis_filetype
-        self.filename = filename
         self.compression = hdf5_compression
         self._record_names = sorted(list(borealis_records.keys()))
 
-- 
2.43.0


From e89bcfd09fe7320a664193e4ef9530bdb74f23c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 25/44] fix: report Borealis data without a software version as
 a structure error

---
 pydarnio/borealis/borealis_array.py     | 4 ++--
 pydarnio/borealis/borealis_site.py      | 4 ++--
 pydarnio/borealis/borealis_utilities.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pydarnio/borealis/borealis_array.py b/pydarnio/borealis/borealis_array.py
index 372cb24..bb945e6 100644
--- a/pydarnio/borealis/borealis_array.py
+++ b/pydarnio/borealis/borealis_array.py
@@ -118,7 +118,7 @@ class BorealisArrayRead():
             with h5py.File(self.filename, 'r') as f:
                 full_version = f.attrs['borealis_git_hash'].decode('utf-8').split('-')[0]
                 version = '.'.join(full_version.split('.')[:2])      # vX.Y, ignore patch revision
-        except KeyError as err:
+        except (AttributeError, KeyError) as err:
             raise borealis_exceptions.BorealisStructureError(
                 ' {} Could not find the borealis_git_hash required to '
                 'determine read version (file may be site style) {}'
@@ -329,7 +329,7 @@ class BorealisArrayWrite():
         try:
             version = self._arrays['borealis_git_hash'].split('-')[0]
             version = '.'.join(version.split('.')[:2])      # vX.Y, ignore patch revision
-        except KeyError as err:
+        except (AttributeError, KeyError) as err:
             raise borealis_exceptions.BorealisStructureError(
                 ' {} Could not find the borealis_git_hash required to '
                 'determine write version (data may be site style): {}'
diff --git a/pydarnio/borealis/borealis_site.py b/pydarnio/borealis/borealis_site.py
index f30320e..c37bfd9 100644
--- a/pydarnio/borealis/borealis_site.py
+++ b/pydarnio/borealis/borealis_site.py
@@ -127,7 +127,7 @@ class BorealisSiteRead():
                 first_rec = f[self._record_names[0]]
                 full_version = first_rec.attrs['borealis_git_hash'].decode('utf-8').split('-')[0]
                 version = '.'.join(full_version.split('.')[:2])      # vX.Y, ignore patch revision
-        except (IndexError, KeyError) as err:
+        except (AttributeError, IndexError, KeyError) as err:
             # if this is an array style file, it will raise
             # IndexError on the array.
             raise borealis_exceptions.BorealisStructureError(
@@ -358,7 +358,7 @@ class BorealisSiteWrite():
             version = self._records[self.record_names[0]][
                 'borealis_git_hash'].split('-')[0]
             version = '.'.join(version.split('.')[:2])      # get only vX.Y, ignore patch revision
-        except (IndexError, ValueError) as err:
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError) as err:
             # if this is an array style file, it will raise
             # IndexError on the array.
             raise borealis_exceptions.BorealisStructureError(
diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index d9aba92..07c23db 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -588,7 +588,7 @@ class BorealisUtilities():
             try:
                 with h5py.File(filename, 'r') as f:
                     borealis_git_hash = f.attrs['borealis_git_hash'].decode('utf-8')
-            except KeyError as err:
+            except (AttributeError, KeyError) as err:
                 raise borealis_exceptions.BorealisStructureError(
                     ' {} Could not find the borealis_git_hash required to '
                     'determine file version. Data file may be corrupted. {}'
@@ -600,7 +600,7 @@ class BorealisUtilities():
                     first_rec = f[records[0]]
                     borealis_git_hash = first_rec.attrs['borealis_git_hash']\
                                             .decode('utf-8')
-            except KeyError as err:
+            except (AttributeError, IndexError, KeyError) as err:
                 raise borealis_exceptions.BorealisStructureError(
                     ' {} Could not find the borealis_git_hash required to '
                     'determine file version. Data file may be corrupted. {}'
-- 
2.43.0


From 533edd63056c7d91e23bea9a88f9267b1dde6fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 26/44] fix: report plain Python values in Borealis data as
 incorrect types

---
 pydarnio/borealis/borealis_utilities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index 07c23db..10021d8 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -263,12 +263,13 @@ class BorealisUtilities():
                                  for param in attributes_type_dict.keys()
                                  if type(record[param]) !=
                                  attributes_type_dict[param] and
-                                 record[param].shape is not None}
+                                 getattr(record[param], 'shape', ()) is not None}
 
         incorrect_types_check.update({param: 'np.ndarray of ' +
                                       str(datasets_type_dict[param])
                                       for param in datasets_type_dict.keys()
-                                      if record[param].dtype.type !=
+                                      if not isinstance(record[param], np.ndarray) or
+                                      record[param].dtype.type !=
                                       datasets_type_dict[param]})
         if len(incorrect_types_check) > 0:
             raise borealis_exceptions.BorealisDataFormatTypeError(
@@ -323,7 +324,7 @@ class BorealisUtilities():
                                  for param in attributes_type_dict.keys()
                                  if type(file_data[param]) !=
                                  attributes_type_dict[param] and
-                                 file_data[param].shape is not None}
+                                 getattr(file_data[param], 'shape', ()) is not None}
 
         datasets_type_dict_keys = sorted(list(datasets_type_dict.keys()))
         np_array_types = [isinstance(file_data[param], np.ndarray) for param in
-- 
2.43.0


From bffa0ac5b6c2475d6f7e8f67383f350294e55e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 27/44] fix: accept arrays of text only for text fields of
 Borealis arrays

---
 pydarnio/borealis/borealis_utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index 10021d8..23bc243 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -346,7 +346,8 @@ class BorealisUtilities():
                                       for param in datasets_type_dict.keys()
                                       if file_data[param].dtype.type !=
                                       datasets_type_dict[param] and
-                                      file_data[param].dtype.type != np.str_})
+                                      not (file_data[param].dtype.type == np.str_ and
+                                           issubclass(datasets_type_dict[param], (str, bytes)))})
         if 'pulse_phase_offset' in incorrect_types_check.keys():
             if file_data['pulse_phase_offset'].dtype.type == np.int64 and file_data['pulse_phase_offset'].shape == (2,):
                 incorrect_types_check.pop('pulse_phase_offset')     # This field is problematic, hack to ignore
-- 
2.43.0


From 307c5f6ecfea2a08b69e03273e5cf868653815ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 28/44] fix: refuse to restructure unsupported Borealis
 versions with the documented error

---
 pydarnio/borealis/borealis_restructure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 2061196..24e7c7b 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -127,6 +127,9 @@ class BorealisRestructure(object):
             get_borealis_structure(self.record_names)
         self._borealis_version = BorealisUtilities.get_borealis_version(
             self.infile_name, self.record_names, self.borealis_structure)
+        if self.software_version not in borealis_formats.borealis_version_dict:
+            raise borealis_exceptions.BorealisVersionError(
+                self.infile_name, self.software_version)
         self._format = borealis_formats.borealis_version_dict[
             self.software_version][self.borealis_filetype]
 
-- 
2.43.0


From 164cf4335482301a4a74fe066dcaf5ae5ccfe9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 29/44] fix: recognise other spellings of the Borealis input
 path as output path

---
 pydarnio/borealis/borealis_convert.py     | 3 ++-
 pydarnio/borealis/borealis_restructure.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 0c119dd..2f584e7 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -42,6 +42,7 @@ Update noise values in SDarn fields when these can be calculated.
 """
 import logging
 import numpy as np
+import os
 
 from datetime import datetime
 from typing import Union
@@ -235,7 +236,7 @@ class BorealisConvert(BorealisRead):
                 self.sdarn_filename, self.borealis_filetype,
                 self.__allowed_conversions)
 
-        if self.borealis_filename == self.sdarn_filename:
+        if os.path.realpath(self.borealis_filename) == os.path.realpath(self.sdarn_filename):
             raise borealis_exceptions.ConvertFileOverWriteError(
                     self.borealis_filename)
         self._write_to_sdarn()
diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 24e7c7b..7e778ad 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -34,6 +34,7 @@ see: https://borealis.readthedocs.io/en/master/
 import h5py
 import logging
 import numpy as np
+import os
 from datetime import datetime
 from typing import Union
 from collections import OrderedDict
@@ -118,7 +119,7 @@ class BorealisRestructure(object):
                 "".format(outfile_structure))
         self.outfile_structure = outfile_structure
 
-        if self.infile_name == self.outfile_name:
+        if os.path.realpath(self.infile_name) == os.path.realpath(self.outfile_name):
             raise borealis_exceptions.ConvertFileOverWriteError(
                     self.infile_name)
 
-- 
2.43.0


From 8bcf09c5682419516e49bf85875b2437838b5dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 30/44] fix: copy Borealis files that already have the
 requested structure

---
 pydarnio/borealis/borealis_restructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 7e778ad..88dab8e 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -35,6 +35,7 @@ import h5py
 import logging
 import numpy as np
 import os
+import shutil
 from datetime import datetime
 from typing import Union
 from collections import OrderedDict
@@ -179,6 +180,7 @@ class BorealisRestructure(object):
             print("File {infile} is already structured in {struct} style."
                   "".format(infile=self.infile_name,
                             struct=self.outfile_structure))
+            shutil.copyfile(self.infile_name, self.outfile_name)
             return
         if self.format.is_restructureable():
             if self.outfile_structure == 'site':
-- 
2.43.0


From ffa57dda5c2b51be703f6d9dee96300b702c022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 31/44] fix: convert the times of iqdat sequences from seconds

---
 pydarnio/borealis/borealis_convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 2f584e7..4682b6d 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -732,11 +732,11 @@ class BorealisConvert(BorealisRead):
                                    record_dict['range_sep']),
                 'ptab': record_dict['pulses'].astype(np.int16),
                 'ltab': record_dict['lags'].astype(np.int16),
-                # timestamps in ms, convert to seconds and us.
-                'tsc': np.array([np.floor(x/1e3) for x in
+                # timestamps in seconds, convert to seconds and us.
+                'tsc': np.array([np.floor(x) for x in
                                  record_dict['sqn_timestamps']],
                                 dtype=np.int32),
-                'tus': np.array([np.fmod(x, 1000.0) * 1e3 for x in
+                'tus': np.array([np.fmod(x, 1.0) * 1e6 for x in
                                  record_dict['sqn_timestamps']],
                                 dtype=np.int32),
                 'tatten': np.array([0] * record_dict['num_sequences'],
-- 
2.43.0


From 891b59aa127dc95b119f869432a2ad0ab43bca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 32/44] fix: recognise the interferometer array in Borealis
 v0.7 bfiq conversion

---
 pydarnio/borealis/borealis_convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 4682b6d..70ea7a1 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -698,7 +698,7 @@ class BorealisConvert(BorealisRead):
                 'nrang': np.int16(record_dict['num_ranges']),
                 'frang': np.int16(round(record_dict['first_range'])),
                 'rsep': np.int16(round(record_dict['range_sep'])),
-                'xcf': np.int16('intf' in record_dict['antenna_arrays_order']),
+                'xcf': np.int16('intf' in record_dict['antenna_arrays_order'].astype(str)),
                 'tfreq': np.int16(record_dict['freq']),
                 # mxpwr filler; cannot specify this information
                 'mxpwr': np.int32(-1),
-- 
2.43.0


From 49265cc324a192da4529d73072ba59fc5650e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 33/44] fix: compare Borealis version numbers as numbers when
 checking blanked samples

---
 pydarnio/borealis/borealis_convert.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 70ea7a1..5fc0793 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -367,8 +367,8 @@ class BorealisConvert(BorealisRead):
                 # then use 255.255
                 if record['borealis_git_hash'][0] == 'v':  # tagged version, non-tagged versions have hexadecimal
                     version = record['borealis_git_hash'].split('-')[0].split('.')
-                    borealis_major_revision = version[0][1:]  # strip off the 'v'
-                    borealis_minor_revision = version[1]
+                    borealis_major_revision = int(version[0][1:])  # strip off the 'v'
+                    borealis_minor_revision = int(version[1])
                 else:
                     borealis_major_revision = 255
                     borealis_minor_revision = 255
@@ -443,8 +443,8 @@ class BorealisConvert(BorealisRead):
                 # then use 255.255
                 if record['borealis_git_hash'][0] == 'v':  # tagged version, non-tagged versions have hexadecimal
                     version = record['borealis_git_hash'].split('-')[0].split('.')
-                    borealis_major_revision = version[0][1:]  # strip off the 'v'
-                    borealis_minor_revision = version[1]
+                    borealis_major_revision = int(version[0][1:])  # strip off the 'v'
+                    borealis_minor_revision = int(version[1])
                 else:
                     borealis_major_revision = 255
                     borealis_minor_revision = 255
-- 
2.43.0


From 82a713ad2eeab5c93daf52c05aecd6bfa0820eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 34/44] fix: read all records from the start on every SuperDARN
 read call

---
 pydarnio/dmap/superdarn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/dmap/superdarn.py b/pydarnio/dmap/superdarn.py
index 7c76a11..def2350 100644
--- a/pydarnio/dmap/superdarn.py
+++ b/pydarnio/dmap/superdarn.py
@@ -395,6 +395,8 @@ class SDarnRead(DmapRead):
         if optional_list is None:
             optional_list = []
         self.rec_num = 0  # record number, for exception info
+        self.cursor = 0
+        self._dmap_records = collections.deque()
         while self.cursor < self.dmap_end_bytes:
             self._read_darn_record(format_fields, optional_list)
             self.rec_num += 1
@@ -887,8 +889,6 @@ class SDarnWrite(DmapWrite):
 
         """
         self.rec_num = 0
-        self.cursor = 0
-        self._dmap_records = collections.deque()
         self.dmap_bytearr = bytearray()
         pyDARNio_log.debug("Checking and converting SuperDARN data to bytes ")
 
-- 
2.43.0


From fa93f046ffc299af8a46a86643bf0bd20139695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 35/44] fix: write the scalars of a DMap record before its
 arrays

---
 pydarnio/dmap/dmap.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 0c175a5..7180671 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1057,18 +1057,21 @@ class DmapWrite(object):
         encoding_identifier = 65537
         num_scalars = 0
         num_arrays = 0
-        data_bytearray = bytearray()
+        # The format stores all scalars of a record before its arrays
+        scalar_bytearray = bytearray()
+        array_bytearray = bytearray()
         for name, data_info in record.items():
             if isinstance(data_info, DmapScalar):
-                data_bytearray.extend(self.dmap_scalar_to_bytes(data_info))
+                scalar_bytearray.extend(self.dmap_scalar_to_bytes(data_info))
                 num_scalars += 1
             elif isinstance(data_info, DmapArray):
-                data_bytearray.extend(self.dmap_array_to_bytes(data_info))
+                array_bytearray.extend(self.dmap_array_to_bytes(data_info))
                 num_arrays += 1
             else:
                 raise dmap_exceptions.DmapTypeError(self.filename,
                                                     type(data_info),
                                                     self.rec_num)
+        data_bytearray = scalar_bytearray + array_bytearray
 
         # 16 = encoding_identifier (int - 4 bytes) + num_scalars (int - 4) +
         #      num_arrays (int - 4) + size of the block (int - 4)
-- 
2.43.0


From a43bb0509cb6db3e1ce0e2d488c7913a24673fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 36/44] fix: write empty DMap arrays of chars

---
 pydarnio/dmap/dmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 7180671..88c13df 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1160,7 +1160,8 @@ class DmapWrite(object):
             Total bytes of the array
         """
         # need to ensure the array is flattened
-        if array.data_type_fmt == 'c' and isinstance(array.value[0], str):
+        if array.data_type_fmt == 'c' and len(array.value) > 0 and \
+                isinstance(array.value[0], str):
             raise dmap_exceptions.DmapCharError(array.name, self.rec_num)
         elif array.data_type_fmt == 's':
             message = "Error: Trying to read array of strings."\
-- 
2.43.0


From c640cde1961703fddbb6736f6b2a356c0ba05c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 37/44] fix: write Borealis text arrays of any memory layout

---
 pydarnio/borealis/base_format.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index afb28e1..6a6ec66 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1390,6 +1390,7 @@ class BaseFormat():
                             group.attrs[k] = v
                     elif v.dtype.type == np.str_:
                         itemsize = v.dtype.itemsize // 4  # every character is 4 bytes
+                        v = np.ascontiguousarray(v, v.dtype.newbyteorder('='))
                         dset = group.create_dataset(k, data=v.view(dtype=(np.uint8)),
                                                     compression=compression)
                         dset.attrs['strtype'] = b'unicode'
@@ -1423,6 +1424,7 @@ class BaseFormat():
                         f.attrs[k] = v
                 elif v.dtype.type == np.str_:
                     itemsize = v.dtype.itemsize // 4  # every character is 4 bytes
+                    v = np.ascontiguousarray(v, v.dtype.newbyteorder('='))
                     dset = f.create_dataset(k, data=v.view(dtype=(np.uint8)), compression=compression)
                     dset.attrs['strtype'] = b'unicode'
                     dset.attrs['itemsize'] = itemsize
-- 
2.43.0


From 1eede85f665c774a3b13c049021bb152e9eb126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:33 +0000
Subject: [PATCH 38/44] fix: restructure empty per-record text of early
 Borealis files

---
 pydarnio/borealis/borealis_restructure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 88dab8e..b87f384 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -445,6 +445,10 @@ class BorealisRestructure(object):
                             value = data_dict[field]
                             if isinstance(value, bytes):
                                 value = value.decode('utf-8')
+                            elif isinstance(value, h5py.Empty):  # Field is empty
+                                value = value.dtype.type()
+                                if isinstance(value, bytes):
+                                    value = value.decode('utf-8')
                             if isinstance(value, str) and len(value) > empty_array.dtype.itemsize // 4:
                                 empty_array = empty_array.astype('|U{}'.format(len(value)))
                                 new_data_dict[field] = empty_array
-- 
2.43.0


From ccf0516f9d2b4636f3130d593e9ce5545beaf61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 39/44] fix: report missing pulses in Borealis records instead
 of failing on them

---
 pydarnio/borealis/borealis_utilities.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index 23bc243..64a796a 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -623,11 +623,13 @@ class BorealisUtilities():
         """
         Fixes the dtype and shape of the pulse_phase_offset field. Modifies data_dict in place.
         """
-        if 'pulse_phase_offset' not in data_dict:
-            return
-        ppo = data_dict['pulse_phase_offset']
+        ppo = data_dict.get('pulse_phase_offset')
+        num_sequences = data_dict.get('num_sequences')
+        if not isinstance(ppo, np.ndarray) or \
+                not isinstance(num_sequences, np.ndarray):
+            return  # Left for the format checks to report
         if ppo.shape == (2,) and ppo.dtype == np.int64:  # The field is broken, was empty when written to file and so was restructured improperly
-            data_dict['pulse_phase_offset'] = np.zeros((data_dict['num_sequences'].shape[0], 0), dtype=np.float32)
+            data_dict['pulse_phase_offset'] = np.zeros(num_sequences.shape[:1] + (0,), dtype=np.float32)
 
     @staticmethod
     def pulse_phase_offset_site_fix(data_dict: dict):
@@ -635,11 +637,13 @@ class BorealisUtilities():
         Fixes the dtype and shape of the pulse_phase_offset field. Modifies data_dict in place.
         """
         for rec in data_dict.values():
-            if 'pulse_phase_offset' not in rec:
-                continue
-            ppo = rec['pulse_phase_offset']
-            valid_shapes = [rec['pulses'].shape]
+            ppo = rec.get('pulse_phase_offset')
+            pulses = rec.get('pulses')
+            if not isinstance(ppo, np.ndarray) or \
+                    not isinstance(pulses, np.ndarray):
+                continue  # Left for the format checks to report
+            valid_shapes = [pulses.shape]
             if 'num_sequences' in rec:
-                valid_shapes.append((rec['num_sequences'],) + rec['pulses'].shape)
+                valid_shapes.append((rec['num_sequences'],) + pulses.shape)
             if ppo.shape not in valid_shapes:  # The field is broken, was empty when written to file and so was restructured improperly
-                rec['pulse_phase_offset'] = np.zeros(rec['pulses'].shape, dtype=np.float32)
\ No newline at end of file
+                rec['pulse_phase_offset'] = np.zeros(pulses.shape, dtype=np.float32)
\ No newline at end of file
-- 
2.43.0


From 6136922ed5ff11ad90522b36fdc06c6ff084beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 40/44] fix: refuse Borealis arrays whose version tag is not
 text as a structure error

---
 pydarnio/borealis/borealis_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_array.py b/pydarnio/borealis/borealis_array.py
index bb945e6..c52fd15 100644
--- a/pydarnio/borealis/borealis_array.py
+++ b/pydarnio/borealis/borealis_array.py
@@ -329,7 +329,7 @@ class BorealisArrayWrite():
         try:
             version = self._arrays['borealis_git_hash'].split('-')[0]
             version = '.'.join(version.split('.')[:2])      # vX.Y, ignore patch revision
-        except (AttributeError, KeyError) as err:
+        except (AttributeError, KeyError, TypeError) as err:
             raise borealis_exceptions.BorealisStructureError(
                 ' {} Could not find the borealis_git_hash required to '
                 'determine write version (data may be site style): {}'
-- 
2.43.0


From 1838f88942977b439e2847e484d79c4d08b384b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:38 +0000
Subject: [PATCH 41/44] fix: round the sample separation of converted records
 to microseconds

---
 pydarnio/borealis/borealis_convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 5fc0793..42e5978 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -671,7 +671,7 @@ class BorealisConvert(BorealisRead):
                 'atten': np.int16(0),
                 'lagfr': np.int16(record_dict['first_range_rtt']),
                 # smsep is in us; conversion from seconds
-                'smsep': np.int16(1e6 / record_dict['rx_sample_rate']),
+                'smsep': np.int16(round(1e6 / record_dict['rx_sample_rate'])),
                 'ercod': np.int16(0),
                 'stat.agc': np.int16(agc_sw),
                 'stat.lopwr': np.int16(lp_sw),
@@ -965,7 +965,7 @@ class BorealisConvert(BorealisRead):
                 'nave': np.int16(record_dict['num_sequences']),
                 'atten': np.int16(0),
                 'lagfr': np.int16(record_dict['first_range_rtt']),
-                'smsep': np.int16(1e6/record_dict['rx_sample_rate']),
+                'smsep': np.int16(round(1e6/record_dict['rx_sample_rate'])),
                 'ercod': np.int16(0),
                 'stat.agc': np.int16(agc_sw),
                 'stat.lopwr': np.int16(lp_sw),
-- 
2.43.0


From ece838206210536f7dd09800d233941254e5cdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 42/44] fix: restructure site files whose pulse_phase_offset
 was empty when written

---
 pydarnio/borealis/base_format.py          | 2 +-
 pydarnio/borealis/borealis_restructure.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 6a6ec66..b7e4cc9 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -607,7 +607,7 @@ class BaseFormat():
                                 num_pulses = site_file[record_name]['pulses'].size
                                 if actual_size not in [0, num_pulses, num_sequences * num_pulses]:
                                     if actual_size == 1:    # This is the special case
-                                        field_shape = (0,)
+                                        field_shape = site_file[record_name]['pulses'].shape
                                     else:
                                         raise ValueError(f'Unexpected shape of field {field}: {field_shape}')
                         except KeyError:
diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index b87f384..26a5d60 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -344,6 +344,8 @@ class BorealisRestructure(object):
                     for field in self.format.bool_types():
                         rec_dict[field] = f[record_name].attrs[field]
 
+                    BorealisUtilities.pulse_phase_offset_site_fix({'tmp': rec_dict})
+
                     # some fields are linear in site style and need to be reshaped.
                     # Pass in record nested in a dictionary, as
                     # reshape_site_arrays is for dealing with key, val pairs of
-- 
2.43.0


From eb4a504325b0dc586b4a2a1ad86ea4380c2d2221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 43/44] fix: restructure array files whose pulse_phase_offset
 was empty when written

---
 pydarnio/borealis/borealis_restructure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 26a5d60..06c9d41 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -287,7 +287,11 @@ class BorealisRestructure(object):
                             index_slice = [slice(0, i) for i in site_dims if i != -1]
                             index_slice.insert(0, record_num)
                             index_slice = tuple(index_slice)
-                            record_dict[field] = f[field][index_slice]
+                            if field == 'pulse_phase_offset' and f[field].ndim == 1:
+                                # The field was empty when written to file, see pulse_phase_offset_array_fix
+                                record_dict[field] = np.zeros(0, dtype=np.float32)
+                            else:
+                                record_dict[field] = f[field][index_slice]
 
                     # Wrap in another dict to use the format method
                     record_dict = OrderedDict({key: record_dict})
-- 
2.43.0


From 6bd6c945fa9b7b4c914ec09e5fc7cb3d0db84a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:34 +0000
Subject: [PATCH 44/44] fix: leave what an existing file holds alone when
 Borealis data cannot be added to it

---
 pydarnio/borealis/base_format.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index b7e4cc9..4523838 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1380,6 +1380,11 @@ class BaseFormat():
         attribute_types = cls.site_single_element_types()
         dataset_types = cls.site_array_dtypes()
         with h5py.File(filename, 'a') as f:
+            # Nothing a file already holds may be changed
+            existing = [name for name in records if str(name) in f]
+            if existing or 'borealis_git_hash' in f.attrs:
+                raise ValueError('{} already holds {}'.format(
+                    filename, existing or 'array-structured data'))
             for group_name, group_dict in records.items():
                 group = f.create_group(str(group_name))
                 for k, v in group_dict.items():
@@ -1416,6 +1421,9 @@ class BaseFormat():
         dataset_types = cls.array_array_dtypes()
         unshared_fields = cls.unshared_fields()
         with h5py.File(filename, 'a') as f:
+            # Nothing a file already holds may be changed
+            if len(f) > 0:
+                raise ValueError('{} already holds data'.format(filename))
             for k, v in arrays.items():
                 if k in attribute_types:
                     if isinstance(v, str):
-- 
2.43.0

