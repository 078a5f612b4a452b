From 2d397787378a282e70a24670a446db81638bef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 01/26] fix: write the scalars of a DMap record before its
 arrays

The reader expects all scalars first; a record whose dictionary lists an
array before a scalar was written in an order that cannot be read back.
---
 pydarnio/dmap/dmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 8cb06bd..daee0e9 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1041,17 +1041,20 @@ class DmapWrite(object):
         num_scalars = 0
         num_arrays = 0
         data_bytearray = bytearray()
+        # DMap stores every scalar of a record before its first array
+        array_bytearray = bytearray()
         for name, data_info in record.items():
             if isinstance(data_info, DmapScalar):
                 data_bytearray.extend(self.dmap_scalar_to_bytes(data_info))
                 num_scalars += 1
             elif isinstance(data_info, DmapArray):
-                data_bytearray.extend(self.dmap_array_to_bytes(data_info))
+                array_bytearray.extend(self.dmap_array_to_bytes(data_info))
                 num_arrays += 1
             else:
                 raise dmap_exceptions.DmapTypeError(self.filename,
                                                     type(data_info),
                                                     self.rec_num)
+        data_bytearray.extend(array_bytearray)
 
         # 16 = encoding_identifier (int - 4 bytes) + num_scalars (int - 4) +
         #      num_arrays (int - 4) + size of the block (int - 4)
-- 
2.43.0


From cd17c238320a338ae256c5dde6ceceb3c43efc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 02/26] fix: do not reverse the caller's array shape while
 writing DMap arrays

list.reverse() changed the shape stored in the DmapArray, so writing the
same records a second time stored the dimensions in the wrong order.
---
 pydarnio/dmap/dmap.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index daee0e9..eec90bd 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1150,9 +1150,8 @@ class DmapWrite(object):
 
         array_dim_bytes = struct.pack('i', array.dimension)
         array_shape_bytes = bytes()
-        if array.dimension > 1:
-            array.shape.reverse()
-        for size in array.shape:
+        # DMap stores the dimensions in reverse order
+        for size in reversed(array.shape):
             array_shape_bytes += struct.pack('i', size)
 
         array_data_bytes = array_value.tostring()
-- 
2.43.0


From cb0e48b003c61834f89fd063a74744dfe4b5e4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 03/26] fix: start every DMap write from an empty byte buffer

A second write with the same writer appended to the bytes of the first, so
the file contained every record twice.
---
 pydarnio/dmap/dmap.py      | 1 +
 pydarnio/dmap/superdarn.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index eec90bd..5b93a01 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1017,6 +1017,7 @@ class DmapWrite(object):
         # For performance increase len of the records can be
         # attribute value initialized in the class
         pyDARNio_log.debug("Converting DMap records to bytes")
+        self.dmap_bytearr = bytearray()
         for self.rec_num in range(len(self.dmap_records)):
             record = self.dmap_records[self.rec_num]
             self._dmap_record_to_bytes(record)
diff --git a/pydarnio/dmap/superdarn.py b/pydarnio/dmap/superdarn.py
index 017fda7..b545441 100644
--- a/pydarnio/dmap/superdarn.py
+++ b/pydarnio/dmap/superdarn.py
@@ -885,6 +885,7 @@ class SDarnWrite(DmapWrite):
 
         """
         self.rec_num = 0
+        self.dmap_bytearr = bytearray()
         pyDARNio_log.debug("Checking and converting SuperDARN data to bytes ")
 
         for self.rec_num in range(len(self.dmap_records)):
-- 
2.43.0


From 4feb43fe54d250cf714c5fe0a2306e068ec6403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 04/26] fix: keep every byte of non-ASCII names and strings in
 DMap files

The packed length was the number of characters, so the last bytes and the
terminating NUL of multi-byte text were cut off.
---
 pydarnio/dmap/dmap.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 5b93a01..3a81f09 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1085,18 +1085,14 @@ class DmapWrite(object):
         """
 
         scalar_name = "{0}\0".format(scalar.name)
-        scalar_name_format = '{0}s'.format(len(scalar_name))
-        scalar_name_bytes = struct.pack(scalar_name_format,
-                                        scalar_name.encode('utf-8'))
+        scalar_name_bytes = scalar_name.encode('utf-8')
 
         scalar_type_bytes = struct.pack('c',
                                         chr(scalar.data_type).encode('utf-8'))
 
         if scalar.data_type_fmt == 's':
             scalar_data = "{0}\0".format(scalar.value)
-            scalar_data_format = '{0}s'.format(len(scalar_data))
-            scalar_data_bytes = struct.pack(scalar_data_format,
-                                            scalar_data.encode('utf-8'))
+            scalar_data_bytes = scalar_data.encode('utf-8')
         elif scalar.data_type_fmt == 'c':
             # char is defined as int8 by RST
             if isinstance(scalar.value, str):
@@ -1142,9 +1138,7 @@ class DmapWrite(object):
 
         array_value = array.value.flatten()
         array_name = "{0}\0".format(array.name)
-        array_name_format = '{0}s'.format(len(array_name))
-        array_name_bytes = struct.pack(array_name_format,
-                                       array_name.encode('utf-8'))
+        array_name_bytes = array_name.encode('utf-8')
 
         array_type_bytes = struct.pack('c',
                                        chr(array.data_type).encode('utf-8'))
-- 
2.43.0


From fc1587616215fb0058f6784e4f9c7ca53b21c313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 05/26] fix: read and write DMap char scalars as int8

chr().encode() raised ValueError for negative values and wrote two bytes
for values above 127; the reader returned negative values as unsigned.
---
 pydarnio/dmap/dmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 3a81f09..df049a4 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -691,9 +691,9 @@ class DmapRead():
             # This casting is needed to keep the correct instance otherwise
             # python will default it to int which later could have some
             # consequences if you try to rewrite the file
-            data = self.dmap_bytearr[self.cursor]
+            data = struct.unpack_from('b', self.dmap_buffer, self.cursor)
             self.cursor += data_fmt_bytes
-            return data
+            return data[0]
         elif data_type_fmt == 's':
             byte_counter = 0
             while self.dmap_bytearr[self.cursor + byte_counter] != 0 or \
@@ -1098,7 +1098,7 @@ class DmapWrite(object):
             if isinstance(scalar.value, str):
                 raise dmap_exceptions.DmapCharError(scalar.name, self.rec_num)
             # scalar_data_bytes = scalar.value
-            scalar_data_bytes = chr(scalar.value).encode('utf-8')
+            scalar_data_bytes = struct.pack('b', scalar.value)
         elif scalar.data_type_fmt == 'f':
             scalar_data_value = np.float32(scalar.value)
             scalar_data_bytes = struct.pack(scalar.data_type_fmt,
-- 
2.43.0


From 88a2fd735dd1d571ae527247f863e09f0c793010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 06/26] fix: write DMap array data in native byte order

The reader decodes native order, arrays held in the other byte order were
written unswapped. tobytes() replaces the deprecated alias tostring().
---
 pydarnio/dmap/dmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index df049a4..c516253 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1149,7 +1149,8 @@ class DmapWrite(object):
         for size in reversed(array.shape):
             array_shape_bytes += struct.pack('i', size)
 
-        array_data_bytes = array_value.tostring()
+        array_data_bytes = array_value.astype(
+            array_value.dtype.newbyteorder('=')).tobytes()
 
         array_total_bytes = array_name_bytes + array_type_bytes + \
             array_dim_bytes + array_shape_bytes + array_data_bytes
-- 
2.43.0


From ee9ea16a457cdeed1bfd125ae9d4565f2a3d40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 07/26] fix: report a failed DMap integrity test with the file
 name

self.data_file does not exist, the check ended in an AttributeError.
---
 pydarnio/dmap/dmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index c516253..867e69d 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -369,7 +369,7 @@ class DmapRead():
                 "".format(total_size=total_block_size,
                           end_bytes=self.dmap_end_bytes,
                           rec=self.rec_num)
-            raise dmap_exceptions.DmapDataError(self.data_file, message)
+            raise dmap_exceptions.DmapDataError(self.dmap_file, message)
         self.cursor = 0
 
     def read_records(self) -> collections.deque:
-- 
2.43.0


From cb07e6c4cecb9a5da14110679b59d692475d7f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 08/26] fix: reject unterminated and undecodable strings in
 DMap data

The terminator scan tested the byte before the bound, so a string cut off
by the end of the data raised IndexError, and text that is not UTF-8 raised
UnicodeDecodeError, instead of the documented DMap exceptions.
---
 pydarnio/dmap/dmap.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 867e69d..f8e3029 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -696,14 +696,18 @@ class DmapRead():
             return data[0]
         elif data_type_fmt == 's':
             byte_counter = 0
-            while self.dmap_bytearr[self.cursor + byte_counter] != 0 or \
-                    self.cursor + byte_counter >= self.dmap_end_bytes:
+            while self.cursor + byte_counter < self.dmap_end_bytes and \
+                    self.dmap_bytearr[self.cursor + byte_counter] != 0:
                 # add 1 byte to byte_counter because
                 # a string is a list of chars
                 byte_counter += 1  # 1 is the number of bytes of a char
 
-            self.bytes_check(self.cursor + byte_counter, 'cursor',
-                             self.dmap_end_bytes, 'Total number of Bytes')
+            if self.cursor + byte_counter >= self.dmap_end_bytes:
+                message = "Error: String at cursor {cursor} is not"\
+                    " terminated. Failed at record {rec}"\
+                    "".format(cursor=self.cursor, rec=self.rec_num)
+                raise dmap_exceptions.CursorError(self.cursor,
+                                                  message=message)
 
             # format byte counter to a string format for unpacking
             # WARNING: not using format for performance purposes
@@ -713,7 +717,14 @@ class DmapRead():
                                       self.cursor)
             # 1 is the number of bytes in a char
             self.cursor = self.cursor + byte_counter + 1
-            return data[0].decode('utf-8')
+            try:
+                return data[0].decode('utf-8')
+            except UnicodeDecodeError as err:
+                message = "Error: {data} is not valid UTF-8 text."\
+                    " Failed at record {rec}".format(data=data[0],
+                                                     rec=self.rec_num)
+                raise dmap_exceptions.DmapDataError(self.dmap_file,
+                                                    message) from err
         else:
             data = struct.unpack_from(data_type_fmt,
                                       self.dmap_buffer,
-- 
2.43.0


From 73507591bb2b8a19635553743117494dcc91cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 09/26] fix: keep DMap array reads inside the data

An array that extends past the end of the data raised numpy's ValueError,
and a negative slist dimension moved the cursor backwards.
---
 pydarnio/dmap/dmap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index f8e3029..dedb8a1 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -567,7 +567,8 @@ class DmapRead():
 
         # slist is the array that holds the range gates that have valid data
         # when qflg is 1
-        if any(x <= 0 for x in array_shape) and array_name != "slist":
+        if any(x < 0 or (x == 0 and array_name != "slist")
+               for x in array_shape):
             message = "Error: Array shape {shape} contains "\
                 "dimension size <= 0."\
                 " Failed at record {rec}".format(shape=array_shape,
@@ -598,6 +599,10 @@ class DmapRead():
         self.bytes_check(total_num_cells_bytes,
                          "total number of cells in bytes",
                          record_size, "record size")
+        self.bytes_check(total_num_cells_bytes,
+                         "total number of cells in bytes",
+                         self.dmap_end_bytes - self.cursor,
+                         "remaining bytes")
 
         # parsing an array of strings requires a different method. Numpy can't
         # parse strings or dmaps into arrays the way it can for other
-- 
2.43.0


From 5e9e0ae38b153f292352eb42ec381f552c10beee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 10/26] fix: name the field, not a tuple, in DmapCharError

---
 pydarnio/exceptions/dmap_exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/exceptions/dmap_exceptions.py b/pydarnio/exceptions/dmap_exceptions.py
index b02399e..c5a243d 100644
--- a/pydarnio/exceptions/dmap_exceptions.py
+++ b/pydarnio/exceptions/dmap_exceptions.py
@@ -65,7 +65,7 @@ class DmapCharError(Exception):
         Record number the error was raised at
     """
     def __init__(self, data_name: str, rec_num: int):
-        self.data_name = data_name,
+        self.data_name = data_name
         self.rec_num = rec_num
         self.message = "Error: For field {field} at record number"\
             " {rec_num} is"\
-- 
2.43.0


From a710f315c907cf033c5ace5cbd079bc6856c0ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:08 +0000
Subject: [PATCH 11/26] fix: let SDarnRead.get_records work before a read and
 after read_records

get_records returned an attribute that only the read_<type> methods set.
---
 pydarnio/dmap/superdarn.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pydarnio/dmap/superdarn.py b/pydarnio/dmap/superdarn.py
index b545441..69162b3 100644
--- a/pydarnio/dmap/superdarn.py
+++ b/pydarnio/dmap/superdarn.py
@@ -410,7 +410,7 @@ class SDarnRead(DmapRead):
         Gets the records containing the dictionary of fields from
         the file read in
         """
-        return self.records
+        return self._records
 
     def read_iqdat(self) -> List[dict]:
         """
@@ -424,7 +424,7 @@ class SDarnRead(DmapRead):
         pyDARNio_log.info("Reading Iqdat file: {}".format(self.dmap_file))
         file_struct_list = [superdarn_formats.Iqdat.types]
         self._read_darn_records(file_struct_list)
-        self.records = dmap2dict(self._dmap_records)
+        self._records = self.records = dmap2dict(self._dmap_records)
         return self.records
 
     def read_rawacf(self) -> List[dict]:
@@ -444,7 +444,7 @@ class SDarnRead(DmapRead):
                             superdarn_formats.Rawacf.digitizing_field,
                             superdarn_formats.Rawacf.fittex_field]
         self._read_darn_records(file_struct_list)
-        self.records = dmap2dict(self._dmap_records)
+        self._records = self.records = dmap2dict(self._dmap_records)
         return self.records
 
     def read_fitacf(self) -> List[dict]:
@@ -471,7 +471,7 @@ class SDarnRead(DmapRead):
                             superdarn_formats.Fitacf.xcf_fields_fitacf2]
         optional_list = [superdarn_formats.Fitacf.optional_fields]
         self._read_darn_records(file_struct_list, optional_list)
-        self.records = dmap2dict(self._dmap_records)
+        self._records = self.records = dmap2dict(self._dmap_records)
         return self.records
 
     def read_snd(self) -> List[dict]:
@@ -491,7 +491,7 @@ class SDarnRead(DmapRead):
                             superdarn_formats.Snd.xcf_fields]
         optional_list = [superdarn_formats.Snd.optional_fields]
         self._read_darn_records(file_struct_list, optional_list)
-        self.records = dmap2dict(self._dmap_records)
+        self._records = self.records = dmap2dict(self._dmap_records)
         return self.records
 
     def read_grid(self) -> List[dict]:
@@ -512,7 +512,7 @@ class SDarnRead(DmapRead):
                             superdarn_formats.Grid.fitted_fields,
                             superdarn_formats.Grid.extra_fields]
         self._read_darn_records(file_struct_list)
-        self.records = dmap2dict(self._dmap_records)
+        self._records = self.records = dmap2dict(self._dmap_records)
         return self.records
 
     def read_map(self) -> List[dict]:
@@ -539,7 +539,7 @@ class SDarnRead(DmapRead):
                             superdarn_formats.Map.hmb_fields,
                             superdarn_formats.Map.model_fields]
         self._read_darn_records(file_struct_list)
-        self.records = dmap2dict(self._dmap_records)
+        self._records = self.records = dmap2dict(self._dmap_records)
         return self.records
 
 
-- 
2.43.0


From f6cfde95eedc02faf944adaa7a763e5c496a8e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 12/26] fix: make Borealis rawrf site files readable and
 writable

The rawrf formats listed no site fields, so every rawrf record was rejected
as structurally wrong, and the v0.7 format referred to a find_num_antennas
method it does not have.
---
 pydarnio/borealis/borealis_formats.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index c9ba76c..9fd10d1 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -1685,6 +1685,18 @@ class BorealisRawrfv0_4(BaseFormat):
         """
         return cls.fields.array_types('rawrf')
 
+    @classmethod
+    def site_fields(cls):
+        """
+        See BaseFormat class for description and use of this method.
+
+        Notes
+        -----
+        Rawrf only exists in site structure, so its fields are not split
+        into shared, unshared and site specific fields.
+        """
+        return list(cls.single_element_types()) + list(cls.array_dtypes())
+
 
 class BorealisRawacfv0_5(BorealisRawacfv0_4):
     """
@@ -2600,7 +2612,7 @@ class BorealisRawrf(BorealisRawrfv0_6):
         """
         unshared_fields_dims = super().unshared_fields_dims_array()
         unshared_fields_dims.update({
-            'tx_antenna_phases': [cls.find_num_antennas],
+            'tx_antenna_phases': [cls.fields.find_num_antennas_site],
             })
         return unshared_fields_dims
 
-- 
2.43.0


From b8984804c8ef82d7424d38717851b3f01f7262e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 13/26] fix: generate bytes data_descriptors for v0.7 bfiq and
 antennas_iq

v0.7 declares data_descriptors as bytes, the generated unicode arrays failed
the type check, so no v0.7 bfiq array file could be returned as records.
---
 pydarnio/borealis/borealis_formats.py | 44 +++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index 9fd10d1..be7b8f2 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2502,6 +2502,35 @@ class BorealisBfiq(BorealisBfiqv0_6):
             })
         return unshared_fields_dims
 
+    @classmethod
+    def array_specific_fields_generate(cls):
+        """
+        See BaseFormat class for description and use of this method.
+
+        Notes
+        -----
+        In Borealis v0.7, data_descriptors is an array of bytes.
+        """
+        fields_generate = super().array_specific_fields_generate()
+        fields_generate['data_descriptors'] = lambda records: np.bytes_(
+            ['num_records', 'num_antenna_arrays', 'max_num_sequences',
+             'max_num_beams', 'num_samps'])
+        return fields_generate
+
+    @classmethod
+    def site_specific_fields_generate(cls):
+        """
+        See BaseFormat class for description and use of this method.
+
+        Notes
+        -----
+        In Borealis v0.7, data_descriptors is an array of bytes.
+        """
+        fields_generate = super().site_specific_fields_generate()
+        fields_generate['data_descriptors'] = lambda arrays, record_num: np.bytes_(
+            ['num_antenna_arrays', 'num_sequences', 'num_beams', 'num_samps'])
+        return fields_generate
+
 
 class BorealisAntennasIq(BorealisAntennasIqv0_6):
     """
@@ -2580,6 +2609,21 @@ class BorealisAntennasIq(BorealisAntennasIqv0_6):
                  arrays['data'].shape[3]], dtype=np.uint32)
         }
 
+    @classmethod
+    def array_specific_fields_generate(cls):
+        """
+        See BaseFormat class for description and use of this method.
+
+        Notes
+        -----
+        In Borealis v0.7, data_descriptors is an array of bytes.
+        """
+        fields_generate = super().array_specific_fields_generate()
+        fields_generate['data_descriptors'] = lambda records: np.bytes_(
+            ['num_records', 'num_antennas', 'max_num_sequences', 'num_samps'])
+        return fields_generate
+
+
 class BorealisRawrf(BorealisRawrfv0_6):
     """
     Class containing Borealis Rawrf data fields and their types for current
-- 
2.43.0


From 1571b55b41e9e13fc588a98557dd9742390054a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 14/26] fix: count the beams of every record when restructuring
 site files

Only the first record was considered, restructuring a file where a later
record has more beams failed with a broadcast error.
---
 pydarnio/borealis/base_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 8519dfa..40d6f78 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -612,11 +612,11 @@ class BaseFormat():
                                         raise ValueError(f'Unexpected shape of field {field}: {field_shape}')
                         except KeyError:
                             continue
+                        if field == 'beam_nums':
+                            max_num_beams = max(field_shape[0], max_num_beams)
                         # Initialize shape to first record's field dimensions
                         if rec_idx == 0:
                             fields_max_dims[field] = field_shape
-                            if field == 'beam_nums':
-                                max_num_beams = max(field_shape[0], max_num_beams)
                         else:
                             # Update dims to keep largest for all records
                             new_shape = map(lambda dima, dimb: max(dima, dimb),
-- 
2.43.0


From 3c11c9839213d4b1d585aae82193219ff0ed51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 15/26] fix: keep empty fields when restructuring records to
 arrays

Dropping the zero-length dimension broadcast the empty field over the whole
row, which fails when another record has a non-empty value. The file based
restructuring already slices this way.
---
 pydarnio/borealis/base_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 40d6f78..4d8e216 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1128,7 +1128,7 @@ class BaseFormat():
                     # dims with a determined max value
                     data_buffer = data_dict[k][field]
                     buffer_shape = data_buffer.shape
-                    index_slice = [slice(0, i) for i in buffer_shape if i != 0]
+                    index_slice = [slice(0, i) for i in buffer_shape]
                     # insert record index at start of array's slice list
                     index_slice.insert(0, rec_idx)
                     index_slice = tuple(index_slice)
-- 
2.43.0


From 9a1daf2fa37884a92a8fb9a285e12d784021a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 16/26] fix: use a compression filter h5py knows for array
 files

The default 'zlib' is the pytables name of the filter, h5py calls it 'gzip'
and refused to write any array file with the default arguments.
---
 pydarnio/borealis/borealis.py       | 8 ++++----
 pydarnio/borealis/borealis_array.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pydarnio/borealis/borealis.py b/pydarnio/borealis/borealis.py
index 331f9ca..10e9714 100644
--- a/pydarnio/borealis/borealis.py
+++ b/pydarnio/borealis/borealis.py
@@ -302,11 +302,11 @@ class BorealisWrite():
         the data.
     compression: Union[str, None]
         The type of compression the file is written with. Default is
-        None for site structure, and 'zlib' for array structure.
+        None for site structure, and 'gzip' for array structure.
         Site structured files will have no compression to match
         files actually written on-site, where records are constantly
         appended so there is no compression. Array structured files
-        will have 'zlib' compression to enable a faster read time
+        will have 'gzip' compression to enable a faster read time
         for downstream users.
     arrays: dict
         The Borealis data in a dictionary of arrays, according to the
@@ -391,11 +391,11 @@ class BorealisWrite():
     def compression(self):
         """
         The type of compression the file is written with. Default is
-        None for site structure, and 'zlib' for array structure.
+        None for site structure, and 'gzip' for array structure.
         Site structured files will have no compression to match
         files actually written on-site, where records are constantly
         appended so there is no compression. Array structured files
-        will have 'zlib' compression to enable a faster read time
+        will have 'gzip' compression to enable a faster read time
         for downstream users.
         """
         return self._writer.compression
diff --git a/pydarnio/borealis/borealis_array.py b/pydarnio/borealis/borealis_array.py
index 0b15680..372cb24 100644
--- a/pydarnio/borealis/borealis_array.py
+++ b/pydarnio/borealis/borealis_array.py
@@ -273,8 +273,8 @@ class BorealisArrayWrite():
     software_version: str
     format: subclass of borealis_formats.BaseFormat
     compression: str
-        The type of compression to write the file as. Default zlib.
-        zlib is hdf5 default compression for fast reading. We want
+        The type of compression to write the file as. Default gzip.
+        gzip is hdf5 default compression for fast reading. We want
         the fastest read possible for downstream users with this
         structure style.
 
@@ -288,7 +288,7 @@ class BorealisArrayWrite():
     """
 
     def __init__(self, filename: str, borealis_arrays: dict,
-                 borealis_filetype: str, hdf5_compression: str = 'zlib'):
+                 borealis_filetype: str, hdf5_compression: str = 'gzip'):
         """
         Write Borealis arrays to an array restructured file.
 
@@ -306,7 +306,7 @@ class BorealisArrayWrite():
             'antennas_iq'
             'rawacf'
         hdf5_compression: str
-            String representing hdf5 compression type. Default zlib.
+            String representing hdf5 compression type. Default gzip.
 
         Raises
         ------
-- 
2.43.0


From e822be6ddaf71999aee2b4999c5794c86b1b6b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 17/26] fix: raise the documented errors for unusable site
 records

BorealisSiteWrite used self.filename before setting it, so an unknown file
type ended in AttributeError, and records without borealis_git_hash ended in
KeyError instead of BorealisStructureError.
---
 pydarnio/borealis/borealis_site.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_site.py b/pydarnio/borealis/borealis_site.py
index 833b064..9881f48 100644
--- a/pydarnio/borealis/borealis_site.py
+++ b/pydarnio/borealis/borealis_site.py
@@ -343,12 +343,12 @@ class BorealisSiteWrite():
         BorealisVersionError
             Borealis software version format does not exist in pyDARNio
         """
+        self.filename = filename
         self._records = borealis_records
         if borealis_filetype not in ['bfiq', 'antennas_iq', 'rawacf', 'rawrf']:
             raise borealis_exceptions.BorealisFileTypeError(
                 self.filename, borealis_filetype)
         self.borealis_filetype = borealis_filetype
-        self.filename = filename
         self.compression = hdf5_compression
         self._record_names = sorted(list(borealis_records.keys()))
 
@@ -358,7 +358,7 @@ class BorealisSiteWrite():
             version = self._records[self.record_names[0]][
                 'borealis_git_hash'].split('-')[0]
             version = '.'.join(version.split('.')[:2])      # get only vX.Y, ignore patch revision
-        except (IndexError, ValueError) as err:
+        except (IndexError, KeyError, ValueError) as err:
             # if this is an array style file, it will raise
             # IndexError on the array.
             raise borealis_exceptions.BorealisStructureError(
-- 
2.43.0


From 3962876e176db41a7967d4de17164725337fc4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 18/26] fix: let the Borealis writers be printed

__repr__ and __str__ used an attribute current_record_name that no writer has.
---
 pydarnio/borealis/borealis.py       | 10 ++++------
 pydarnio/borealis/borealis_array.py | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pydarnio/borealis/borealis.py b/pydarnio/borealis/borealis.py
index 10e9714..6e76b87 100644
--- a/pydarnio/borealis/borealis.py
+++ b/pydarnio/borealis/borealis.py
@@ -367,18 +367,16 @@ class BorealisWrite():
     def __repr__(self):
         """For representation of the class object"""
 
-        return "{class_name}({filename}, {current_record_name})"\
+        return "{class_name}({filename}, {borealis_filetype})"\
                "".format(class_name=self.__class__.__name__,
                          filename=self.filename,
-                         current_record_name=self.current_record_name)
+                         borealis_filetype=self.borealis_filetype)
 
     def __str__(self):
         """For printing of the class object"""
 
-        return "Writing to filename: {filename} at record name: "\
-               "{current_record_name}"\
-               "".format(filename=self.filename,
-                         current_record_name=self.current_record_name)
+        return "Writing to filename: {filename}"\
+               "".format(filename=self.filename)
 
     @property
     def borealis_file_structure(self):
diff --git a/pydarnio/borealis/borealis_array.py b/pydarnio/borealis/borealis_array.py
index 372cb24..f9e2728 100644
--- a/pydarnio/borealis/borealis_array.py
+++ b/pydarnio/borealis/borealis_array.py
@@ -349,18 +349,16 @@ class BorealisArrayWrite():
     def __repr__(self):
         """For representation of the class object"""
 
-        return "{class_name}({filename}, {current_record_name})"\
+        return "{class_name}({filename}, {borealis_filetype})"\
                "".format(class_name=self.__class__.__name__,
                          filename=self.filename,
-                         current_record_name=self.current_record_name)
+                         borealis_filetype=self.borealis_filetype)
 
     def __str__(self):
         """For printing of the class object"""
 
-        return "Writing to filename: {filename} at record name: "\
-               "{current_record_name}"\
-               "".format(filename=self.filename,
-                         current_record_name=self.current_record_name)
+        return "Writing to filename: {filename}"\
+               "".format(filename=self.filename)
 
     @property
     def record_names(self):
-- 
2.43.0


From 38a62eca0e68ef58dc6b6813b00ec791d295b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 19/26] fix: raise the documented errors when restructuring
 unusable files

An unknown Borealis version ended in KeyError, a file without records in
IndexError, and any failure other than TypeError while restructuring site to
array was not reported as BorealisRestructureError.
---
 pydarnio/borealis/borealis_restructure.py | 5 ++++-
 pydarnio/borealis/borealis_utilities.py   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 2846901..7666aed 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -127,6 +127,9 @@ class BorealisRestructure(object):
             get_borealis_structure(self.record_names)
         self._borealis_version = BorealisUtilities.get_borealis_version(
             self.infile_name, self.record_names, self.borealis_structure)
+        if self._borealis_version not in borealis_formats.borealis_version_dict:
+            raise borealis_exceptions.BorealisVersionError(
+                self.infile_name, self._borealis_version)
         self._format = borealis_formats.borealis_version_dict[
             self.software_version][self.borealis_filetype]
 
@@ -445,7 +448,7 @@ class BorealisRestructure(object):
                                            unshared_fields)
             self.format.write_arrays(self.outfile_name, new_data_dict, self.compression)
 
-        except TypeError as err:
+        except Exception as err:
             raise borealis_exceptions.BorealisRestructureError(
                 'Records for {}: Error restructuring {} from site to array '
                 'style: {}'.format(self.infile_name, self.format.__name__, err)
diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index e00fefe..3464879 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -600,7 +600,7 @@ class BorealisUtilities():
                     first_rec = f[records[0]]
                     borealis_git_hash = first_rec.attrs['borealis_git_hash']\
                                             .decode('utf-8')
-            except KeyError as err:
+            except (IndexError, KeyError) as err:
                 raise borealis_exceptions.BorealisStructureError(
                     ' {} Could not find the borealis_git_hash required to '
                     'determine file version. Data file may be corrupted. {}'
-- 
2.43.0


From ae405aea5ceddecc312b0fa169320c2bbc633069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 20/26] fix: recognise the source file under another spelling
 of its path

The overwrite guards compared path strings, so './file', a relative path or
a symbolic link let a conversion overwrite its own source.
---
 pydarnio/borealis/borealis_convert.py     | 4 +++-
 pydarnio/borealis/borealis_restructure.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 77fae9a..d4e58ab 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -42,6 +42,7 @@ Update noise values in SDarn fields when these can be calculated.
 """
 import logging
 import numpy as np
+import os
 
 from datetime import datetime
 from typing import Union
@@ -235,7 +236,8 @@ class BorealisConvert(BorealisRead):
                 self.sdarn_filename, self.borealis_filetype,
                 self.__allowed_conversions)
 
-        if self.borealis_filename == self.sdarn_filename:
+        if os.path.realpath(self.borealis_filename) == \
+                os.path.realpath(self.sdarn_filename):
             raise borealis_exceptions.ConvertFileOverWriteError(
                     self.borealis_filename)
         self._write_to_sdarn()
diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 7666aed..b4cb588 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -34,6 +34,7 @@ see: https://borealis.readthedocs.io/en/master/
 import h5py
 import logging
 import numpy as np
+import os
 from datetime import datetime
 from typing import Union
 from collections import OrderedDict
@@ -118,7 +119,8 @@ class BorealisRestructure(object):
                 "".format(outfile_structure))
         self.outfile_structure = outfile_structure
 
-        if self.infile_name == self.outfile_name:
+        if os.path.realpath(self.infile_name) == \
+                os.path.realpath(self.outfile_name):
             raise borealis_exceptions.ConvertFileOverWriteError(
                     self.infile_name)
 
-- 
2.43.0


From 437fd195878530ae57082a8e3dab92c8babb1761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 21/26] fix: check pulse_phase_offset of any shape before
 converting to iqdat

The truth value of a row is ambiguous, so the two-dimensional offsets of
v0.6 and later raised ValueError.
---
 pydarnio/borealis/borealis_convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index d4e58ab..4c2a113 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -400,7 +400,7 @@ class BorealisConvert(BorealisRead):
                                                   record['pulses'],
                                                   int(record['tau_spacing'] /
                                                       record['tx_pulse_len'])))
-                if not all([x == 0 for x in record['pulse_phase_offset']]):
+                if not np.all(record['pulse_phase_offset'] == 0):
                     raise borealis_exceptions.\
                             BorealisConvert2IqdatError(
                                 'Increased complexity: Borealis bfiq file '
-- 
2.43.0


From c78499eea92f785d3f3fc6c9e497934bcb5dc317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 22/26] fix: set the iqdat xcf flag for v0.7 files with
 interferometer data

antenna_arrays_order holds bytes since v0.7, the str 'intf' was never found.
---
 pydarnio/borealis/borealis_convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 4c2a113..00129a9 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -699,7 +699,8 @@ class BorealisConvert(BorealisRead):
                 'nrang': np.int16(record_dict['num_ranges']),
                 'frang': np.int16(round(record_dict['first_range'])),
                 'rsep': np.int16(round(record_dict['range_sep'])),
-                'xcf': np.int16('intf' in record_dict['antenna_arrays_order']),
+                'xcf': np.int16(
+                    'intf' in record_dict['antenna_arrays_order'].astype(str)),
                 'tfreq': np.int16(record_dict['freq']),
                 # mxpwr filler; cannot specify this information
                 'mxpwr': np.int32(-1),
-- 
2.43.0


From 3e4c2127987993efb63778e65f78a327740eab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 23/26] fix: convert iqdat sequence times from seconds

sqn_timestamps are in seconds since the epoch, as time.yr to time.us and the
record names treat them; tsc and tus were computed as if they were in ms.
---
 pydarnio/borealis/borealis_convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 00129a9..f6a93b9 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -734,11 +734,11 @@ class BorealisConvert(BorealisRead):
                                    record_dict['range_sep']),
                 'ptab': record_dict['pulses'].astype(np.int16),
                 'ltab': record_dict['lags'].astype(np.int16),
-                # timestamps in ms, convert to seconds and us.
-                'tsc': np.array([np.floor(x/1e3) for x in
+                # timestamps in seconds, convert to seconds and us.
+                'tsc': np.array([np.floor(x) for x in
                                  record_dict['sqn_timestamps']],
                                 dtype=np.int32),
-                'tus': np.array([np.fmod(x, 1000.0) * 1e3 for x in
+                'tus': np.array([np.fmod(x, 1.0) * 1e6 for x in
                                  record_dict['sqn_timestamps']],
                                 dtype=np.int32),
                 'tatten': np.array([0] * record_dict['num_sequences'],
-- 
2.43.0


From f1c2efd952203cf7cc40a485e8677e7a86468889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 24/26] fix: report wrongly typed Borealis values without a
 shape or dtype

The type checks read .shape and .dtype of the offending value, so a plain
Python value ended in AttributeError instead of BorealisDataFormatTypeError.
---
 pydarnio/borealis/borealis_utilities.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index 3464879..3af5528 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -263,12 +263,15 @@ class BorealisUtilities():
                                  for param in attributes_type_dict.keys()
                                  if type(record[param]) !=
                                  attributes_type_dict[param] and
-                                 record[param].shape is not None}
+                                 getattr(record[param], 'shape', ())
+                                 is not None}
 
         incorrect_types_check.update({param: 'np.ndarray of ' +
                                       str(datasets_type_dict[param])
                                       for param in datasets_type_dict.keys()
-                                      if record[param].dtype.type !=
+                                      if not isinstance(record[param],
+                                                        np.ndarray) or
+                                      record[param].dtype.type !=
                                       datasets_type_dict[param]})
         if len(incorrect_types_check) > 0:
             raise borealis_exceptions.BorealisDataFormatTypeError(
@@ -323,7 +326,8 @@ class BorealisUtilities():
                                  for param in attributes_type_dict.keys()
                                  if type(file_data[param]) !=
                                  attributes_type_dict[param] and
-                                 file_data[param].shape is not None}
+                                 getattr(file_data[param], 'shape', ())
+                                 is not None}
 
         datasets_type_dict_keys = sorted(list(datasets_type_dict.keys()))
         np_array_types = [isinstance(file_data[param], np.ndarray) for param in
-- 
2.43.0


From 5e261d6e92051e814e3e96015c61c0ca397f4cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:44 +0000
Subject: [PATCH 25/26] fix: text in a numeric field of a Borealis array file
 is refused

---
 pydarnio/borealis/borealis_utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index 3af5528..47867cc 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -349,7 +349,9 @@ class BorealisUtilities():
                                       for param in datasets_type_dict.keys()
                                       if file_data[param].dtype.type !=
                                       datasets_type_dict[param] and
-                                      file_data[param].dtype.type != np.str_})
+                                      not (datasets_type_dict[param] == str and
+                                           file_data[param].dtype.type ==
+                                           np.str_)})
         if 'pulse_phase_offset' in incorrect_types_check.keys():
             if file_data['pulse_phase_offset'].dtype.type == np.int64 and file_data['pulse_phase_offset'].shape == (2,):
                 incorrect_types_check.pop('pulse_phase_offset')     # This field is problematic, hack to ignore
-- 
2.43.0


From 52dbb70522282399a33f4dac19054df55669e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 26/26] fix: size tx_antenna_phases by the transmit antennas

A v0.7 antennas_iq file whose transmit antennas are not as many as its
receive antennas was padded, cut or refused on restructuring.
---
 pydarnio/borealis/borealis_formats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index be7b8f2..87efea6 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2576,7 +2576,7 @@ class BorealisAntennasIq(BorealisAntennasIqv0_6):
         """
         unshared_fields_dims = super().unshared_fields_dims_array()
         unshared_fields_dims.update({
-            'tx_antenna_phases': [cls.find_num_antennas],
+            'tx_antenna_phases': [cls.fields.find_num_antennas_site],
             })
         return unshared_fields_dims
 
@@ -2592,7 +2592,7 @@ class BorealisAntennasIq(BorealisAntennasIqv0_6):
         """
         unshared_fields_dims = super().unshared_fields_dims_site()
         unshared_fields_dims.update({
-            'tx_antenna_phases': [lambda arrays, record_num: arrays['data'].shape[1]],
+            'tx_antenna_phases': [lambda arrays, record_num: arrays['tx_antenna_phases'].shape[1]],
             })
         return unshared_fields_dims
 
@@ -2672,7 +2672,7 @@ class BorealisRawrf(BorealisRawrfv0_6):
         """
         unshared_fields_dims = super().unshared_fields_dims_site()
         unshared_fields_dims.update({
-            'tx_antenna_phases': [lambda arrays, record_num: arrays['data'].shape[1]],
+            'tx_antenna_phases': [lambda arrays, record_num: arrays['tx_antenna_phases'].shape[1]],
             })
         return unshared_fields_dims
 
-- 
2.43.0

