From 10d4e4d5c202dab305de2b5a91d6b59721df2e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:48 +0000
Subject: [PATCH 01/18] fix: message 1044 was always rejected (IODC is 10 bits
 wide)

---
 sub_decoders/RTCM_EPH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_EPH.py b/sub_decoders/RTCM_EPH.py
index 359f788..f467677 100644
--- a/sub_decoders/RTCM_EPH.py
+++ b/sub_decoders/RTCM_EPH.py
@@ -617,7 +617,7 @@ class EphemerisDecoder(Bits):
         eph.URA, offset = self.getbitu(buf, offset, 4), offset + 4  # DF453
         eph.SVH, offset = self.getbitu(buf, offset, 6), offset + 6  # DF454
         eph.TGD, offset = self.getbits(buf, offset, 8), offset + 8  # DF455
-        eph.IODC, offset = self.getbitu(buf, offset, 10), offset + 8  # DF456
+        eph.IODC, offset = self.getbitu(buf, offset, 10), offset + 10  # DF456
         eph.Fit, offset = self.getbitu(buf, offset, 1), offset + 1  # DF457
 
         # expected offcet value is 485+24=509
-- 
2.43.0


From 1e22c6b22aa3f0980c77154e2394ad9f317067ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:48 +0000
Subject: [PATCH 02/18] fix: message 1013 with undefined Nm was always rejected
 (framing bytes counted as payload)

---
 sub_decoders/RTCM_BASE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index 571db59..f7153b9 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -238,7 +238,7 @@ class BaseStationDataDecoder(Bits):
         if bs.Nm != 0:
             Nm = bs.Nm
         else:
-            Nm = math.floor((8 * len(buf) - 70) / 29)
+            Nm = math.floor((8 * (len(buf) - 6) - 70) / 29)
 
         for _ in range(Nm):
             ID, offset = self.getbitu(buf, offset, 12), offset + 12  # DF055
-- 
2.43.0


From 11479dd4658ddfbd6c54c0454c21c0bbcf95917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:48 +0000
Subject: [PATCH 03/18] fix: messages 1007/1008/1029/1033 with an empty string
 were lost in scaled output

---
 sub_decoders/RTCM_BASE.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index f7153b9..4940285 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -195,27 +195,27 @@ class BaseStationDataDecoder(Bits):
         """Scale MSG 1007/1008/1033 data"""
 
         bs = ibs.deepcopy()
-        symbols = ibs.descr.split(" ")
+        symbols = ibs.descr.split()
         bs.descr = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         if not isinstance(bs, (BaseADSN, BaseADSNRC)):
             # bs.msgNum == 1007:
             return bs
 
-        symbols = bs.serialNumber.split(" ")
+        symbols = bs.serialNumber.split()
         bs.serialNumber = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         if not isinstance(bs, (BaseADSNRC)):
             # bs.msgNum == 1008:
             return bs
 
-        symbols = bs.rcvDescriptor.split(" ")
+        symbols = bs.rcvDescriptor.split()
         bs.rcvDescriptor = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
-        symbols = bs.rcvFWVersion.split(" ")
+        symbols = bs.rcvFWVersion.split()
         bs.rcvFWVersion = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
-        symbols = bs.rcvSerNum.split(" ")
+        symbols = bs.rcvSerNum.split()
         bs.rcvSerNum = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         return bs
@@ -291,7 +291,7 @@ class BaseStationDataDecoder(Bits):
         """Scale MSG 1029 data"""
 
         bs = ibs.deepcopy()
-        symbols = ibs.message.split(" ")
+        symbols = ibs.message.split()
         bs.message = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         return bs
-- 
2.43.0


From c6a87904da7a895b08dc8d3211051ba2c5ba98e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:48 +0000
Subject: [PATCH 04/18] fix: message 1230 biases have a resolution of 0.02 m
 (DF423..DF426)

---
 sub_decoders/RTCM_BASE.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index 4940285..ebfeee5 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -365,10 +365,10 @@ class BaseStationDataDecoder(Bits):
         bs.validity["1P"] = bs.validity["1P"] == 1  # DF422
         bs.validity["2C"] = bs.validity["2C"] == 1  # DF422
         bs.validity["2P"] = bs.validity["2P"] == 1  # DF422
-        bs.correction["1C"] *= 0.2  # DF423 [m]
-        bs.correction["1P"] *= 0.2  # DF424 [m]
-        bs.correction["2C"] *= 0.2  # DF425 [m]
-        bs.correction["2P"] *= 0.2  # DF426 [m]
+        bs.correction["1C"] *= 0.02  # DF423 [m]
+        bs.correction["1P"] *= 0.02  # DF424 [m]
+        bs.correction["2C"] *= 0.02  # DF425 [m]
+        bs.correction["2P"] *= 0.02  # DF426 [m]
 
         return bs
 
-- 
2.43.0


From fefccb3258c6b61d6a89f1d4cd5946001d0bccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:48 +0000
Subject: [PATCH 05/18] fix: L5/S health flags of message 1041 were missing in
 JSON output

---
 gnss_types/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gnss_types/ephemeris.py b/gnss_types/ephemeris.py
index 9f69e79..9a6facc 100644
--- a/gnss_types/ephemeris.py
+++ b/gnss_types/ephemeris.py
@@ -134,8 +134,8 @@ class EphNAVIC(DataClassMethods, Keplerians, ClockBias, EphHdr):
     URA: int | float = 0
     TGD: int | float = 0
     IODEC: int = 0
-    L5_Flag = 0
-    S_Flag = 0
+    L5_Flag: int = 0
+    S_Flag: int = 0
 
 
 @dataclass
-- 
2.43.0


From 95746adbfeda549f4f8f579e9a7cb3efe4bc232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:48 +0000
Subject: [PATCH 06/18] fix: MSM messages without satellites were rejected (CRC
 bytes are not part of the length field)

---
 sub_decoders/RTCM_MSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 2992432..9b349eb 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -105,7 +105,7 @@ class BareObservablesMSM17Decoder(Bits):
         """Conv. binary header into integers"""
 
         # Check minimal length
-        bits_elapsed = (self.getbitu(buf, 14, 10) - 3) * 8
+        bits_elapsed = self.getbitu(buf, 14, 10) * 8
         if bits_elapsed < self.__MIN_HDR_LEN:
             raise ExceptionBareDataStructure(f"MSM hdr1 :{bits_elapsed=}")
 
-- 
2.43.0


From 5e0bf0a0fb159c0093788f64f23c6eef8706e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:48 +0000
Subject: [PATCH 07/18] fix: MSM3 invalid code range in one cell dropped phases
 of the other cells of the satellite

---
 sub_decoders/RTCM_MSM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 9b349eb..d6d99b5 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -606,12 +606,13 @@ class Bare2Scaled:
 
             rng = float(src.sat.rng_rough[sat_idx]) / 1024.0
             rng_ok = src.atr.is_msm1 or src.atr.is_msm3
-            ph_ok = src.atr.is_msm2 or src.atr.is_msm3
 
             # Pass through signals of satellite 'sat'
             i = 0
             while slots:
 
+                ph_ok = src.atr.is_msm2 or src.atr.is_msm3
+
                 # sgn - RINEX literal - code of signal
                 sgn = self.sgn_map[i]
                 i += 1
-- 
2.43.0


From 27afb9d0d4001da79911b8b0b0519f3acc1c8184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:48 +0000
Subject: [PATCH 08/18] fix: parsing errors were ignored in the final verdict

---
 run_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_conversion.py b/run_conversion.py
index d045c4c..c18f3ca 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -337,7 +337,7 @@ def main(local_args: str | None = None) -> None:
         if decode_rtcm_file(fpath, converter):
             err = converter.get_statistics()
             if (
-                err.printing_errors
+                err.parsing_errors
                 or err.decoding_errors
                 or err.printing_errors
             ):
-- 
2.43.0


From c16fc6ddd3c4d31c3ae4646e5455431a11e25ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:48 +0000
Subject: [PATCH 09/18] fix: negative floats were compared with absolute
 instead of relative tolerance

---
 gnss_types/data_class_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index b4b53ca..a7c2c99 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -70,7 +70,7 @@ class DataClassMethods:
             if math.isnan(A) or math.isnan(B):
                 return False
 
-            if math.fabs(B > f_tolerance):
+            if math.fabs(B) > f_tolerance:
                 diff = math.fabs((B - A) / B)
             else:
                 diff = math.fabs(B - A)
-- 
2.43.0


From 1dfe6327a37bf2ef6b7e121753a4e4e21cd25f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:48 +0000
Subject: [PATCH 10/18] fix: directory names with glob characters hid all
 source files

---
 run_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_conversion.py b/run_conversion.py
index c18f3ca..ea40085 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -253,7 +253,7 @@ def make_list_of_source_files(
     else:
         fpattern = ".".join(["*", rtcm_ext])
         path = os.path.abspath(f_arguments[0])
-        pattern = os.path.join(path, fpattern)
+        pattern = os.path.join(glob.escape(path), fpattern)
         # Find files matching pattern
         file_list = glob.glob(pattern)
         if 0 == len(file_list):
-- 
2.43.0


From 2e7edbb4ac63bc52ba674264f315ed3b7ac2f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:43 +0000
Subject: [PATCH 11/18] fix: complete messages behind an unfinished candidate
 were lost at the end of file

---
 converter_top.py  |  7 +++++++
 decoder_top.py    | 12 ++++++++++++
 run_conversion.py | 15 ++++++++++-----
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/converter_top.py b/converter_top.py
index f78b538..f7d9b12 100644
--- a/converter_top.py
+++ b/converter_top.py
@@ -87,6 +87,10 @@ class ConverterInterface(ABC):
     def parse_bytes(self, buf: bytes) -> list[bytes]:
         """Extract RTCM messages from input bytes"""
 
+    @abstractmethod
+    def flush(self) -> list[bytes]:
+        """Extract RTCM messages remaining after the end of input bytes"""
+
     @abstractmethod
     def decode(self, message: bytes) -> object | None:
         """Process RTCM message in accordance with instance rules."""
@@ -114,6 +118,9 @@ class Converter(ConverterInterface):
     def parse_bytes(self, buf: bytes) -> list[bytes]:
         return self.decoder.catch_message(buf)
 
+    def flush(self) -> list[bytes]:
+        return self.decoder.flush()
+
     def decode(self, message: bytes) -> object:
         return self.decoder.decode(message)
 
diff --git a/decoder_top.py b/decoder_top.py
index de18ed5..0cee119 100644
--- a/decoder_top.py
+++ b/decoder_top.py
@@ -270,6 +270,18 @@ class DecoderTop:
 
         return ret_list
 
+    def flush(self):
+        """Finish processing of the byte flow. Find and return RTCM messages
+        hidden behind the candidate which will never be completed."""
+
+        ret_list = []
+        while self._tail != b"":
+            # Shift out the first byte of unfinished candidate and scan the rest
+            self._tail = self._tail[1:]
+            ret_list.extend(self.catch_message(b""))
+
+        return ret_list
+
     # ................................................................................
 
     def __rebase_to_D3(self):
diff --git a/run_conversion.py b/run_conversion.py
index ea40085..db2768a 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -109,11 +109,18 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
         file_size = os.path.getsize(fpath)
         bytes_processed = 0
 
-        chunk = f.read(FILE_CHUNCK_LEN)
-        while len(chunk):
+        end_of_file = False
+        while not end_of_file:
 
+            chunk = f.read(FILE_CHUNCK_LEN)
+            end_of_file = len(chunk) == 0
             bytes_processed += len(chunk)
-            rtcm3_lines = converter.parse_bytes(chunk)
+            if not end_of_file:
+                rtcm3_lines = converter.parse_bytes(chunk)
+            else:
+                rtcm3_lines = converter.flush()
+                if not rtcm3_lines:
+                    break
 
             for msg in rtcm3_lines:
                 xblock = converter.decode(msg)
@@ -131,8 +138,6 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
                 )
             )
 
-            chunk = f.read(FILE_CHUNCK_LEN)
-
     except KeyboardInterrupt:
         logger.error("Processing terminated by the user.")
         return False
-- 
2.43.0


From 818930705b69a6ef7760aade787c28fbe8dbb1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:22 +0000
Subject: [PATCH 12/18] fix: MSM2/MSM3 messages with several cells were
 rejected (cells are 27/42 bits long)

---
 sub_decoders/RTCM_MSM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index d6d99b5..06f5a97 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -273,10 +273,10 @@ class BareObservablesMSM17Decoder(Bits):
             est_len = ((offset + 10 * Nsat + 15 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_1)
         elif self.bd.atr.is_msm2:
-            est_len = ((offset + 10 * Nsat + 28 * Ncell + 7) >> 3) + 3
+            est_len = ((offset + 10 * Nsat + 27 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_2)
         elif self.bd.atr.is_msm3:
-            est_len = ((offset + 10 * Nsat + 43 * Ncell + 7) >> 3) + 3
+            est_len = ((offset + 10 * Nsat + 42 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_3)
         else:
             bw = (b for b in self.__BIT_WIDTH_3)
-- 
2.43.0


From b6dd8e30f4d0c4c8df8de841b16cf1de4d7caf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:27 +0000
Subject: [PATCH 13/18] fix: comparing a record with one of its base class
 raised AttributeError

---
 gnss_types/data_class_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index a7c2c99..51333d2 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -109,7 +109,7 @@ class DataClassMethods:
         for key, value in self.items():
             try:
                 ref = getattr(refs, key)
-            except IndexError:
+            except AttributeError:
                 return False
 
             if is_dataclass(value):
-- 
2.43.0


From 835cd9bdb1ab8a72127bc42e0af681eee6a40dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:27 +0000
Subject: [PATCH 14/18] fix: an exception without a message escaped from the
 decoder and printer barriers

---
 decoder_top.py | 2 +-
 printer_top.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder_top.py b/decoder_top.py
index 0cee119..f2a7eee 100644
--- a/decoder_top.py
+++ b/decoder_top.py
@@ -143,7 +143,7 @@ def catch_decoder_exceptions(func):
         try:
             rv = func(*args, **kwargs)
         except ExceptionDecoderDecode as de:
-            logger.warning(de.args[0])
+            logger.warning(f"{de}")
         except Exception as ex:  # pylint: disable = broad-exception-caught
             logger.error(f"{type(ex)}: {ex}")
 
diff --git a/printer_top.py b/printer_top.py
index 0043d01..e73dcc8 100644
--- a/printer_top.py
+++ b/printer_top.py
@@ -129,7 +129,7 @@ def catch_printer_asserts(func):
         try:
             func(*args, **kwargs)
         except AssertionError as ae:
-            logger.error(f"{ae.args[0]}")
+            logger.error(f"{ae}")
 
     return catch_assert_wrapper
 
-- 
2.43.0


From 1e05cf56ac4d435c4c4107343dfff4baed8be95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:33 +0000
Subject: [PATCH 15/18] fix: MARGO printer reports tables which can't be
 created as printing errors

The failure was logged but the record was counted as printed, so the
conversion ended with 'Finished without errors.' while data was missing.
---
 printers/margo_printer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/printers/margo_printer.py b/printers/margo_printer.py
index 2b6ab63..cba62ef 100644
--- a/printers/margo_printer.py
+++ b/printers/margo_printer.py
@@ -445,6 +445,7 @@ class PrintMARGO:
         if not pbuf:
             return
 
+        failed = []
         for f, observables in pbuf.items():
             ptype = f[1]  # C, L, D, S,...
             # Make textual representation of values
@@ -452,7 +453,11 @@ class PrintMARGO:
             obs_string = self.core.format_obs_string(
                 observables, *column_format
             )
-            self.__append(f, obs_string)
+            if not self.__append(f, obs_string):
+                failed.append(f)
+
+        if failed:
+            raise AssertionError(f"Failed to print {', '.join(failed)}")
 
     # def __print_BareObservablesMSM4567(self, obs: BareObservablesMSM4567):
     #     pass
-- 
2.43.0


From 6d46f56fb89234cb8152354de87ed23c33f3fe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:07 +0000
Subject: [PATCH 16/18] fix: failure to complete output files doesn't stop the
 run

An OSError raised while closing output files (no space left, etc.) escaped
from decode_rtcm_file(), the program crashed without a verdict, other output
files stayed unfinished and remaining source files were not converted.
---
 printer_top.py            |  8 +++++++-
 printers/json_printer.py  | 13 +++++++++++--
 printers/margo_printer.py |  8 +++++++-
 run_conversion.py         | 10 ++++++++--
 4 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/printer_top.py b/printer_top.py
index e73dcc8..f435a41 100644
--- a/printer_top.py
+++ b/printer_top.py
@@ -238,5 +238,11 @@ class PrinterTop:
     def close(self):
         """Finalize subprinters"""
 
+        failure = None
         for p in self.printers:
-            p.close()
+            try:
+                p.close()
+            except OSError as oe:
+                failure = oe
+        if failure is not None:
+            raise failure
diff --git a/printers/json_printer.py b/printers/json_printer.py
index 1bc0921..5c05f6d 100644
--- a/printers/json_printer.py
+++ b/printers/json_printer.py
@@ -155,12 +155,21 @@ class PrintJSON:
 
     def __close(self):
         """Close all opened files"""
+        failure = None
         if len(self.__ofiles):
             for itm in self.__ofiles.values():
                 if isinstance(itm, io.TextIOWrapper):
-                    itm.write("\r]")
-                    itm.close()
+                    try:
+                        itm.write("\r]")
+                    except OSError as oe:
+                        failure = oe
+                    try:
+                        itm.close()
+                    except OSError as oe:
+                        failure = oe
         self.__ofiles = {}
+        if failure is not None:
+            raise failure
 
     def __create_ofile(self, msg_num: int):
         """Create new JSON file"""
diff --git a/printers/margo_printer.py b/printers/margo_printer.py
index cba62ef..8f190bc 100644
--- a/printers/margo_printer.py
+++ b/printers/margo_printer.py
@@ -401,11 +401,17 @@ class PrintMARGO:
 
     def __close(self):
         """Close all opened files"""
+        failure = None
         if len(self.__ofiles):
             for itm in self.__ofiles.values():
                 if isinstance(itm, io.TextIOWrapper):
-                    itm.close()
+                    try:
+                        itm.close()
+                    except OSError as oe:
+                        failure = oe
         self.__ofiles = {}
+        if failure is not None:
+            raise failure
 
     def __create_ofile(self, oname: str) -> bool:
         """Create new MARGO file and fill header"""
diff --git a/run_conversion.py b/run_conversion.py
index db2768a..6845d4d 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -101,6 +101,7 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
     """Convert single file."""
 
     f = None
+    succeeded = True
 
     try:
         f = open(fpath, "rb")
@@ -150,7 +151,12 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
         logger.error(f"{type(ex)}: {ex}")
         return False
     finally:
-        converter.release()
+        try:
+            converter.release()
+        except OSError as oe:
+            logger.error("Failed to complete output files.")
+            logger.error(f"{type(oe)}: {oe}")
+            succeeded = False
 
         if not f is None:
             logger.info(f"Closing file {fpath}.")
@@ -158,7 +164,7 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
         else:
             logger.info(f"Source file {fpath} wasn't opened.")
 
-    return True
+    return succeeded
 
 
 # ............................................................................
-- 
2.43.0


From 390d202f26256ba0ca3ab2f72868f81652ad4310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:29 +0000
Subject: [PATCH 17/18] fix: unwritable log file doesn't stop the run

Only opening of the log file was guarded. On a full disk the file can be
opened, but the initial record can't be written and the program crashed.
---
 run_conversion.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/run_conversion.py b/run_conversion.py
index 6845d4d..9eb4ff1 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -75,8 +75,12 @@ def make_log_file_name(src_file_path: str):
 def init_logger(path: str):
     """Create log file and init logger."""
 
+    welcome_msg = "New log file was created."
     try:
-        log = open(path, "w", encoding="utf-8")
+        # Initial record
+        with open(path, "w", encoding="utf-8") as log:
+            log.write(welcome_msg + "\n")
+            log.write("-" * len(welcome_msg) + "\n")
     except OSError as er:
         print("Failed to create log file.")
         print(f"{type(er)}: {er}")
@@ -84,11 +88,6 @@ def init_logger(path: str):
         print("Undefined error in 'init_logger()'.")
         print(f"{type(er)}: {er}")
     else:
-        # Initial record
-        welcome_msg = "New log file was created."
-        log.write(welcome_msg + "\n")
-        log.write("-" * len(welcome_msg) + "\n")
-        log.close()
         print(welcome_msg)
         # Init logger. Opens file 'path' in append mode
         logger.init_2CH(path, "RTCMDEC")
-- 
2.43.0


From ed0a9f3120a9753cc5aef0117612178de9c0e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:53 +0000
Subject: [PATCH 18/18] fix: log messages aren't lost or re-encoded depending
 on the locale

The log file was started as UTF-8, but appended in the locale's encoding:
messages (source names) it can't represent were dropped from the log.
---
 logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/logger.py b/logger.py
index eab0907..fe9853e 100644
--- a/logger.py
+++ b/logger.py
@@ -40,7 +40,9 @@ class LoggerConsFile:
         _c_format = logging.Formatter("%(name)s:%(levelname)s: %(message)s")
         _c_handler.setFormatter(_c_format)
 
-        _f_handler = logging.FileHandler(file_name, mode="a")
+        _f_handler = logging.FileHandler(
+            file_name, mode="a", encoding="utf-8", errors="surrogateescape"
+        )
         _f_handler.setLevel(logging.INFO)
         _f_format = logging.Formatter("%(name)s:%(levelname)s: %(message)s")
         _f_handler.setFormatter(_f_format)
-- 
2.43.0

