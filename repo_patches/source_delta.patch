From 377febb2b0e100e1e7d3666791c295fd5014dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 1/9] fix: decode raises DecodeError when bitmap enables a
 field missing from spec

A message could enable a field that the specification does not define
(e.g. any 129-192 field with the starter specifications). decode let
KeyError escape to the caller instead of raising DecodeError.
---
 iso8583/decoder.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index ff0574e..2aa211d 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -155,7 +155,18 @@ def decode(
         fields.remove(65)
 
     for field in [str(i) for i in sorted(fields)]:
-        idx = _decode_field(s, doc_dec, doc_enc, idx, field, spec[field])
+        try:
+            field_spec = spec[field]
+        except KeyError:
+            raise DecodeError(
+                "Field is not defined in specifications",
+                s,
+                doc_dec,
+                doc_enc,
+                idx,
+                field,
+            ) from None
+        idx = _decode_field(s, doc_dec, doc_enc, idx, field, field_spec)
 
     if idx != len(s):
         raise DecodeError(
-- 
2.43.0


From a8aebc3a0f2262d3dcc741c057c48d7bc6695e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 2/9] fix: decode rejects text field length that is not made of
 decimal digits

int() accepts more than digits: "+5", " 5" and "-1" were accepted as
a field length. A negative length of a field measured in nibbles was even
decoded as an empty field.
---
 iso8583/decoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 2aa211d..d8ff176 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -529,6 +529,10 @@ def _decode_field(
                 ) from None
 
             try:
+                # int() also accepts signs, whitespace, underscores
+                # and non-ASCII digits.
+                if not (decoded_length.isascii() and decoded_length.isdigit()):
+                    raise ValueError
                 enc_field_len = int(decoded_length)
             except Exception:
                 raise DecodeError(
-- 
2.43.0


From dbf3a0c668eb0929d5441fa4b4eb0f301b85dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 3/9] fix: decode rejects text bitmap that is not 16 hex digits

bytes.fromhex skips whitespace. A text bitmap such as "40" followed by
14 spaces was decoded as a one-byte bitmap instead of being rejected.
A multi-byte encoding could also produce less than 16 hex digits.
---
 iso8583/decoder.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index d8ff176..84a9112 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -1,4 +1,5 @@
 from typing import Any, Dict, Literal, Mapping, Set, Tuple, Type, Union
+import binascii
 
 __all__ = ["decode", "DecodeError"]
 
@@ -391,7 +392,8 @@ def _decode_bitmap(
         )
 
         try:
-            bitmap = bytes.fromhex(decoded_field_data)
+            # Unlike bytes.fromhex, a2b_hex does not skip whitespace.
+            bitmap = binascii.a2b_hex(decoded_field_data)
         except Exception:
             raise DecodeError(
                 "Failed to decode field, non-hex data",
@@ -402,6 +404,16 @@ def _decode_bitmap(
                 field_key,
             ) from None
 
+        if len(bitmap) != 8:
+            raise DecodeError(
+                f"Field data is {len(bitmap) * 2} hex digits, expecting 16",
+                s,
+                doc_dec,
+                doc_enc,
+                idx,
+                field_key,
+            )
+
     fields.update(
         [
             field_offset + byte_idx * 8 + bit
-- 
2.43.0


From 6ab046d7fc3118c56584714896482915c10f5293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 4/9] fix: decode rejects odd nibble count of a text field

Text data takes up whole bytes. An odd nibble count was silently rounded up:
a text field that declared 3 nibbles was decoded from 2 bytes (4 nibbles).
---
 iso8583/decoder.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 84a9112..1145ff4 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -612,6 +612,16 @@ def _decode_field(
                 enc_field_len,
             )
     else:
+        # Text data takes up whole bytes
+        if len_count == "nibbles" and enc_field_len & 1:
+            raise DecodeError(
+                f"Field data is {len(doc_enc[field_key]['data']) * 2} nibbles, expecting {enc_field_len}",
+                s,
+                doc_dec,
+                doc_enc,
+                idx,
+                field_key,
+            )
         doc_dec[field_key] = _decode_text_data(
             s,
             doc_enc[field_key]["data"],
-- 
2.43.0


From 5d83e8ad2227189e119654c52ea7e2f5d25443fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 5/9] fix: decode removes a lower case pad

Decoded hex data is in upper case. A lower case pad, which encode accepts,
never matched it. As a result, a message produced by encode was rejected.
---
 iso8583/decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 1145ff4..98d63fb 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -674,11 +674,11 @@ def _remove_pad_field(
     DecodeError
         An error decoding ISO8583 bytearray.
     """
-    pad: str = field_spec.get("left_pad", "")[:1]
+    pad: str = field_spec.get("left_pad", "")[:1].upper()
     if len(pad) > 0 and doc_dec[field_key][:1] == pad:
         return doc_dec[field_key][1:]
 
-    pad = field_spec.get("right_pad", "")[:1]
+    pad = field_spec.get("right_pad", "")[:1].upper()
     if len(pad) > 0 and doc_dec[field_key][-1:] == pad:
         return doc_dec[field_key][:-1]
 
-- 
2.43.0


From bec53b157af50ce309f0ddfcbcf311c57bd2e086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 6/9] fix: encode rejects numeric keys that are not plain
 decimal numbers

Keys such as "02" raised KeyError and keys such as superscript two raised
ValueError instead of EncodeError. Key "065" produced a message with a bitmap
extension that was not requested.
---
 iso8583/encoder.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 4d79b3e..6926413 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -102,6 +102,23 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
             doc_enc,
             "p",
         ) from None
+    except ValueError:
+        raise EncodeError(
+            "Dictionary contains invalid fields that are not decimal numbers",
+            doc_dec,
+            doc_enc,
+            "p",
+        ) from None
+
+    # Field keys must match specification keys. E.g. "2" but not "02".
+    invalid_keys = [k for k in doc_dec.keys() if k.isnumeric() and k != str(int(k))]
+    if invalid_keys:
+        raise EncodeError(
+            f"Dictionary contains invalid fields {invalid_keys}",
+            doc_dec,
+            doc_enc,
+            "p",
+        )
 
     # Verify valid field range: 1-192
     if not fields.issubset(range(1, 193)):
-- 
2.43.0


From 2e882ec59988c0c2f4816cc2017eecfade21ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 7/9] fix: encode raises EncodeError when field is missing from
 spec

encode let KeyError escape to the caller instead of raising EncodeError.
---
 iso8583/encoder.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 6926413..140d0bd 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -174,7 +174,16 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
         fields.remove(65)
 
     for field_key in [str(i) for i in sorted(fields)]:
-        s += _encode_field(doc_dec, doc_enc, field_key, spec[field_key])
+        try:
+            field_spec = spec[field_key]
+        except KeyError:
+            raise EncodeError(
+                "Field is not defined in specifications",
+                doc_dec,
+                doc_enc,
+                field_key,
+            ) from None
+        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)
 
     return s, doc_enc
 
-- 
2.43.0


From 194376bcd51283f010e7a75bd36b410ee8384a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 8/9] fix: encode raises EncodeError when binary field data is
 not a string

Error handler of a binary field failed by itself with TypeError or
UnboundLocalError. Text fields already raised EncodeError.
---
 iso8583/encoder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 140d0bd..0f83984 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -581,6 +581,13 @@ def _encode_bindary_field(
             data_to_encode = field_data
         encoded_data = binascii.a2b_hex(data_to_encode)
     except Exception:
+        if not isinstance(field_data, str):
+            raise EncodeError(
+                "Failed to encode field, invalid data",
+                doc_dec,
+                doc_enc,
+                field_key,
+            ) from None
         if len_count == "nibbles" and len(data_to_encode) % 2 == 1:
             raise EncodeError(
                 "Failed to encode field, odd-length nibble data, specify pad",
-- 
2.43.0


From 2023fc82e94acc2dc3e308152c133a4557c324ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 9/9] fix: encode rejects text bitmap that is not 16 bytes

A multi-byte data encoding, such as utf-16, produced a bitmap that
decode does not accept. Message type is already verified in the same way.
---
 iso8583/encoder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 0f83984..c516c5a 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -381,6 +381,13 @@ def _encode_bitmap(
             field_spec,
             "bytes",
         )
+        if len(encoded_data) != 16:
+            raise EncodeError(
+                f"Field data is {len(encoded_data)} bytes, expecting 16",
+                doc_dec,
+                doc_enc,
+                field_key,
+            )
 
     if is_extended:
         doc_enc[field_key]["data"] = doc_enc[field_key]["data"] + encoded_data
-- 
2.43.0

