From 95304ad5eb95d0665b795e3f7121437acaf07748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:25 +0000
Subject: [PATCH 01/16] fix: raise InsufficientDataBytes, not OverflowError,
 for huge byte string lengths

---
 eth_abi/decoding.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 71d087a..4de0b7b 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -596,7 +596,13 @@ class ByteStringDecoder(SingleDecoder):
         data_length = decode_uint_256(stream)
         padded_length = ceil32(data_length)
 
-        data = stream.read(padded_length)
+        try:
+            data = stream.read(padded_length)
+        except OverflowError:
+            # the indicated length is larger than any stream can hold
+            raise InsufficientDataBytes(
+                f"Tried to read {padded_length} bytes, more than any stream can hold"
+            )
 
         if self.strict:
             if len(data) < padded_length:
-- 
2.43.0


From 4414e3795a6441402d84a6f506e874f6429b3343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:55 +0000
Subject: [PATCH 02/16] fix: do not return truncated byte strings in non-strict
 mode

---
 eth_abi/decoding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 4de0b7b..d6e084c 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -615,6 +615,10 @@ class ByteStringDecoder(SingleDecoder):
                 raise NonEmptyPaddingBytes(
                     f"Padding bytes were not empty: {repr(padding_bytes)}"
                 )
+        elif len(data) < data_length:
+            raise InsufficientDataBytes(
+                f"Tried to read {data_length} bytes, only got {len(data)} bytes"
+            )
 
         return data[:data_length]
 
-- 
2.43.0


From 4ec67d9bf2585c7ad52ee134d89bcb1c24d07b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 03/16] fix: do not change the strictness of registered decoder
 instances

---
 eth_abi/registry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 29b8fc5..f46106f 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -478,6 +478,10 @@ class ABIRegistry(Copyable, BaseRegistry):
             # Set a transient flag each time a call is made to ``get_decoder()``.
             # Only dynamic decoders should be allowed these looser constraints. All
             # other decoders should keep the default value of ``True``.
+            if getattr(decoder, "strict", True) != strict:
+                # Leave a decoder instance that was registered as is untouched, since
+                # it is shared by strict and non-strict lookups.
+                decoder = copy.copy(decoder)
             decoder.strict = strict
 
         return decoder
-- 
2.43.0


From 720be09d803853521b45fff1e837007b141b2931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:06 +0000
Subject: [PATCH 04/16] fix: apply strict=False to byte strings nested in
 arrays and tuples

---
 eth_abi/registry.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index f46106f..d9a5722 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -472,7 +472,13 @@ class ABIRegistry(Copyable, BaseRegistry):
         return True
 
     def _get_decoder_uncached(self, type_str, strict=True):
-        decoder = self._get_registration(self._decoders, type_str)
+        registry = self
+        if not strict:
+            # Have the decoders of container types look up non-strict item decoders
+            registry = self.copy()
+            registry.get_decoder = functools.partial(self.get_decoder, strict=False)
+
+        decoder = registry._get_registration(self._decoders, type_str)
 
         if hasattr(decoder, "is_dynamic") and decoder.is_dynamic:
             # Set a transient flag each time a call is made to ``get_decoder()``.
-- 
2.43.0


From 95b54bc4c6f76d9c4fc79ea2d7c65f2d9da71001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 05/16] fix: remove the label when unregistering by an equal
 lookup

---
 eth_abi/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index d9a5722..0ec146a 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -123,7 +123,7 @@ class PredicateMapping(Copyable):
         # Both keys and values in `_labeled_predicates` are unique since the
         # `add` method enforces this
         for key, value in self._labeled_predicates.items():
-            if value is predicate:
+            if value == predicate:
                 return key
 
         raise ValueError(
-- 
2.43.0


From 6cd874d066ad75840d12605da5b43d1bb9c48fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:45 +0000
Subject: [PATCH 06/16] fix: report values with huge integers as encoding
 errors

---
 eth_abi/utils/string.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eth_abi/utils/string.py b/eth_abi/utils/string.py
index abd76b8..634fe47 100644
--- a/eth_abi/utils/string.py
+++ b/eth_abi/utils/string.py
@@ -8,7 +8,11 @@ def abbr(value: Any, limit: int = 79) -> str:
     Converts a value into its string representation and abbreviates that
     representation based on the given length `limit` if necessary.
     """
-    rep = repr(value)
+    try:
+        rep = repr(value)
+    except ValueError:
+        # Python limits the length of the string representation of integers
+        rep = object.__repr__(value)
 
     if len(rep) > limit:
         if limit < 3:
-- 
2.43.0


From d10d8185be64c72b3b5ff69e2f50e1f10a4dc369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:03 +0000
Subject: [PATCH 07/16] fix: raise EncodingTypeError for fixed values of
 unsupported number types

---
 eth_abi/encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 3d90518..aa269bf 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -7,6 +7,7 @@ import decimal
 from itertools import (
     accumulate,
 )
+import numbers
 from typing import (
     Any,
 )
@@ -18,7 +19,6 @@ from eth_utils import (
     is_bytes,
     is_integer,
     is_list_like,
-    is_number,
     is_text,
     to_canonical_address,
 )
@@ -334,7 +334,7 @@ class BaseFixedEncoder(NumberEncoder):
 
     @staticmethod
     def type_check_fn(value):
-        return is_number(value) and not isinstance(value, float)
+        return isinstance(value, (decimal.Decimal, numbers.Integral))
 
     @staticmethod
     def illegal_value_fn(value):
-- 
2.43.0


From cf640ac827dcd57f4ef92fafe0bf26670cdccad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:54 +0000
Subject: [PATCH 08/16] fix: treat text that is not utf-8 encodable as an
 illegal value

---
 eth_abi/encoding.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index aa269bf..aa74a7f 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -544,6 +544,11 @@ class TextStringEncoder(BaseEncoder):
         if not is_text(value):
             cls.invalidate_value(value)
 
+        try:
+            codecs.encode(value, "utf8")
+        except UnicodeEncodeError as e:
+            cls.invalidate_value(value, exc=IllegalValue, msg=str(e))
+
     @classmethod
     def encode(cls, value):
         cls.validate_value(value)
-- 
2.43.0


From 3b173ac32269c84dcf383a5c7f037d4f87480851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:12 +0000
Subject: [PATCH 09/16] fix: do not round tiny residues of fixed values to zero

---
 eth_abi/utils/numeric.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eth_abi/utils/numeric.py b/eth_abi/utils/numeric.py
index b44e4dc..27624cc 100644
--- a/eth_abi/utils/numeric.py
+++ b/eth_abi/utils/numeric.py
@@ -5,7 +5,11 @@ import decimal
 
 ABI_DECIMAL_PREC = 999
 
-abi_decimal_context = decimal.Context(prec=ABI_DECIMAL_PREC)
+abi_decimal_context = decimal.Context(
+    prec=ABI_DECIMAL_PREC,
+    Emin=decimal.MIN_EMIN,
+    Emax=decimal.MAX_EMAX,
+)
 
 ZERO = decimal.Decimal(0)
 TEN = decimal.Decimal(10)
-- 
2.43.0


From f896f9cb68eee60acdf12ee56e21cb4cc7abbf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:31 +0000
Subject: [PATCH 10/16] fix: support the byte alias outside of arrays and
 tuples

---
 eth_abi/registry.py          | 11 +++++++++++
 eth_abi/tools/_strategies.py |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 0ec146a..673a646 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -565,6 +565,12 @@ registry.register(
     decoding.BytesDecoder,
     label="function",
 )
+registry.register(
+    BaseEquals("byte"),
+    encoding.BytesEncoder,
+    decoding.BytesDecoder,
+    label="byte",
+)
 registry.register(
     BaseEquals("string"),
     encoding.TextStringEncoder,
@@ -631,6 +637,11 @@ registry_packed.register_encoder(
     encoding.PackedBytesEncoder,
     label="function",
 )
+registry_packed.register_encoder(
+    BaseEquals("byte"),
+    encoding.PackedBytesEncoder,
+    label="byte",
+)
 registry_packed.register_encoder(
     BaseEquals("string"),
     encoding.PackedTextStringEncoder,
diff --git a/eth_abi/tools/_strategies.py b/eth_abi/tools/_strategies.py
index 201ff74..fb66b6e 100644
--- a/eth_abi/tools/_strategies.py
+++ b/eth_abi/tools/_strategies.py
@@ -218,6 +218,11 @@ strategy_registry.register_strategy(
     get_bytes_strategy,
     label="function",
 )
+strategy_registry.register_strategy(
+    BaseEquals("byte", with_sub=False),
+    get_bytes_strategy,
+    label="byte",
+)
 strategy_registry.register_strategy(
     BaseEquals("string", with_sub=False),
     string_strategy,
-- 
2.43.0


From 5d5a0ad13c2a2e2a8f87a2dd43dfbee432920d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:50 +0000
Subject: [PATCH 11/16] fix: reject bool types with a suffix

---
 eth_abi/grammar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eth_abi/grammar.py b/eth_abi/grammar.py
index fe24044..16228ac 100644
--- a/eth_abi/grammar.py
+++ b/eth_abi/grammar.py
@@ -395,6 +395,11 @@ class BasicType(ABIType):
             if sub is not None:
                 self.invalidate("address cannot have suffix")
 
+        # Check validity of bool type
+        elif base == "bool":
+            if sub is not None:
+                self.invalidate("bool cannot have suffix")
+
 
 TYPE_ALIASES = {
     "int": "int256",
-- 
2.43.0


From 3520702a1bbfb1daca6ab1e10eabd029b08bdc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 12/16] fix: support arrays of types whose coders are simple
 callables

---
 eth_abi/decoding.py | 4 ++--
 eth_abi/encoding.py | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index d6e084c..31a6277 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -272,7 +272,7 @@ class BaseArrayDecoder(BaseDecoder):
         super().__init__(**kwargs)
 
         # Use a head-tail decoder to decode dynamic elements
-        if self.item_decoder.is_dynamic:
+        if getattr(self.item_decoder, "is_dynamic", False):
             self.item_decoder = HeadTailDecoder(
                 tail_decoder=self.item_decoder,
             )
@@ -329,7 +329,7 @@ class SizedArrayDecoder(BaseArrayDecoder):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
-        self.is_dynamic = self.item_decoder.is_dynamic
+        self.is_dynamic = getattr(self.item_decoder, "is_dynamic", False)
 
     @to_tuple
     def decode(self, stream):
diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index aa74a7f..856a96d 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -592,7 +592,10 @@ class BaseArrayEncoder(BaseEncoder):
             )
 
         for item in value:
-            self.item_encoder.validate_value(item)
+            try:
+                self.item_encoder.validate_value(item)
+            except AttributeError:
+                self.item_encoder(item)
 
     def encode_elements(self, value):
         self.validate_value(value)
@@ -668,7 +671,7 @@ class SizedArrayEncoder(BaseArrayEncoder):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
-        self.is_dynamic = self.item_encoder.is_dynamic
+        self.is_dynamic = getattr(self.item_encoder, "is_dynamic", False)
 
     def validate(self):
         super().validate()
-- 
2.43.0


From fd0a83b4b9c99f1f1a58d8a58644bce7bd77f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:33 +0000
Subject: [PATCH 13/16] fix: reject pointers into any part of the head of a
 tuple

---
 eth_abi/decoding.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 31a6277..06e3329 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -193,31 +193,26 @@ class TupleDecoder(BaseDecoder):
         Verify that all pointers point to a valid location in the stream.
         """
         current_location = stream.tell()
-        len_of_head = sum(
-            getattr(decoder, "array_size", 1) for decoder in self.decoders
-        )
-        end_of_offsets = current_location + 32 * len_of_head
-        total_stream_length = len(stream.getbuffer())
+        pointers = []
         for decoder in self.decoders:
             if isinstance(decoder, HeadTailDecoder):
                 # the next 32 bytes are a pointer
-                offset = decode_uint_256(stream)
-                indicated_idx = current_location + offset
-                if (
-                    indicated_idx < end_of_offsets
-                    or indicated_idx >= total_stream_length
-                ):
-                    # the pointer is indicating its data is located either within the
-                    # offsets section of the stream or beyond the end of the stream,
-                    # both of which are invalid
-                    raise InvalidPointer(
-                        "Invalid pointer in tuple at location "
-                        f"{stream.tell() - 32} in payload"
-                    )
+                pointers.append((stream.tell(), decode_uint_256(stream)))
             else:
                 # the next 32 bytes are not a pointer, so progress the stream per
                 # the decoder
                 decoder(stream)
+        end_of_offsets = stream.tell()
+        total_stream_length = len(stream.getbuffer())
+        for location, offset in pointers:
+            indicated_idx = current_location + offset
+            if indicated_idx < end_of_offsets or indicated_idx >= total_stream_length:
+                # the pointer is indicating its data is located either within the
+                # offsets section of the stream or beyond the end of the stream,
+                # both of which are invalid
+                raise InvalidPointer(
+                    f"Invalid pointer in tuple at location {location} in payload"
+                )
         # return the stream to its original location for actual decoding
         stream.seek(current_location)
 
-- 
2.43.0


From 333877bfafbc17d085d94b2fc5d49e7ba376bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 14/16] fix: do not take exponential time to decode nested
 static tuples

---
 eth_abi/decoding.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 06e3329..cc34401 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -192,6 +192,11 @@ class TupleDecoder(BaseDecoder):
         """
         Verify that all pointers point to a valid location in the stream.
         """
+        if not self.is_dynamic:
+            # there are no pointers, and decoding the components here as well as in
+            # ``decode()`` takes exponential time for nested tuples
+            return
+
         current_location = stream.tell()
         pointers = []
         for decoder in self.decoders:
-- 
2.43.0


From 45d392148f65eb6d3546764afd5332592a3f1a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:09 +0000
Subject: [PATCH 15/16] fix: raise EncodingTypeError for non-sequences given to
 dynamic array encoders

DynamicArrayEncoder took the length of the value before validating it, so calling
the encoder with a value that has no length raised TypeError.
---
 eth_abi/encoding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 856a96d..6674662 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -700,8 +700,9 @@ class DynamicArrayEncoder(BaseArrayEncoder):
     is_dynamic = True
 
     def encode(self, value):
-        encoded_size = encode_uint_256(len(value))
+        # Encode the elements first since this validates the value
         encoded_elements = self.encode_elements(value)
+        encoded_size = encode_uint_256(len(value))
         encoded_value = encoded_size + encoded_elements
 
         return encoded_value
-- 
2.43.0


From 3221fa7c93eed1a8955112b98568562593f1b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:03 +0000
Subject: [PATCH 16/16] fix: make the decimal context of the coders independent
 of decimal.DefaultContext

decimal.Context() takes the rounding and the traps that are not given from
decimal.DefaultContext, so a program that sets traps there before importing eth_abi
got decimal.Inexact instead of IllegalValue for values with very many digits.
---
 eth_abi/utils/numeric.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eth_abi/utils/numeric.py b/eth_abi/utils/numeric.py
index 27624cc..57f52b1 100644
--- a/eth_abi/utils/numeric.py
+++ b/eth_abi/utils/numeric.py
@@ -7,8 +7,13 @@ ABI_DECIMAL_PREC = 999
 
 abi_decimal_context = decimal.Context(
     prec=ABI_DECIMAL_PREC,
+    rounding=decimal.ROUND_HALF_EVEN,
     Emin=decimal.MIN_EMIN,
     Emax=decimal.MAX_EMAX,
+    capitals=1,
+    clamp=0,
+    # do not inherit the traps of ``decimal.DefaultContext``
+    traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow],
 )
 
 ZERO = decimal.Decimal(0)
-- 
2.43.0

