From f3221291e0fbc263d8de5d5a9b4efde5ae11c1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 01/37] fix: UInt comparison considers the least significant
 byte

---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 42d60b0..49fbbc9 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -92,7 +92,7 @@ class UIntBase(SerializableMixin):
 
         length = len(x)
 
-        for i in range(length - 1, 0, -1):
+        for i in range(length - 1, -1, -1):
             if x[i] > y[i]:
                 return 1
             if x[i] < y[i]:
-- 
2.43.0


From 34c3cb5f3aa8441a0bd204f53172d465d33af88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 02/37] fix: UInt values own their data instead of sharing the
 caller's bytearray

---
 neocore/UIntBase.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 49fbbc9..c0f5dd7 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -17,10 +17,8 @@ class UIntBase(SerializableMixin):
             if len(data) != num_bytes:
                 raise Exception("Invalid UInt: data length {} != specified num_bytes {}".format(len(data), num_bytes))
 
-            if type(data) is bytes:
+            if type(data) in (bytes, bytearray):
                 self.Data = bytearray(data)
-            elif type(data) is bytearray:
-                self.Data = data
             else:
                 raise Exception("Invalid format")
 
-- 
2.43.0


From 68fb95c941317d32c741f917ec49ce647cdd106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 03/37] fix: UInt deserialization rejects truncated input

---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index c0f5dd7..3b6eb0c 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -37,7 +37,7 @@ class UIntBase(SerializableMixin):
         writer.WriteBytes(self.Data)
 
     def Deserialize(self, reader):
-        self.Data = reader.ReadBytes(self.Size)
+        self.Data = bytearray(reader.SafeReadBytes(self.Size))
         self.__hash = self.GetHashCode()
 
     def ToArray(self):
-- 
2.43.0


From ff04f7b01d367c779e71d40955ecede9d1c146eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 04/37] fix: WriteByte writes int subclasses instead of
 dropping them

---
 neocore/IO/BinaryWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 1904eec..774a446 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -82,7 +82,7 @@ class BinaryWriter(object):
             self.stream.write(value)
         elif type(value) is str:
             self.stream.write(value.encode('utf-8'))
-        elif type(value) is int:
+        elif isinstance(value, int):
             self.stream.write(bytes([value]))
 
     def WriteBytes(self, value, unhex=True):
-- 
2.43.0


From 2ce220b282480a1d27ad68bfa05fff27171e8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 05/37] fix: WriteFixedString writes its text verbatim

---
 neocore/IO/BinaryWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 774a446..a197c26 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -386,7 +386,7 @@ class BinaryWriter(object):
         slen = len(towrite)
         if slen > length:
             raise Exception("string longer than fixed length: %s " % length)
-        self.WriteBytes(towrite)
+        self.WriteBytes(towrite, unhex=False)
         diff = length - slen
 
         while diff > 0:
-- 
2.43.0


From 59df495664cef4b76caf205999d76fa09ccc39e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 06/37] fix: hash lists are written verbatim even when the
 bytes look like hex

---
 neocore/IO/BinaryWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index a197c26..488aa1e 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -417,7 +417,7 @@ class BinaryWriter(object):
         for item in arr:
             ba = bytearray(binascii.unhexlify(item))
             ba.reverse()
-            self.WriteBytes(ba)
+            self.WriteBytes(ba, unhex=False)
 
     def WriteHashes(self, arr):
         """
@@ -432,7 +432,7 @@ class BinaryWriter(object):
             ba = bytearray(binascii.unhexlify(item))
             ba.reverse()
             #            logger.info("WRITING HASH %s " % ba)
-            self.WriteBytes(ba)
+            self.WriteBytes(ba, unhex=False)
 
     def WriteFixed8(self, value, unsigned=False):
         """
-- 
2.43.0


From d731295ce950a1bd284de79cd56447693fc3fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 07/37] fix: WriteVarString supports encodings that are not
 ASCII supersets

---
 neocore/IO/BinaryWriter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 488aa1e..b86210d 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -368,11 +368,8 @@ class BinaryWriter(object):
             value = value.encode(encoding)
 
         length = len(value)
-        ba = bytearray(value)
-        byts = binascii.hexlify(ba)
-        string = byts.decode(encoding)
         self.WriteVarInt(length)
-        self.WriteBytes(string)
+        self.WriteBytes(value, unhex=False)
 
     def WriteFixedString(self, value, length):
         """
-- 
2.43.0


From 8a339aed50291edb3e879f6f210bf4007c417f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 08/37] fix: Fixed8 division is exact for values beyond float
 precision

---
 neocore/Fixed8.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index cab8d25..da2481f 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -88,7 +88,10 @@ class Fixed8:
         return self.__mul__(other)
 
     def __truediv__(self, other):
-        return Fixed8(int(self.value / other.value))
+        quotient = abs(self.value) // abs(other.value)
+        if (self.value < 0) != (other.value < 0):
+            quotient = -quotient
+        return Fixed8(int(quotient))
 
     def __floordiv__(self, other):
         return Fixed8(self.value // other.value)
-- 
2.43.0


From ca2f67f678a58a770ab7c08fb9f15ef266a6e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 09/37] fix: Fixed8 Ceil, Floor and ToInt are exact for values
 beyond float precision

---
 neocore/Fixed8.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index da2481f..f99aabd 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -7,8 +7,6 @@ Usage:
     from neocore.Fixed8 import Fixed8
 """
 
-import math
-
 
 class Fixed8:
     value = 0
@@ -127,13 +125,14 @@ class Fixed8:
         return self.value <= other.value
 
     def Ceil(self):
-        return Fixed8(math.ceil(self.value / Fixed8.D) * Fixed8.D)
+        return Fixed8(-int(-self.value // Fixed8.D) * Fixed8.D)
 
     def Floor(self):
-        return Fixed8(math.floor(self.value / Fixed8.D) * Fixed8.D)
+        return Fixed8(int(self.value // Fixed8.D) * Fixed8.D)
 
     def ToInt(self):
-        return int(self.value / Fixed8.D)
+        whole = int(abs(self.value) // Fixed8.D)
+        return whole if self.value >= 0 else -whole
 
     def ToString(self):
         return str(self.value / Fixed8.D)
-- 
2.43.0


From 139d66c74cc0e9d61f9968de03a34e5e97e65839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 10/37] fix: Sign selects the NEO curve itself

---
 neocore/Cryptography/Crypto.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index 131f146..41f5c31 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -116,6 +116,7 @@ class Crypto(object):
 
         hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()
 
+        Crypto.SetupSignatureCurve()
         v, r, s = bitcoin.ecdsa_raw_sign(hash, private_key)
 
         rb = bytearray(r.to_bytes(32, 'big'))
-- 
2.43.0


From 4dc04e58fa0c428348603fd571b33374b4a9c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 11/37] fix: VerifySignature selects the NEO curve and rejects
 malformed public keys

---
 neocore/Cryptography/Crypto.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index 41f5c31..47844fc 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -155,11 +155,12 @@ class Crypto(object):
         elif isinstance(message, str):
             message = message.encode('utf-8')
 
-        if len(public_key) == 33:
-            public_key = bitcoin.decompress(public_key)
-            public_key = public_key[1:]
-
         try:
+            if len(public_key) == 33:
+                Crypto.SetupSignatureCurve()
+                public_key = bitcoin.decompress(public_key)
+                public_key = public_key[1:]
+
             vk = VerifyingKey.from_string(public_key, curve=NIST256p, hashfunc=hashlib.sha256)
             res = vk.verify(signature, message, hashfunc=hashlib.sha256)
             return res
-- 
2.43.0


From a35999ea6f09153dfbe07fe8815bc528f0dda551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 12/37] fix: np-utils rejects addresses with a wrong version
 byte, length or alphabet

---
 neocore/bin/cli.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/neocore/bin/cli.py b/neocore/bin/cli.py
index 4564786..d44385d 100755
--- a/neocore/bin/cli.py
+++ b/neocore/bin/cli.py
@@ -22,12 +22,16 @@ class ConversionError(Exception):
 
 
 def address_to_scripthash(address):
-    data = bytes(base58.b58decode(address))
+    try:
+        data = bytes(base58.b58decode(address))
+    except ValueError:
+        raise ConversionError("Invalid address: not base58")
+
+    if len(data) != 25:
+        raise ConversionError("Invalid address: wrong length")
 
-    # Make sure signature byte is correct. In python 3, data[0] is bytes, and in 2 it's str.
-    # We use this isinstance checke to make it work with both Python 2 and 3.
-    is_correct_signature = data[0] != 0x17 if isinstance(data[0], bytes) else b'\x17'
-    if not is_correct_signature:
+    # Make sure signature byte is correct.
+    if data[0] != 0x17:
         raise ConversionError("Invalid address: wrong signature byte")
 
     # Make sure the checksum is correct
-- 
2.43.0


From abdd9a1a8e74edd0b3c79de4bb783cf89dce71e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 13/37] fix: isValidPublicAddress checks the decoded length and
 address version

---
 neocore/Utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neocore/Utils.py b/neocore/Utils.py
index 04bfde9..e233cb0 100644
--- a/neocore/Utils.py
+++ b/neocore/Utils.py
@@ -7,10 +7,10 @@ def isValidPublicAddress(address: str) -> bool:
 
     if len(address) == 34 and address[0] == 'A':
         try:
-            base58.b58decode_check(address.encode())
-            valid = True
+            data = base58.b58decode_check(address.encode())
+            valid = len(data) == 21 and data[0] == 0x17
         except ValueError:
-            # checksum mismatch
+            # invalid character or checksum mismatch
             valid = False
 
     return valid
-- 
2.43.0


From 8b7fa62abb5b1e2f08957f7f44bf725092d220e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 14/37] fix: NEP-2 import rejects keys with a wrong header or
 length

---
 neocore/KeyPair.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/KeyPair.py b/neocore/KeyPair.py
index 62a99ef..a1615ba 100644
--- a/neocore/KeyPair.py
+++ b/neocore/KeyPair.py
@@ -128,6 +128,9 @@ class KeyPair(object):
         except Exception as e:
             raise ValueError("Invalid nep2_key")
 
+        if len(decoded_key) != 39 or decoded_key[:ADDRESS_HASH_OFFSET] != NEP_HEADER + NEP_FLAG:
+            raise ValueError("Invalid nep2_key")
+
         address_hash = decoded_key[ADDRESS_HASH_OFFSET:ADDRESS_HASH_OFFSET + ADDRESS_HASH_SIZE]
         encrypted = decoded_key[-32:]
 
-- 
2.43.0


From a9073bab9d214eaf3985aea6a05f3f7c0938134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 15/37] fix: importing a missing WIF or NEP-2 key raises
 ValueError

---
 neocore/KeyPair.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neocore/KeyPair.py b/neocore/KeyPair.py
index a1615ba..1957c8a 100644
--- a/neocore/KeyPair.py
+++ b/neocore/KeyPair.py
@@ -89,7 +89,7 @@ class KeyPair(object):
             bytes: The private key
         """
         if wif is None or len(wif) is not 52:
-            raise ValueError('Please provide a wif with a length of 52 bytes (LEN: {0:d})'.format(len(wif)))
+            raise ValueError('Please provide a wif with a length of 52 bytes (LEN: {0:d})'.format(len(wif or '')))
 
         data = base58.b58decode(wif)
 
@@ -118,7 +118,7 @@ class KeyPair(object):
             bytes: The private key
         """
         if not nep2_key or len(nep2_key) != 58:
-            raise ValueError('Please provide a nep2_key with a length of 58 bytes (LEN: {0:d})'.format(len(nep2_key)))
+            raise ValueError('Please provide a nep2_key with a length of 58 bytes (LEN: {0:d})'.format(len(nep2_key or '')))
 
         ADDRESS_HASH_SIZE = 4
         ADDRESS_HASH_OFFSET = len(NEP_FLAG) + len(NEP_HEADER)
-- 
2.43.0


From 586fe74c8318d56433080a3f2480f5d1d3916ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 16/37] fix: field negation of zero stays in range

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 238050d..6f29a25 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -282,7 +282,7 @@ class FiniteField:
         return (lhs.value - rhs.value) % self.p == 0
 
     def neg(self, val):
-        return self.value(self.p - val.value)
+        return self.value(-val.value % self.p)
 
     def sqrt(self, val, flag):
         """
-- 
2.43.0


From ba5c22ee679504f346293e962c79a60cc3212082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 17/37] fix: EC points with equal x coordinates are ordered by
 y

---
 neocore/Cryptography/ECCurve.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 6f29a25..4f0b63f 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -388,8 +388,6 @@ class EllipticCurve:
                 return True
             elif self.x.value > other.x.value:
                 return False
-            elif self.x.value == other.x.value:
-                return False
 
             return self.y.value < other.y.value
 
@@ -400,8 +398,6 @@ class EllipticCurve:
                 return True
             elif self.x.value < other.x.value:
                 return False
-            elif self.x.value == other.x.value:
-                return False
 
             return self.y.value > other.y.value
 
-- 
2.43.0


From ba17ed8b97501ad5d4eb06956ef71865a20c799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 18/37] fix: EC scalar multiplication halves the scalar exactly

---
 neocore/Cryptography/ECCurve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 4f0b63f..feb0538 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -511,6 +511,9 @@ class EllipticCurve:
     # scalar multiplication is implemented like repeated addition
     def mul(self, pt, scalar):
         scalar = self.field.integer(scalar)
+        if scalar < 0:
+            pt = self.neg(pt)
+            scalar = -scalar
         accumulator = self.zero()
         shifter = pt
 
@@ -519,7 +522,7 @@ class EllipticCurve:
             if bit:
                 accumulator += shifter
             shifter += shifter
-            scalar /= 2
+            scalar //= 2
 
         return accumulator
 
-- 
2.43.0


From e9896349e1fa325490e43cbfe769f1f1f74a1296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 19/37] fix: modular square roots use integer exponents

---
 neocore/Cryptography/ECCurve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index feb0538..f66fbf4 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -292,13 +292,13 @@ class FiniteField:
             return val
         sw = self.p % 8
         if sw == 3 or sw == 7:
-            res = val ** ((self.p + 1) / 4)
+            res = val ** ((self.p + 1) // 4)
         elif sw == 5:
-            x = val ** ((self.p + 1) / 4)
+            x = val ** ((self.p + 1) // 4)
             if x == 1:
-                res = val ** ((self.p + 3) / 8)
+                res = val ** ((self.p + 3) // 8)
             else:
-                res = (4 * val) ** ((self.p - 5) / 8) * 2 * val
+                res = (4 * val) ** ((self.p - 5) // 8) * 2 * val
         else:
             raise Exception("modsqrt non supported for (p%8)==1")
 
-- 
2.43.0


From 3e0afacd20e540ec4beb3243379b0b1475555798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 20/37] fix: dividing an integer by a field value works on
 Python 3

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index f66fbf4..b901450 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -226,7 +226,7 @@ class FiniteField:
         def __rmul__(self, rhs):
             return self.field.mul(self.field.value(rhs), self)
 
-        def __rdiv__(self, rhs):
+        def __rtruediv__(self, rhs):
             return self.field.div(self.field.value(rhs), self)
 
         def __rpow__(self, rhs):
-- 
2.43.0


From 1df59f28e5d3d3fea797ac5a56f063848df60371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 21/37] fix: secp256r1 instances carry the curve and its group
 order

---
 neocore/Cryptography/ECCurve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index b901450..4daca8b 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -810,7 +810,7 @@ class ECDSA:
         # return ECDSA(GFp, ec.point(0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),int("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC", 16))
         return ECDSA(ec,
                      ec.point(0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296, 0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),
-                     GFp)
+                     int("FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551", 16))
 
     @staticmethod
     def decode_secp256r1(str, unhex=True, check_on_curve=True):
@@ -826,11 +826,11 @@ class ECDSA:
 
         if check_on_curve:
             if point.isoncurve():
-                return ECDSA(GFp, point, int("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC", 16))
+                return ECDSA(ec, point, int("FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551", 16))
             else:
                 raise Exception("Could not decode string")
 
-        return ECDSA(GFp, point, int("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC", 16))
+        return ECDSA(ec, point, int("FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551", 16))
 
     @staticmethod
     def Deserialize_Secp256r1(reader):
-- 
2.43.0


From cc3a3222e4ecc741f098a5a17e76adce7c79d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 22/37] fix: EC point deserialization rejects truncated input

---
 neocore/Cryptography/ECCurve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 4daca8b..5be53b0 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -570,7 +570,7 @@ class EllipticCurve:
 
     def decode_from_reader(self, reader):
 
-        f = reader.ReadByte()
+        f = reader.SafeReadBytes(1)[0]
 
         if f == 0:
             return self.Infinity
@@ -578,7 +578,7 @@ class EllipticCurve:
         # these are compressed
         if f == 2 or f == 3:
             yTilde = f & 1
-            data = bytearray(reader.ReadBytes(32))
+            data = bytearray(reader.SafeReadBytes(32))
             data.reverse()
             data.append(0)
             X1 = int.from_bytes(data, 'little')
-- 
2.43.0


From f88c7101289b8a6d416119fa6b18b231cd202fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 23/37] fix: decompressing an x coordinate without a curve
 point raises a clear error

---
 neocore/Cryptography/ECCurve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 5be53b0..3910e1f 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -656,6 +656,8 @@ class EllipticCurve:
         ysquare = x ** 3 + self.a * x + self.b
 
         ysquare_root = sqrtCQ(ysquare.value, cq)
+        if ysquare_root is None:
+            raise Exception("Invalid point: x is not on the curve")
 
         bit0 = 0
         if ysquare_root % 2 is not 0:
-- 
2.43.0


From ec590ea601f623bd97735214799945e8c26f5478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 24/37] fix: decode public keys from raw bytes in
 FromBytes_Secp256r1

---
 neocore/Cryptography/ECCurve.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 3910e1f..6f56365 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -847,19 +847,21 @@ class ECDSA:
         length = len(pubkey)
 
         if length == 33 or length == 65:
-            return ECDSA.decode_secp256r1(pubkey)
+            return ECDSA.decode_secp256r1(pubkey, unhex=False)
 
         elif length == 64 or length == 72:
             skip = length - 64
-            out = bytearray(b'04').hex() + pubkey[skip:]
-            return ECDSA.decode_secp256r1(out)
+            out = bytearray(b'\x04') + bytearray(pubkey[skip:])
+            return ECDSA.decode_secp256r1(out, unhex=False)
 
         elif length == 96 or length == 104:
             skip = length - 96
 
             out = bytearray(b'\x04') + bytearray(pubkey[skip:skip + 64])
 
-            return ECDSA.decode_secp256r1(out, unhex=False, check_on_curve=False)
+            return ECDSA.decode_secp256r1(out, unhex=False)
+
+        raise ValueError("Invalid public key length: %s" % length)
 
     @staticmethod
     def secp256k1():
-- 
2.43.0


From 786b65697758b79ccdff698eacaa9012dcbc1a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 25/37] fix: EC point decoding rejects coordinates outside the
 field

---
 neocore/Cryptography/ECCurve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 6f56365..b003ec8 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -634,6 +634,8 @@ class EllipticCurve:
 
             x = int.from_bytes(x_data, 'little')
             y = int.from_bytes(y_data, 'little')
+            if x >= cq or y >= cq:
+                raise Exception("Invalid point: coordinate out of range")
 
             pnt = self.point(x, y)
             return pnt
@@ -652,6 +654,8 @@ class EllipticCurve:
 
         cq = self.field.p
         x = self.field.value(x)
+        if x.value >= cq:
+            raise Exception("Invalid point: coordinate out of range")
 
         ysquare = x ** 3 + self.a * x + self.b
 
-- 
2.43.0


From a7e13a8ec2c0600f5ed38670f4b3221810652bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 26/37] fix: Merkle trimming reads the flags of each subtree

---
 neocore/Cryptography/MerkleTree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/MerkleTree.py b/neocore/Cryptography/MerkleTree.py
index e18fa1a..c6939a7 100644
--- a/neocore/Cryptography/MerkleTree.py
+++ b/neocore/Cryptography/MerkleTree.py
@@ -181,14 +181,15 @@ class MerkleTree(object):
             return
 
         if depth == 2:
-            if not flags[index * 2] and not flags[index * 2 + 1]:
+            if not any(flags[index * 2:index * 2 + 2]):
                 node.LeftChild = None
                 node.RightChild = None
 
         else:
 
             MerkleTree._TrimNode(node.LeftChild, index * 2, depth - 1, flags)
-            MerkleTree._TrimNode(node.RightChild, index * 2, depth - 1, flags)
+            if node.RightChild is not node.LeftChild:
+                MerkleTree._TrimNode(node.RightChild, index * 2 + 1, depth - 1, flags)
 
             if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:
                 node.LeftChild = None
-- 
2.43.0


From 21b9f3a7a66182309255e1e1f12b43717fbd2f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 27/37] fix: Fixed8.FromDecimal converts decimals exactly

---
 neocore/Fixed8.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index f99aabd..9245a2c 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -6,6 +6,10 @@ Description:
 Usage:
     from neocore.Fixed8 import Fixed8
 """
+from decimal import Context, Decimal, ROUND_DOWN
+
+# wide enough for every 64 bit amount; what does not fit is cut off, never rounded up
+DECIMAL_CONTEXT = Context(prec=28, rounding=ROUND_DOWN)
 
 
 class Fixed8:
@@ -27,7 +31,7 @@ class Fixed8:
 
     @staticmethod
     def FromDecimal(number):
-        out = int(number * Fixed8.D)
+        out = int(DECIMAL_CONTEXT.multiply(Decimal(str(number)), Decimal(Fixed8.D)))
         return Fixed8(out)
 
     @staticmethod
-- 
2.43.0


From d0568a039a547f0a09efa1672abdce1ec1b1c5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 28/37] fix: Fixed8.TryParse parses decimals exactly and
 rejects nan and infinity

---
 neocore/Fixed8.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index 9245a2c..3312c98 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -54,20 +54,20 @@ class Fixed8:
     def TryParse(value, require_positive=False):
         val = None
         try:
-            val = float(value)
+            val = Decimal(str(value))
         except Exception as e:
             pass
-        if not val:
+        if val is None:
             try:
-                val = int(value)
+                val = Decimal(float(value))
             except Exception as e:
                 pass
-        if val is not None:
+        if val is not None and val.is_finite():
 
             if require_positive and val < 0:
                 return None
 
-            return Fixed8(int(val * Fixed8.D))
+            return Fixed8.FromDecimal(val)
 
         return None
 
-- 
2.43.0


From 0279dbc33732ce4ae5d308842a95026f70b521a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 29/37] fix: reject encodings of infinity other than the single
 zero byte

---
 neocore/Cryptography/ECCurve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index b003ec8..1b00e09 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -605,6 +605,8 @@ class EllipticCurve:
         f = ba[0]
 
         if f == 0:
+            if len(ba) != 1:
+                raise Exception("Incorrect length for infinity encoding")
             return self.Infinity
 
         # these are compressed
@@ -636,6 +638,8 @@ class EllipticCurve:
             y = int.from_bytes(y_data, 'little')
             if x >= cq or y >= cq:
                 raise Exception("Invalid point: coordinate out of range")
+            if x == 0 and y == 0:
+                raise Exception("Invalid point: not on the curve")
 
             pnt = self.point(x, y)
             return pnt
-- 
2.43.0


From 28577190f3f9be6efe1008146a9cfbd03214c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 30/37] fix: inverse of a negative number in a finite field had
 the wrong sign

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 1b00e09..943edee 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -24,7 +24,7 @@ def GCD(a, b):
 
 
 def modinv(x, m):
-    (gcd, c, d) = GCD(x, m)
+    (gcd, c, d) = GCD(x % m, m)
     return c
 
 
-- 
2.43.0


From e25c849667413532d73358007cbc1b7d71bd267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 31/37] fix: KeyPair accepted the zero private key, whose
 public key is the point at infinity

---
 neocore/KeyPair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neocore/KeyPair.py b/neocore/KeyPair.py
index 1957c8a..5159c64 100644
--- a/neocore/KeyPair.py
+++ b/neocore/KeyPair.py
@@ -75,6 +75,10 @@ class KeyPair(object):
             edcsa = ECDSA.secp256r1()
             self.PublicKey = edcsa.Curve.point(pubx, puby)
 
+            # the zero key has no public key
+            if self.PublicKey.IsInfinity:
+                raise ValueError("Invalid private key")
+
         self.PublicKeyHash = Crypto.ToScriptHash(self.PublicKey.encode_point(True), unhex=True)
 
     @staticmethod
-- 
2.43.0


From 464f377754ef26146f7144f7475af77621ab670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 32/37] fix: ECDSA.verify accepted out-of-range signatures such
 as (0, 0) for any message

---
 neocore/Cryptography/ECCurve.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 943edee..7afe5d9 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -712,7 +712,8 @@ class ECDSA:
 
         R = self.G * k
 
-        r = self.GFn.value(R.x)
+        # the x coordinate is a number modulo the field prime, r one modulo the group order
+        r = self.GFn.value(R.x.value % self.GFn.p)
         s = (m + x * r) / k
 
         return (r, s)
@@ -737,6 +738,10 @@ class ECDSA:
         r = self.GFn.value(rnum)
         s = self.GFn.value(snum)
 
+        # both numbers of a signature lie between 1 and n - 1
+        if not (0 < r.value < self.GFn.p and 0 < s.value < self.GFn.p):
+            return False
+
         R = self.G * (m / s) + pubkey * (r / s)
 
         # alternative methods of verifying
@@ -746,7 +751,7 @@ class ECDSA:
         # print "#2: %s .. %s"  % (RR*(1/s), r)
         # print "#3: %s .. %s"  % (R, r)
 
-        return R.x == r
+        return r == self.GFn.value(R.x)
 
     def findpk(self, message, rnum, snum, flag):
         """
-- 
2.43.0


From 07e81a104d1ca012eb0def2cc570dd0d4b4c8a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:43 +0000
Subject: [PATCH 33/37] fix: next_random_integer returned values above the
 requested number of bits

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 7afe5d9..ea84769 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -61,7 +61,7 @@ def next_random_integer(size_in_bits):
         ba[balen - 1] = 0
     else:
         ba[balen - 1] &= (1 << size_in_bits % 8) - 1
-    return int.from_bytes(ba, 'big')
+    return int.from_bytes(ba, 'little')
 
 
 def _lucas_sequence(n, P, Q, k):
-- 
2.43.0


From 7426b8dd780e70107c62ff4238ec2671a9b3b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:23 +0000
Subject: [PATCH 34/37] fix: sqrtCQ found no square root modulo primes
 congruent to 1 modulo 4

---
 neocore/Cryptography/ECCurve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index ea84769..fbf9acd 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -153,6 +153,9 @@ def sqrtCQ(val, CQ):
         else:
             return None
 
+    if val == 0:
+        return val
+
     qMinusOne = CQ - 1
     legendreExponent = qMinusOne >> 1
     if modpow(val, legendreExponent, CQ) != 1:
@@ -163,7 +166,7 @@ def sqrtCQ(val, CQ):
     k = (u << 1) + 1
     Q = val
     fourQ = (Q << 2) % CQ
-    U = None
+    U = 1
     V = None
 
     while U == 1 or U == qMinusOne:
-- 
2.43.0


From d7201ed2aacf685b4dcb10b14d0afb859b9779aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:57 +0000
Subject: [PATCH 35/37] fix: Value.sqrtCQ called a field method that does not
 exist

---
 neocore/Cryptography/ECCurve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index fbf9acd..bd323c6 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -251,7 +251,8 @@ class FiniteField:
             return self.field.sqrt(self, flag)
 
         def sqrtCQ(self, CQ):
-            return self.field.sqrtCQ(self, CQ)
+            root = sqrtCQ(self.value, CQ)
+            return None if root is None else self.field.value(root)
 
         def inverse(self):
             return self.field.inverse(self)
-- 
2.43.0


From 48a121308733d5985404828965591031c8d767ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:11 +0000
Subject: [PATCH 36/37] fix: the text of a field value put a hexadecimal prefix
 on decimal digits

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index bd323c6..f0e328c 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -242,7 +242,7 @@ class FiniteField:
             return not (self == rhs)
 
         def __str__(self):
-            return "0x%s" % self.value
+            return "0x%x" % self.value
 
         def __neg__(self):
             return self.field.neg(self)
-- 
2.43.0


From ead86ff32f3e76c8ca65fdb89456640bbaa6dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:37 +0000
Subject: [PATCH 37/37] fix: Read2000256List returned shortened hashes when the
 stream ended early

---
 neocore/IO/BinaryReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryReader.py b/neocore/IO/BinaryReader.py
index 2749825..5963d02 100644
--- a/neocore/IO/BinaryReader.py
+++ b/neocore/IO/BinaryReader.py
@@ -360,7 +360,7 @@ class BinaryReader(object):
         """
         items = []
         for i in range(0, 2000):
-            data = self.ReadBytes(64)
+            data = self.SafeReadBytes(64)
             ba = bytearray(binascii.unhexlify(data))
             ba.reverse()
             items.append(ba.hex().encode('utf-8'))
-- 
2.43.0

