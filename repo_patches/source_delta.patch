From 486a5e96c092cd913d9cfc56de63039388bda14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:48 +0000
Subject: [PATCH 01/27] fix: keep no stale buffered data after an update that
 ends on a block boundary

---
 gostcrypto/gosthash/gost_34_11_2012.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gostcrypto/gosthash/gost_34_11_2012.py b/gostcrypto/gosthash/gost_34_11_2012.py
index c64e34a..972e462 100755
--- a/gostcrypto/gosthash/gost_34_11_2012.py
+++ b/gostcrypto/gosthash/gost_34_11_2012.py
@@ -860,8 +860,7 @@ class GOST34112012:
             self._hash_n = self._hash_add_512(self._hash_n, _V_512)
             self._hash_sigma = self._hash_add_512(self._hash_sigma, block)
         self._pad_block_size = _BLOCK_SIZE - len(data) % _BLOCK_SIZE
-        if self._pad_block_size < _BLOCK_SIZE:
-            self._buff = data[-(_BLOCK_SIZE - self._pad_block_size):]
+        self._buff = data[self._num_block * _BLOCK_SIZE:]
 
     def hash_final(self) -> None:
         """Complete the hash calculation after the data update."""
-- 
2.43.0


From e12ecbd632195ec240ed3a2b3b91b8222c336af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:12 +0000
Subject: [PATCH 02/27] fix: compute the MAC of short messages and of short or
 empty updates

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 37 +++++-------------------
 1 file changed, 7 insertions(+), 30 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index b9fe0b6..34e9778 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -932,9 +932,7 @@ class GOST34132015mac(GOST34132015):
         super().__init__(algorithm, key)
         value_r = self._cipher_obj.encrypt(bytearray(self._cipher_obj.block_size * b'\x00'))
         self._key_1, self._key_2 = self._get_mac_key(value_r)
-        self._fin_buff = bytearray()
         self._iter_buf = bytearray()
-        self._prev_mac = bytearray(self._cipher_obj.block_size)
         self._cur_mac = bytearray(self._cipher_obj.block_size)
         if data != bytearray(b''):
             self.update(data)
@@ -984,43 +982,22 @@ class GOST34132015mac(GOST34132015):
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid text data')
         data = self._iter_buf + data
-        block = bytearray()
-        prev_block = self._cur_mac
-        for i in range(0, self._get_num_block(data) - 1):
-            block = self._cipher_obj.encrypt(add_xor(prev_block, self._get_block(data, i)))
-            prev_block = block
-        if self._get_pad_size(data) == 0:
-            block = (
-                self._cipher_obj.encrypt(
-                    add_xor(prev_block, data[len(data) - self.block_size:len(data)])
-                )
-            )
-            self._cur_mac = block
-            self._prev_mac = prev_block
-            self._iter_buf = bytearray(b'')
-        else:
-            begin_data = len(data) - 2 * self.block_size + self._get_pad_size(data)
-            end_data = len(data) - self.block_size + self._get_pad_size(data)
-            block = (
-                self._cipher_obj.encrypt(
-                    add_xor(prev_block, data[begin_data:end_data])
-                )
+        num_block = max(len(data) - 1, 0) // self.block_size
+        for i in range(num_block):
+            self._cur_mac = self._cipher_obj.encrypt(
+                add_xor(self._cur_mac, self._get_block(data, i))
             )
-            self._cur_mac = block
-            self._prev_mac = block
-            self._iter_buf = data[len(data) - self.block_size + self._get_pad_size(data):]
-        self._fin_buff = data[self.block_size * (self._get_num_block(data) - 1):]
+        self._iter_buf = data[num_block * self.block_size:]
 
     def mac_final(self) -> bytearray:
         """Return the final value of the MAC."""
-        if self._get_pad_size(self._fin_buff) == 0:
+        if len(self._iter_buf) == self.block_size:
             final_key = self._key_1
         else:
             final_key = self._key_2
-            self._fin_buff = self._set_pad_mode_3(self._fin_buff[self.block_size:])
         result = bytearray()
         result = self._cipher_obj.encrypt(
-            add_xor(add_xor(self._fin_buff, self._prev_mac), final_key)
+            add_xor(add_xor(self._set_pad_mode_3(self._iter_buf), self._cur_mac), final_key)
         )
         return result
 
-- 
2.43.0


From 0ce1dc7286cdde5dc6bff4efa2a964c406ffe0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:17 +0000
Subject: [PATCH 03/27] fix: propagate the carry of the CTR block counter

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 34e9778..ebc5f67 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -839,13 +839,8 @@ class GOST34132015ctr(GOST34132015Cipher):
         self._counter = bytearray(self._counter)
 
     def _inc_ctr(self, ctr: bytearray) -> bytearray:
-        internal = 0
-        bit = bytearray(self.block_size)
-        bit[self.block_size - 1] = 0x01
-        for i in range(self.block_size):
-            internal = ctr[i] + bit[i] + (internal << 8)
-            ctr[i] = internal & 0xff
-        return ctr
+        counter = (bytearray_to_int(ctr) + 1) % (1 << 8 * self.block_size)
+        return int_to_bytearray(counter, self.block_size)
 
     @property
     def counter(self) -> bytearray:
-- 
2.43.0


From aba6ae2ee1bd87710cf98fb9c69fbab7a28b52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:20 +0000
Subject: [PATCH 04/27] fix: fill cleared values with zero bytes

---
 gostcrypto/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/utils/utils.py b/gostcrypto/utils/utils.py
index b698a01..1a2256d 100755
--- a/gostcrypto/utils/utils.py
+++ b/gostcrypto/utils/utils.py
@@ -77,7 +77,7 @@ def zero_fill(value: bytearray) -> bytearray:
     """
     result = b''
     if isinstance(value, (bytes, bytearray)):
-        result = b'/x00' * len(value)
+        result = b'\x00' * len(value)
         result = bytearray(result)
     return result
 
-- 
2.43.0


From 42134e6986a2082efc9e2a177bf8abb503842e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:24 +0000
Subject: [PATCH 05/27] fix: do not pad empty data with an additional block

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index ebc5f67..a67fdf0 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -250,13 +250,7 @@ class GOST34132015(ABC):
         return len(data) // self.block_size
 
     def _get_pad_size(self, data: bytearray) -> int:
-        if len(data) < self.block_size:
-            result = self.block_size - len(data)
-        elif len(data) % self.block_size == 0:
-            result = 0
-        else:
-            result = self.block_size - len(data) % self.block_size
-        return result
+        return -len(data) % self.block_size
 
     def _get_block(self, data: bytearray, count_block: int) -> bytearray:
         begin_block = self.block_size * count_block
@@ -933,10 +927,10 @@ class GOST34132015mac(GOST34132015):
             self.update(data)
 
     def _set_pad_mode_3(self, data: bytearray) -> bytearray:
-        if self._get_pad_size(data) == 0:
+        if len(data) == self.block_size:
             result = data
         else:
-            result = data + b'\x80' + b'\x00' * (self._get_pad_size(data) - 1)
+            result = data + b'\x80' + b'\x00' * (self.block_size - len(data) - 1)
         return result
 
     def _get_mac_key(self, value_r):
-- 
2.43.0


From 7ccf1d91fdd0eddfd0dac4b5a41851886d237fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:27 +0000
Subject: [PATCH 06/27] fix: reject an empty initialization vector

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index a67fdf0..d18ae3b 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -450,7 +450,7 @@ class GOST34132015CipherFeedBack(GOST34132015Cipher, ABC):
         """
         GOST34132015Cipher.__init__(self, algorithm, key)
         check_init_vect = isinstance(init_vect, (bytes, bytearray))
-        if (not check_init_vect) or (len(init_vect) % self.block_size) != 0:
+        if (not init_vect) or (not check_init_vect) or (len(init_vect) % self.block_size) != 0:
             self.clear()
             raise GOSTCipherError('GOSTCipherError: invalid initialization vector value')
         self._init_vect = init_vect
-- 
2.43.0


From b2a47a8d82ec884dccfc9139834c963f08cba114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:31 +0000
Subject: [PATCH 07/27] fix: return a copy of the CTR block counter

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index d18ae3b..e2d7e89 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -839,7 +839,7 @@ class GOST34132015ctr(GOST34132015Cipher):
     @property
     def counter(self) -> bytearray:
         """Return the value of the block counter."""
-        return self._counter
+        return bytearray(self._counter)
 
     def encrypt(self, data: bytearray) -> bytearray:
         """
-- 
2.43.0


From 05298834857f5c8368fc97b878a0524cd7d2e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:34 +0000
Subject: [PATCH 08/27] fix: reject a message authentication code size below
 one byte

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index e2d7e89..c79eea6 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -1010,7 +1010,7 @@ class GOST34132015mac(GOST34132015):
               size.
         """
         temp = deepcopy(self)
-        if mac_size > temp.block_size:
+        if mac_size < 1 or mac_size > temp.block_size:
             temp.clear()
             raise GOSTCipherError('GOSTCipherError: invalid message authentication code size')
         return temp.mac_final()[0:mac_size:]
-- 
2.43.0


From 32dfd7eada9ca2e2ba33baa15b8dce95c1cffdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:39 +0000
Subject: [PATCH 09/27] fix: clear the MAC keys and the MAC state together with
 the cipher keys

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index c79eea6..3012957 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -978,6 +978,13 @@ class GOST34132015mac(GOST34132015):
             )
         self._iter_buf = data[num_block * self.block_size:]
 
+    def clear(self) -> None:
+        """Сlearing the values of iterative encryption keys and MAC state."""
+        super().clear()
+        for name in ('_key_1', '_key_2', '_cur_mac', '_iter_buf'):
+            if hasattr(self, name):
+                setattr(self, name, zero_fill(getattr(self, name)))
+
     def mac_final(self) -> bytearray:
         """Return the final value of the MAC."""
         if len(self._iter_buf) == self.block_size:
-- 
2.43.0


From 88450cef4d2f8db4f3dded5c3c8b95f60ece6c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 10/27] fix: never reuse the gamma of an incomplete block in
 CFB and OFB modes

---
 gostcrypto/gostcipher/gost_34_13_2015.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gostcrypto/gostcipher/gost_34_13_2015.py b/gostcrypto/gostcipher/gost_34_13_2015.py
index 3012957..b33b866 100755
--- a/gostcrypto/gostcipher/gost_34_13_2015.py
+++ b/gostcrypto/gostcipher/gost_34_13_2015.py
@@ -472,7 +472,7 @@ class GOST34132015CipherFeedBack(GOST34132015Cipher, ABC):
     def _final_cipher(self, data):
         gamma = self._get_gamma()
         cipher_block = self._get_final_block(data)
-        return add_xor(gamma, cipher_block)
+        return add_xor(gamma, cipher_block), gamma
 
     @abstractmethod
     def encrypt(self, data: bytearray) -> bytearray:
@@ -700,7 +700,9 @@ class GOST34132015cfb(GOST34132015CipherFeedBack):
             result = result + cipher_block
             self._set_init_vect(cipher_block[0:self.block_size])
         if len(data) % self.block_size != 0:
-            result = result + self._final_cipher(data)
+            cipher_block, gamma = self._final_cipher(data)
+            result = result + cipher_block
+            self._set_init_vect(cipher_block + gamma[len(cipher_block):])
         return result
 
     def decrypt(self, data: bytearray) -> bytearray:
@@ -726,7 +728,10 @@ class GOST34132015cfb(GOST34132015CipherFeedBack):
             result = result + add_xor(gamma, cipher_block)
             self._set_init_vect(cipher_block)
         if len(data) % self.block_size != 0:
-            result = result + self._final_cipher(data)
+            cipher_block = self._get_final_block(data)
+            plain_block, gamma = self._final_cipher(data)
+            result = result + plain_block
+            self._set_init_vect(cipher_block + gamma[len(cipher_block):])
         return result
 
 
@@ -772,7 +777,9 @@ class GOST34132015ofb(GOST34132015CipherFeedBack):
             result = result + add_xor(gamma, cipher_block)
             self._set_init_vect(gamma[0:self.block_size])
         if len(data) % self.block_size != 0:
-            result = result + self._final_cipher(data)
+            cipher_block, gamma = self._final_cipher(data)
+            result = result + cipher_block
+            self._set_init_vect(gamma)
         return result
 
     def decrypt(self, data: bytearray) -> bytearray:
-- 
2.43.0


From 863839c9846107ec571f4f5b4001501630adbaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 11/27] fix: set the continuation bit in every leading octet of
 an OID component

---
 gostcrypto/gostoid/oid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index b588b47..c223429 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -101,9 +101,9 @@ def _int_to_octet(value: int) -> bytearray:
         return bytearray(value.to_bytes(1, byteorder='big'))
     result = bytearray(_len_int(value, 7))
     for i in range(_len_int(value, 7) - 1, -1, -1):
-        result[i] = value & 0x7F
+        result[i] = value & 0x7F | 0x80
         value = value >> 7
-    result[0] = result[0] | 0x80
+    result[-1] = result[-1] & 0x7F
     return result
 
 
-- 
2.43.0


From 72a19ed670e6b9515df7b5934f26bba8bd6af4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 12/27] fix: raise GOSTOIDError for OID values that cannot be
 encoded

---
 gostcrypto/gostoid/oid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index c223429..85e624c 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -109,6 +109,8 @@ def _int_to_octet(value: int) -> bytearray:
 
 def _encode_octet(value: tuple) -> bytearray:
     result = bytearray()
+    if len(value) < 2 or min(value) < 0:
+        raise GOSTOIDError('invalid OID value')
     if value[0] == 0:
         if value[1] < 40:
             first_value = value[1]
-- 
2.43.0


From c8909d38735b3c0f9b4de5aafa31a5e8287b0044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:18 +0000
Subject: [PATCH 13/27] fix: do not share the buffer of a 64-byte HMAC key with
 the caller

---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 8525cf3..9ad8270 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -122,7 +122,7 @@ class R5011132016:
             self._key = key + add
             self._key = bytearray(self._key)
         elif len(key) == _KEY_SIZE:
-            self._key = key
+            self._key = bytearray(key)
         key = bytearray(len(key))
         if name == 'HMAC_GOSTR3411_2012_256':
             self.oid = ObjectIdentifier('1.2.643.7.1.1.4.1')
-- 
2.43.0


From dcf158be4f7ff6a77b921cf15dd254cd7a94e754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:23 +0000
Subject: [PATCH 14/27] fix: include the inner padded key in the HMAC of an
 empty message

---
 gostcrypto/gosthmac/r_50_1_113_2016.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/gostcrypto/gosthmac/r_50_1_113_2016.py b/gostcrypto/gosthmac/r_50_1_113_2016.py
index 9ad8270..e01ae9f 100755
--- a/gostcrypto/gosthmac/r_50_1_113_2016.py
+++ b/gostcrypto/gosthmac/r_50_1_113_2016.py
@@ -130,7 +130,7 @@ class R5011132016:
         elif name == 'HMAC_GOSTR3411_2012_512':
             self.oid = ObjectIdentifier('1.2.643.7.1.1.4.2')
             self._hasher_obj = GOST34112012('streebog512', data=bytearray(b''))
-        self._counter = 0
+        self._hasher_obj.update(add_xor(self._key, _I_PAD))
         if data != bytearray(b''):
             self.update(data)
 
@@ -160,11 +160,7 @@ class R5011132016:
         """
         if not isinstance(data, (bytes, bytearray)):
             raise GOSTHMACError('GOSTHMACError: invalid data value')
-        self._counter = self._counter + 1
-        if self._counter == 1:
-            self._hasher_obj.update(add_xor(self._key, _I_PAD) + data)
-        elif self._counter != 1:
-            self._hasher_obj.update(data)
+        self._hasher_obj.update(data)
 
     def digest(self) -> bytearray:
         """
@@ -204,12 +200,12 @@ class R5011132016:
     def reset(self) -> None:
         """Reset the values of all class attributes."""
         self._hasher_obj.reset()
-        self._counter = 0
+        self._hasher_obj.update(add_xor(self._key, _I_PAD))
 
     def clear(self) -> None:
         """Сlear the key value."""
-        self._hasher_obj.reset()
         self._key = zero_fill(self._key)
+        self.reset()
 
     @property
     def digest_size(self) -> int:
-- 
2.43.0


From 6abb3ac636ce3cf1e4ace0794c0f84fdab9aae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:47 +0000
Subject: [PATCH 15/27] fix: return a copy of the PBKDF salt

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 9c50f59..987b5e8 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -170,7 +170,7 @@ class R5011112016:
     @property
     def salt(self):
         """Return a random value (salt)."""
-        return self._salt
+        return bytearray(self._salt)
 
 
 class GOSTPBKDFError(Exception):
-- 
2.43.0


From 17362d6a2f02d131b536cadb3040d73ab28bcfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:52 +0000
Subject: [PATCH 16/27] fix: clear the password-derived HMAC key together with
 the password

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 987b5e8..7d9035b 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -165,7 +165,10 @@ class R5011112016:
 
     def clear(self):
         """Сlear the password value."""
-        self._password = zero_fill(self._password)
+        if hasattr(self, '_password'):
+            self._password = zero_fill(self._password)
+        if hasattr(self, '_hmac_obj'):
+            self._hmac_obj.clear()
 
     @property
     def salt(self):
-- 
2.43.0


From 75df7d8c4ee9026b7e6f12082cc60a018e196c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:57 +0000
Subject: [PATCH 17/27] fix: raise GOSTPBKDFError for a password longer than 64
 bytes

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index 7d9035b..bf008c1 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -72,7 +72,7 @@ class R5011112016:
             salt: Random value.
             iterations: Number of iterations.
         """
-        if not isinstance(password, (bytes, bytearray)):
+        if (not isinstance(password, (bytes, bytearray))) or len(password) > _BLOCK_SIZE:
             raise GOSTPBKDFError('GOSTPBKDFError: invalid password value')
         self._password = bytearray(password)
         self._salt = salt
-- 
2.43.0


From 9823b17e897ea61420ea927eea3a051b497b9918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:02 +0000
Subject: [PATCH 18/27] fix: reject a derived key size below one byte

---
 gostcrypto/gostpbkdf/r_50_1_111_2016.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gostcrypto/gostpbkdf/r_50_1_111_2016.py b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
index bf008c1..5110485 100755
--- a/gostcrypto/gostpbkdf/r_50_1_111_2016.py
+++ b/gostcrypto/gostpbkdf/r_50_1_111_2016.py
@@ -141,7 +141,7 @@ class R5011112016:
             GOSTPBKDFError('GOSTPBKDFError: invalid size of the derived key'):
               If the size of the derived key is incorrect.
         """
-        if dk_len > (2 ** 32 - 1) * 64:
+        if dk_len < 1 or dk_len > (2 ** 32 - 1) * 64:
             raise GOSTPBKDFError('GOSTPBKDFError: invalid size of the derived key')
         return self._calculate_pbkdf(dk_len)[:dk_len]
 
@@ -159,7 +159,7 @@ class R5011112016:
             GOSTPBKDFError(GOSTPBKDFError: 'invalid size of the derived key'):
               If the size of the derived key is incorrect.
         """
-        if dk_len > (2 ** 32 - 1) * 64:
+        if dk_len < 1 or dk_len > (2 ** 32 - 1) * 64:
             raise GOSTPBKDFError('GOSTPBKDFError: invalid size of the derived key')
         return self._calculate_pbkdf(dk_len)[:dk_len].hex()
 
-- 
2.43.0


From 1e8175e6374da7fc1b1082df64249b6c0a34f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:07 +0000
Subject: [PATCH 19/27] fix: do not let the pseudo-random counter overflow into
 the seed

---
 gostcrypto/gostrandom/r_1323565_1_006_2017.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostrandom/r_1323565_1_006_2017.py b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
index 51893c7..b7c1a55 100755
--- a/gostcrypto/gostrandom/r_1323565_1_006_2017.py
+++ b/gostcrypto/gostrandom/r_1323565_1_006_2017.py
@@ -90,7 +90,7 @@ class R132356510062017:
             self._rand_u = bytearray(self._rand_u)
         self._q = rand_size // _SIZE_H
         self._r = rand_size % _SIZE_H
-        self._limit = 2 ** ((_SIZE_M - self._size_s) * 8)
+        self._limit = 2 ** ((_SIZE_M - self._size_s - 1) * 8) - 1
         self._hash_obj = GOST34112012('streebog512', data=bytearray(b''))
 
     def __del__(self) -> None:
-- 
2.43.0


From aa43d09fb2f07ba2d8d59696921437feb65eac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:12 +0000
Subject: [PATCH 20/27] fix: enforce the MOV condition when checking curve
 parameters

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index be8eb55..7849328 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -561,7 +561,7 @@ class GOST34102012:
             check_b = 132
         for i in range(1, check_b):
             if self._p ** i % self._q == 1 % self._q:
-                result = result or result
+                result = False
         return result
 
     def _check_q(self) -> bool:
-- 
2.43.0


From e16a00fd020be66512483bb6d4f685c59856643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:40 +0000
Subject: [PATCH 21/27] fix: reject a private key that is zero modulo q

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 7849328..0da20c3 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -641,6 +641,9 @@ class GOST34102012:
             self._y = ((ed_s * (1 + self._v)) * self._invert((1 - self._v) * self._u, self._p))\
                 % self._p
 
+    def _check_private_key(self, private_key: bytearray) -> bool:
+        return bytearray_to_int(private_key) % self._q != 0
+
     def _get_rand_k(self) -> bytearray:
         rand_k = bytearray(os.urandom(self._size))
         while bytearray_to_int(rand_k) >= self._q:
@@ -679,6 +682,8 @@ class GOST34102012:
         """
         if not check_value(private_key, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid private key value')
+        if not self._check_private_key(private_key):
+            raise GOSTSignatureError('GOSTSignatureError: invalid private key value')
         if not check_value(digest, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid digest value')
         sign_e = self._set_e(digest)
@@ -775,6 +780,8 @@ class GOST34102012:
         """
         if not check_value(private_key, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid private key')
+        if not self._check_private_key(private_key):
+            raise GOSTSignatureError('GOSTSignatureError: invalid private key')
         private_key = bytearray_to_int(private_key)
         public_key = self._mul_point(private_key)
         public_key_x = int_to_bytearray(public_key[0], self._size)
-- 
2.43.0


From 866c9c9249b06fad9d547aec52bb47471b33c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:45 +0000
Subject: [PATCH 22/27] fix: do not loop forever on a random value that gives
 no signature

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 25 ++++++++++++---------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 0da20c3..89c62cf 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -646,7 +646,7 @@ class GOST34102012:
 
     def _get_rand_k(self) -> bytearray:
         rand_k = bytearray(os.urandom(self._size))
-        while bytearray_to_int(rand_k) >= self._q:
+        while not 0 < bytearray_to_int(rand_k) < self._q:
             rand_k = bytearray(os.urandom(self._size))
         return rand_k
 
@@ -687,23 +687,26 @@ class GOST34102012:
         if not check_value(digest, self._size):
             raise GOSTSignatureError('GOSTSignatureError: invalid digest value')
         sign_e = self._set_e(digest)
-        sign_r = 0
-        sign_s = 0
-        sign_k = 0
-        if rand_k == bytearray(b''):
+        generate_k = rand_k == bytearray(b'')
+        if generate_k:
             rand_k = self._get_rand_k()
         if not isinstance(rand_k, (bytes, bytearray)):
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
-        if bytearray_to_int(rand_k) >= self._q:
+        if not 0 < bytearray_to_int(rand_k) < self._q:
             private_key = zero_fill(private_key)
             raise GOSTSignatureError('GOSTSignatureError: invalid random value')
-        while compare_to_zero(int_to_bytearray(sign_s, self._size)):
-            while compare_to_zero(int_to_bytearray(sign_r, self._size)):
-                sign_k = bytearray_to_int(rand_k)
-                sign_c = self._mul_point(sign_k)
-                sign_r = sign_c[0] % self._q
+        while True:
+            sign_k = bytearray_to_int(rand_k)
+            sign_c = self._mul_point(sign_k)
+            sign_r = sign_c[0] % self._q
             sign_s = (sign_r * bytearray_to_int(private_key) + sign_k * sign_e) % self._q
+            if sign_r != 0 and sign_s != 0:
+                break
+            if not generate_k:
+                private_key = zero_fill(private_key)
+                raise GOSTSignatureError('GOSTSignatureError: invalid random value')
+            rand_k = self._get_rand_k()
         result = int_to_bytearray(sign_r, self._size) + int_to_bytearray(sign_s, self._size)
         private_key = zero_fill(private_key)
         return result
-- 
2.43.0


From 09d8817993180ed47edfffa30110c2f395ed347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:48 +0000
Subject: [PATCH 23/27] fix: handle the point at infinity when adding points

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index 89c62cf..dccdb51 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -594,9 +594,15 @@ class GOST34102012:
             result = result + n_mod
         return result
 
-    def _add(self, x_1: int, x_2: int, y_1: int, y_2: int) -> Tuple[int, int]:
+    def _add(self, x_1: Any, x_2: Any, y_1: Any, y_2: Any) -> Tuple[Any, Any]:
+        if x_1 is None:
+            return x_2, y_2
+        if x_2 is None:
+            return x_1, y_1
         compare_x = compare(int_to_bytearray(x_1, self._size), int_to_bytearray(x_2, self._size))
         compare_y = compare(int_to_bytearray(y_1, self._size), int_to_bytearray(y_2, self._size))
+        if compare_x and (y_1 + y_2) % self._p == 0:
+            return None, None
         if compare_x and compare_y:
             grad = (3 * x_1 * x_1 + self._a) * self._invert(2 * y_1, self._p) % self._p
         else:
@@ -763,6 +769,8 @@ class GOST34102012:
         sign_p = self._mul_point(sign_z_1)
         sign_q = self._mul_point(sign_z_2, public_key[0], public_key[1])
         sign_c = self._add(sign_p[0], sign_q[0], sign_p[1], sign_q[1])
+        if sign_c[0] is None:
+            return False
         sign_r_check = sign_c[0] % self._q
         return compare(int_to_bytearray(sign_r_check, self._size),
                        int_to_bytearray(sign_r, self._size))
-- 
2.43.0


From ab75941b23c8f59d3ec68ca9312a43addee9fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 24/27] fix: reject a public key that is not a point of the
 curve

---
 gostcrypto/gostsignature/gost_34_10_2012.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gostcrypto/gostsignature/gost_34_10_2012.py b/gostcrypto/gostsignature/gost_34_10_2012.py
index dccdb51..c26a669 100755
--- a/gostcrypto/gostsignature/gost_34_10_2012.py
+++ b/gostcrypto/gostsignature/gost_34_10_2012.py
@@ -622,7 +622,7 @@ class GOST34102012:
     def _mul_point(self, mul_value: int, x_op: int = -1,
                    y_op: Any = - 1) -> Tuple[int, int]:
         mul_value = mul_value - 1
-        if x_op > 0 and y_op > 0:
+        if x_op >= 0 and y_op >= 0:
             x_prev = x_op
             y_prev = y_op
         else:
@@ -650,6 +650,11 @@ class GOST34102012:
     def _check_private_key(self, private_key: bytearray) -> bool:
         return bytearray_to_int(private_key) % self._q != 0
 
+    def _check_public_key(self, public_key: Tuple[int, int]) -> bool:
+        x_q, y_q = public_key
+        on_curve = (y_q * y_q - x_q ** 3 - x_q * self._a - self._b) % self._p == 0
+        return x_q < self._p and y_q < self._p and on_curve
+
     def _get_rand_k(self) -> bytearray:
         rand_k = bytearray(os.urandom(self._size))
         while not 0 < bytearray_to_int(rand_k) < self._q:
@@ -759,6 +764,8 @@ class GOST34102012:
             bytearray_to_int(public_key[:self._size]),
             bytearray_to_int(public_key[self._size:])
         )
+        if not self._check_public_key(public_key):
+            raise GOSTSignatureError('GOSTSignatureError: invalid public key value')
         sign_r, sign_s = self._get_r_s(signature)
         if not self._verify_step_1(sign_r, sign_s):
             return False
-- 
2.43.0


From 208e7c0fb23b33748f8333844efec09a40f12071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:31 +0000
Subject: [PATCH 25/27] fix: spell the name of the 512-bit paramSetC identifier
 in Latin letters

---
 gostcrypto/gostoid/oid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index 85e624c..b429fcf 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -66,7 +66,7 @@ OBJECT_IDENTIFIER_TC26 = {
     '1.2.643.7.1.2.1.2.0': 'id-tc26-gost-3410-12-512-paramSetTest',
     '1.2.643.7.1.2.1.2.1': 'id-tc26-gost-3410-12-512-paramSetA',
     '1.2.643.7.1.2.1.2.2': 'id-tc26-gost-3410-12-512-paramSetB',
-    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetС',
+    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetC',
     '1.2.643.7.1.2.2': 'id-tc26-digset-constants',
     '1.2.643.7.1.2.5': 'id-tc26-cipher-constants',
     '1.2.643.7.1.2.5.1': 'id-tc26-gost-28147-constants',
-- 
2.43.0


From 539ec3234ba2dc26e9cfecdbee6ebd5f3fe09f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:03 +0000
Subject: [PATCH 26/27] fix: raise GOSTOIDError for text that is not in
 canonical dotted form

---
 gostcrypto/gostoid/oid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index b429fcf..72fdf80 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -178,6 +178,8 @@ class ObjectIdentifier:
             result = tuple(int(item) for item in self._oid_str.split('.'))
         except ValueError:
             raise GOSTOIDError('invalid OID value')
+        if '.'.join(str(item) for item in result) != self._oid_str:
+            raise GOSTOIDError('invalid OID value')
         return result
 
     @property
-- 
2.43.0


From 4f9a44af37ea7f686d2f9901f7058cb88f3de81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:16 +0000
Subject: [PATCH 27/27] fix: refuse negative components in the digit form of an
 object identifier

---
 gostcrypto/gostoid/oid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gostcrypto/gostoid/oid.py b/gostcrypto/gostoid/oid.py
index 72fdf80..392871b 100755
--- a/gostcrypto/gostoid/oid.py
+++ b/gostcrypto/gostoid/oid.py
@@ -178,7 +178,7 @@ class ObjectIdentifier:
             result = tuple(int(item) for item in self._oid_str.split('.'))
         except ValueError:
             raise GOSTOIDError('invalid OID value')
-        if '.'.join(str(item) for item in result) != self._oid_str:
+        if min(result) < 0 or '.'.join(str(item) for item in result) != self._oid_str:
             raise GOSTOIDError('invalid OID value')
         return result
 
-- 
2.43.0

