From a8e7de8ceaeba09a6961434592388035bff4cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:09 +0000
Subject: [PATCH 01/21] fix: Hash selects SHA3-256 by its name and rejects
 unknown names

---
 src/hash.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hash.cpp b/src/hash.cpp
index 6cd817c..3b407ae 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -22,11 +22,11 @@ struct Hash::Impl {
       impl.emplace<SHA2<512>>();
     } else if (hashName == "sha3-224") {
       impl.emplace<SHA3<224>>();
-    } else if (hashName == "sha2-256") {
+    } else if (hashName == "sha3-256") {
       impl.emplace<SHA3<256>>();
     } else if (hashName == "sha3-384") {
       impl.emplace<SHA3<384>>();
-    } else if ("sha3-512") {
+    } else if (hashName == "sha3-512") {
       impl.emplace<SHA3<512>>();
     } else {
       throw std::runtime_error("Invalid hash selected");
-- 
2.43.0


From 85ffd41a253aac2da36100e9b8f5dcfd13a54807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:10 +0000
Subject: [PATCH 02/21] fix: SHA3-224/384/512 DigestInfo prefixes carry the
 right lengths

---
 include/caligo/sha3.h | 6 +++---
 src/sha3.cpp          | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/caligo/sha3.h b/include/caligo/sha3.h
index 57e8d01..7cbef6b 100644
--- a/include/caligo/sha3.h
+++ b/include/caligo/sha3.h
@@ -31,13 +31,13 @@ struct SHA3 {
   }
   static inline std::vector<uint8_t> getAsn1Id() {
     if constexpr (size == 224) {
-      return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x07, 0x05, 0x00, 0x04, 0x20 };
+      return std::initializer_list<uint8_t>{ 0x30, 0x2d, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x07, 0x05, 0x00, 0x04, 0x1c };
     } else if constexpr (size == 256) {
       return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x08, 0x05, 0x00, 0x04, 0x20 };
     } else if constexpr (size == 384) {
-      return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x09, 0x05, 0x00, 0x04, 0x20 };
+      return std::initializer_list<uint8_t>{ 0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x09, 0x05, 0x00, 0x04, 0x30 };
     } else if constexpr (size == 512) {
-      return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x0a, 0x05, 0x00, 0x04, 0x20 };
+      return std::initializer_list<uint8_t>{ 0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x0a, 0x05, 0x00, 0x04, 0x40 };
     } else {
       return {};
     }
diff --git a/src/sha3.cpp b/src/sha3.cpp
index eed5317..8edee21 100644
--- a/src/sha3.cpp
+++ b/src/sha3.cpp
@@ -123,7 +123,7 @@ void Caligo::SHA3<size>::processChunk() {
 
 template <>
 std::vector<uint8_t> Caligo::SHA3<224>::getAsn1Id() {
-  return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x07, 0x05, 0x00, 0x04, 0x20 };
+  return std::initializer_list<uint8_t>{ 0x30, 0x2d, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x07, 0x05, 0x00, 0x04, 0x1c };
 }
 
 template <>
@@ -133,12 +133,12 @@ std::vector<uint8_t> Caligo::SHA3<256>::getAsn1Id() {
 
 template <>
 std::vector<uint8_t> Caligo::SHA3<384>::getAsn1Id() {
-  return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x09, 0x05, 0x00, 0x04, 0x20 };
+  return std::initializer_list<uint8_t>{ 0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x09, 0x05, 0x00, 0x04, 0x30 };
 }
 
 template <>
 std::vector<uint8_t> Caligo::SHA3<512>::getAsn1Id() {
-  return std::initializer_list<uint8_t>{ 0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x0a, 0x05, 0x00, 0x04, 0x20 };
+  return std::initializer_list<uint8_t>{ 0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x0a, 0x05, 0x00, 0x04, 0x40 };
 }
 
 template struct Caligo::SHA3<224>;
-- 
2.43.0


From 834d2010c5bbd3969d2e3f167d5b9971642a42d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:10 +0000
Subject: [PATCH 03/21] fix: SHA-224 and SHA-384 hex strings contain only the
 truncated digest

---
 include/caligo/sha2.h |  4 ++--
 src/sha2.cpp          | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/caligo/sha2.h b/include/caligo/sha2.h
index 0f43f9c..2a1880e 100644
--- a/include/caligo/sha2.h
+++ b/include/caligo/sha2.h
@@ -64,7 +64,7 @@ struct SHA2<224> : private SHA2<256> {
     return hashcopy;
   }
   std::array<uint8_t, hashsize> data() const { return *this; }
-  using SHA2<256>::operator std::string;
+  operator std::string() const;
   using SHA2<256>::add;
   static inline std::vector<uint8_t> getAsn1Id() {
     return std::initializer_list<uint8_t>{ 0x30, 0x2d, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x04, 0x05, 0x00, 0x04, 0x1c };
@@ -127,7 +127,7 @@ struct SHA2<384> : private SHA2<512> {
     return hashcopy;
   }
   std::array<uint8_t, hashsize> data() const { return *this; }
-  using SHA2<512>::operator std::string;
+  operator std::string() const;
   using SHA2<512>::add;
   static inline std::vector<uint8_t> getAsn1Id() {
     return std::initializer_list<uint8_t>{ 0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02, 0x05, 0x00, 0x04, 0x30 };
diff --git a/src/sha2.cpp b/src/sha2.cpp
index 292877b..bfb79a3 100644
--- a/src/sha2.cpp
+++ b/src/sha2.cpp
@@ -260,6 +260,16 @@ void SHA2<384>::sha384_override() {
   w[7] = 0x47b5481dbefa4fa4;
 }
 
+SHA2<384>::operator std::string() const {
+  static const char hextab[] = "0123456789abcdef";
+  std::string str;
+  for (const auto& c : data()) {
+    str.push_back(hextab[c >> 4]);
+    str.push_back(hextab[c & 0xF]);
+  }
+  return str;
+}
+
 void SHA2<224>::sha224_override() {
   w[0] = 0xc1059ed8;
   w[1] = 0x367cd507;
@@ -271,6 +281,16 @@ void SHA2<224>::sha224_override() {
   w[7] = 0xbefa4fa4;
 }
 
+SHA2<224>::operator std::string() const {
+  static const char hextab[] = "0123456789abcdef";
+  std::string str;
+  for (const auto& c : data()) {
+    str.push_back(hextab[c >> 4]);
+    str.push_back(hextab[c & 0xF]);
+  }
+  return str;
+}
+
 
 
 }
-- 
2.43.0


From 7f37cb3c52f131d173c97fc2a4c8f73b050a722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:51 +0000
Subject: [PATCH 04/21] fix: AES key schedules reject keys of the wrong size

---
 src/aes.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aes.cpp b/src/aes.cpp
index a2ca037..15f4a87 100644
--- a/src/aes.cpp
+++ b/src/aes.cpp
@@ -4,6 +4,7 @@
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
+#include <stdexcept>
 #include <vector>
 #ifdef __x86_64__
 #include <x86intrin.h>
@@ -19,7 +20,8 @@ static __m128i nextRoundKey(__m128i in) {
 
 template <>
 AesKeySchedule<128>::AesKeySchedule(std::span<const uint8_t> key) {
-  std::memcpy(eroundKeys, key.data(), key.size());
+  if (key.size() != 16) throw std::runtime_error("Invalid key size");
+  std::memcpy(eroundKeys, key.data(), 16);
 
   eroundKeys[1] = nextRoundKey<0>(eroundKeys[0]);
   eroundKeys[2] = nextRoundKey<1>(eroundKeys[1]);
@@ -35,6 +37,7 @@ AesKeySchedule<128>::AesKeySchedule(std::span<const uint8_t> key) {
 
 template <>
 AesKeySchedule<256>::AesKeySchedule(std::span<const uint8_t> key) {
+  if (key.size() != 32) throw std::runtime_error("Invalid key size");
   __m128i a = _mm_loadu_si128((__m128i*)key.data()), b = _mm_loadu_si128((__m128i*)(key.data()+16));
   eroundKeys[0]=a;
   eroundKeys[1]=b;
-- 
2.43.0


From ffcff6131400b46b57b21c573cd0e105e74ffd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:58 +0000
Subject: [PATCH 05/21] fix: CTR mode keeps the generated keystream (reserve
 then resize zeroed it)

---
 include/caligo/ctr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/caligo/ctr.h b/include/caligo/ctr.h
index c84f7d7..c836c59 100644
--- a/include/caligo/ctr.h
+++ b/include/caligo/ctr.h
@@ -46,7 +46,7 @@ struct CTR {
 
     std::vector<uint8_t> keystream;
     size_t blocks = (size + Cipher::size - 1) / Cipher::size;
-    keystream.reserve(blocks * Cipher::size);
+    keystream.resize(blocks * Cipher::size);
     for (size_t n = 0; n < blocks; n++) {
       ctr_inc(ctr);
       __m128i block = Cipher::Encrypt(sched, _mm_loadu_si128((__m128i*)ctr.data()));
-- 
2.43.0


From 2a2b2f524ff2badfa68a3ca8a0d8f98cef110917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:50 +0000
Subject: [PATCH 06/21] fix: HMAC pads to the hash's block size and hashes
 longer keys

---
 include/caligo/hkdf.h | 9 +++++++--
 include/caligo/md5.h  | 1 +
 include/caligo/sha1.h | 1 +
 include/caligo/sha2.h | 4 ++++
 include/caligo/sha3.h | 1 +
 5 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/caligo/hkdf.h b/include/caligo/hkdf.h
index 16362a1..2967016 100644
--- a/include/caligo/hkdf.h
+++ b/include/caligo/hkdf.h
@@ -10,9 +10,14 @@ namespace Caligo {
 
 template <typename Hash>
 std::array<uint8_t, Hash::hashsize> HMAC(std::span<const uint8_t> text, std::span<const uint8_t> key) {
+  std::array<uint8_t, Hash::hashsize> keyHash;
+  if (key.size() > Hash::blocksize) {
+    keyHash = Hash(key);
+    key = keyHash;
+  }
   std::vector<uint8_t> o(key.begin(), key.end()), i(key.begin(), key.end());
-  o.resize(Hash::hashsize*2);
-  i.resize(Hash::hashsize*2);
+  o.resize(Hash::blocksize);
+  i.resize(Hash::blocksize);
   for (auto& c : o) c ^= 0x5C;
   for (auto& c : i) c ^= 0x36;
   i.insert(i.end(), text.begin(), text.end());
diff --git a/include/caligo/md5.h b/include/caligo/md5.h
index 268fc8f..caf642b 100644
--- a/include/caligo/md5.h
+++ b/include/caligo/md5.h
@@ -10,6 +10,7 @@ namespace Caligo {
 
 struct MD5 {
   static constexpr size_t hashsize = 16;
+  static constexpr size_t blocksize = 64;
   MD5();
   template <typename... T>
   inline MD5(T... ts)
diff --git a/include/caligo/sha1.h b/include/caligo/sha1.h
index 5d3f3e2..fc8564c 100644
--- a/include/caligo/sha1.h
+++ b/include/caligo/sha1.h
@@ -10,6 +10,7 @@ namespace Caligo {
 
 struct SHA1 {
   static constexpr size_t hashsize = 20;
+  static constexpr size_t blocksize = 64;
   SHA1();
   template <typename... T>
   inline SHA1(T... ts)
diff --git a/include/caligo/sha2.h b/include/caligo/sha2.h
index 2a1880e..7381eac 100644
--- a/include/caligo/sha2.h
+++ b/include/caligo/sha2.h
@@ -14,6 +14,7 @@ struct SHA2;
 template <>
 struct SHA2<256> {
   static constexpr size_t hashsize = 32;
+  static constexpr size_t blocksize = 64;
   SHA2();
   template <typename... T>
   inline SHA2(T... ts)
@@ -44,6 +45,7 @@ protected:
 template <>
 struct SHA2<224> : private SHA2<256> {
   static constexpr size_t hashsize = 28;
+  static constexpr size_t blocksize = 64;
   inline SHA2() {
     sha224_override();
   }
@@ -77,6 +79,7 @@ struct SHA2<224> : private SHA2<256> {
 template <>
 struct SHA2<512> {
   static constexpr size_t hashsize = 64;
+  static constexpr size_t blocksize = 128;
   SHA2();
   template <typename... T>
   inline SHA2(T... ts)
@@ -107,6 +110,7 @@ protected:
 template <>
 struct SHA2<384> : private SHA2<512> {
   static constexpr size_t hashsize = 48;
+  static constexpr size_t blocksize = 128;
   inline SHA2() {
     sha384_override();
   }
diff --git a/include/caligo/sha3.h b/include/caligo/sha3.h
index 7cbef6b..63c7e01 100644
--- a/include/caligo/sha3.h
+++ b/include/caligo/sha3.h
@@ -12,6 +12,7 @@ template <size_t size>
 struct SHA3 {
   static constexpr size_t hashsize = size/8;
   static constexpr size_t r = 1600 - 2 * size;
+  static constexpr size_t blocksize = r/8;
   SHA3();
   template <typename... T>
   inline SHA3(T... ts)
-- 
2.43.0


From 7b959861528b50c68b54c01720b12d65257b6635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:50 +0000
Subject: [PATCH 07/21] fix: TLS 1.3 update, exporter and resumption secrets
 can be instantiated and follow RFC 8446

---
 include/caligo/hkdf.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/caligo/hkdf.h b/include/caligo/hkdf.h
index 2967016..24c6f6e 100644
--- a/include/caligo/hkdf.h
+++ b/include/caligo/hkdf.h
@@ -93,17 +93,19 @@ secret<Hash> HKDF_MasterSecret(secret<Hash> secret) {
 
 template <typename Hash>
 secret<Hash> HKDF_UpdateSecret(secret<Hash> secret) {
-  return {HKDF_Expand_Label<Hash>(secret.data, "traffic upd", Hash(), Hash::hashsize)};
+  std::vector<uint8_t> updated = HKDF_Expand_Label<Hash>(secret.data, "traffic upd", {}, Hash::hashsize);
+  std::copy(updated.begin(), updated.end(), secret.data.begin());
+  return secret;
 }
 
 template <typename Hash>
 std::vector<uint8_t> exporter_master(secret<Hash>& h, std::span<const uint8_t> hash) {
-  return HKDF_Expand_Label(h.data, "exp master", hash, 32);
+  return HKDF_Expand_Label<Hash>(h.data, "exp master", hash, Hash::hashsize);
 }
 
 template <typename Hash>
 std::vector<uint8_t> resumption_master(secret<Hash>& h, std::span<const uint8_t> hash) {
-  return HKDF_Expand_Label(h.data, "res master", hash, 32);
+  return HKDF_Expand_Label<Hash>(h.data, "res master", hash, Hash::hashsize);
 }
 
 }
-- 
2.43.0


From 2b1baaf0e1c87b48fa1197538635cb9de47f7b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:56 +0000
Subject: [PATCH 08/21] fix: bignum conversion keeps the partial top word of
 widths that are not multiples of 32

---
 include/caligo/bignum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/caligo/bignum.h b/include/caligo/bignum.h
index 95ace0f..42ed643 100644
--- a/include/caligo/bignum.h
+++ b/include/caligo/bignum.h
@@ -67,7 +67,7 @@ struct bignum {
   : v{}
   {
       size_t n;
-      for (n = 0; n < std::min(K, Bits)/32; n++) {
+      for (n = 0; n < std::min(bignum<K>::N, N); n++) {
           v[n] = value.v[n];
       }
       for (; n < N; n++) {
-- 
2.43.0


From aaa12a6271efe5bb30e475fed571247e1f07586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:56 +0000
Subject: [PATCH 09/21] fix: naive_reduce fully reduces for every nonzero
 modulus and rejects zero

---
 include/caligo/bignum.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/caligo/bignum.h b/include/caligo/bignum.h
index 42ed643..d3b886e 100644
--- a/include/caligo/bignum.h
+++ b/include/caligo/bignum.h
@@ -5,6 +5,7 @@
 #include <vector>
 #include <string>
 #include <iostream>
+#include <stdexcept>
 #include <caligo/random.h>
 
 namespace Caligo {
@@ -82,6 +83,14 @@ struct bignum {
           v[N - n - 1] = 0;
       }
   }
+  constexpr void shl1() {
+    uint32_t bit = 0;
+    for (size_t n = 0; n < N; n++) {
+      uint32_t nb = v[n] >> 31;
+      v[n] = (v[n] << 1) | bit;
+      bit = nb;
+    }
+  }
   constexpr void shr1() {
     uint32_t bit = 0;
     for (size_t n = 0; n < N; n++) {
@@ -92,14 +101,19 @@ struct bignum {
   }
   template <size_t K>
   constexpr bignum<K> naive_reduce(const bignum<K>& p) const {
+    if (p == bignum<K>(0)) throw std::domain_error("reduction modulo zero");
     bignum<Bits> s = p;
     bignum<Bits> c = *this;
     size_t shift = 0;
     while (s.v[(Bits + 31)/32 - 1] == 0) {
       s.shl_word(1);
+      shift += 32;
+    }
+    while ((s.v[(Bits + 31)/32 - 1] >> 31) == 0) {
+      s.shl1();
       shift++;
     }
-    for (size_t n = 0; n <= (shift * 32); n++) {
+    for (size_t n = 0; n <= shift; n++) {
       auto [overflow, c2] = c - s;
       c = (overflow ? c : c2);
       s.shr1();
-- 
2.43.0


From a64b8c5efdf3df8c84509b6642055bafacf22685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:56 +0000
Subject: [PATCH 10/21] fix: Montgomery reduction returns the residue below the
 modulus

---
 include/caligo/mont.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/caligo/mont.h b/include/caligo/mont.h
index 25fe245..97fccc6 100644
--- a/include/caligo/mont.h
+++ b/include/caligo/mont.h
@@ -47,8 +47,8 @@ struct MontgomeryState {
     auto mn = m * N;
     auto vmn = v + mn;
     bignum<K> t = vmn.second.template slice<K>(K);
-    auto [carry, t2] = t - N;
-    return vmn.first ? t2 : t;
+    auto [borrow, t2] = t - N;
+    return (vmn.first || !borrow) ? t2 : t;
   }
 };
 
-- 
2.43.0


From ca72dc9f3d494824e8b929aedfb38acafcd7c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:56 +0000
Subject: [PATCH 11/21] fix: Montgomery addition reduces its sum and
 exp(uint32_t) uses its exponent

---
 include/caligo/mont.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/caligo/mont.h b/include/caligo/mont.h
index 97fccc6..5cca04e 100644
--- a/include/caligo/mont.h
+++ b/include/caligo/mont.h
@@ -64,7 +64,9 @@ struct MontgomeryValue {
   }
   MontgomeryValue operator+(const MontgomeryValue& rhs) const {
     MontgomeryValue rv(state);
-    rv.value = (value + rhs.value).second;
+    auto [carry, sum] = value + rhs.value;
+    auto [borrow, reduced] = sum - state->N;
+    rv.value = (carry || !borrow) ? reduced : sum;
     return rv;
   }
   MontgomeryValue operator*(const MontgomeryValue& rhs) const {
@@ -78,13 +80,13 @@ struct MontgomeryValue {
     return rv;
   }
   MontgomeryValue exp(uint32_t exponent) const {
-    (void)exponent;
     MontgomeryValue b = *this;
     MontgomeryValue<K> v(*state, 1);
-    for (size_t n = 0; n < 16; n++) {
+    for (; exponent != 0; exponent >>= 1) {
+      if (exponent & 1) v = v * b;
       b = b.square();
     }
-    return b * *this;
+    return v;
   }
   MontgomeryValue exp(bignum<K> exponent) const {
     MontgomeryValue b = *this;
-- 
2.43.0


From a56842472c099f217afd6e070164c977e062eae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:01 +0000
Subject: [PATCH 12/21] fix: ec_value operator!= agrees with operator== on
 unreduced representations

---
 include/caligo/x25519.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/caligo/x25519.h b/include/caligo/x25519.h
index 020bdad..bb99f07 100644
--- a/include/caligo/x25519.h
+++ b/include/caligo/x25519.h
@@ -18,7 +18,7 @@ struct ec_value {
   bignum<256> v;
   int bit(size_t n) const { return v.bit(n); }
   ec_value& operator=(uint32_t value) { v = value; return *this; }
-  bool operator!=(const ec_value& rhs) { return !(v == rhs.v); }
+  bool operator!=(const ec_value& rhs) const { return !(*this == rhs); }
   constexpr ec_value(std::initializer_list<uint32_t> nv) 
   : v(nv) {}
   constexpr ec_value(bignum<256> nv) 
-- 
2.43.0


From b411749e08ea48d58fdd3115a1b9e09df0e6b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:58 +0000
Subject: [PATCH 13/21] fix: asn1_view never reads or returns bytes outside its
 data

---
 include/caligo/Asn1.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/caligo/Asn1.h b/include/caligo/Asn1.h
index 7d78731..53f18c1 100644
--- a/include/caligo/Asn1.h
+++ b/include/caligo/Asn1.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <span>
+#include <stdexcept>
 #include <utility>
 #include <cstdint>
 #include <cstddef>
@@ -34,25 +35,33 @@ struct asn1_view {
   : data(data)
   {}
   std::pair<asn1_id, std::span<const uint8_t>> read() {
-    asn1_id id = (asn1_id)data[offset++];
-    size_t size = data[offset++];
+    asn1_id id = (asn1_id)next();
+    size_t size = next();
     if (size & 0x80) {
       size_t bytes = size & 0x7F;
       size = 0;
       for (; bytes --> 0;) {
-        size = (size << 8) + data[offset++];
+        if (size >> (8 * sizeof(size) - 8)) throw std::runtime_error("ASN.1 length too large");
+        size = (size << 8) + next();
       }
     }
+    if (size > data.size() - offset) throw std::runtime_error("truncated ASN.1 data");
     size_t off = offset;
     offset += size;
     return { id, std::span<const uint8_t>(data.data() + off, data.data() + off + size) };
   }
   asn1_id peek() {
+    if (empty()) throw std::runtime_error("truncated ASN.1 data");
     return (asn1_id)data[offset];
   }
   bool empty() {
     return offset == data.size();
   }
+private:
+  uint8_t next() {
+    if (empty()) throw std::runtime_error("truncated ASN.1 data");
+    return data[offset++];
+  }
 };
 
 }
-- 
2.43.0


From 8681081426c7397474fc72bfb15810ea0a29bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:58 +0000
Subject: [PATCH 14/21] fix: X.509 dates shorter than ten digits are rejected,
 not read past the end

---
 src/X509Certificate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 8f0fc73..1668943 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -106,7 +106,7 @@ template <>
 x509date parseDer<x509date>(asn1_view& data) {
   static constexpr size_t daysInMonth[12] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
   auto [id, bytes] = data.read();
-  if (bytes.back() != 'Z') return 0;
+  if (bytes.empty() || bytes.back() != 'Z') return 0;
   std::vector<uint8_t> bytesCopy;
   if (id == asn1_id::utctime) {
     bool isPre2000 = (bytes[0] >= '5');
@@ -120,6 +120,7 @@ x509date parseDer<x509date>(asn1_view& data) {
   for (auto& b : bytesCopy) {
     if (b < '0' || b > '9') return 0;
   }
+  if (bytesCopy.size() < 10) return 0;
   int year = (bytesCopy[0] - '0') * 1000 + (bytesCopy[1] - '0') * 100 + (bytesCopy[2] - '0') * 10 + (bytesCopy[3] - '0') - 1970;
   int month = (bytesCopy[4] - '0') * 10 + bytesCopy[5] - '0';
   if (month <= 0 || month > 12) return 0;
-- 
2.43.0


From 3edbb9561a2815f6dad4c6cf7170c0abc7fb2560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:58 +0000
Subject: [PATCH 15/21] fix: X.509 dates follow the Gregorian leap years and do
 not wrap before 1970

---
 src/X509Certificate.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 1668943..f5029ca 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -129,8 +129,12 @@ x509date parseDer<x509date>(asn1_view& data) {
   int minutes = (bytesCopy.size() >= 12) ? (bytesCopy[10] - '0') * 10 + bytesCopy[11] - '0' : 0;
   int seconds = (bytesCopy.size() >= 14) ? (bytesCopy[12] - '0') * 10 + bytesCopy[13] - '0' : 0;
 
-  int leapdays = (year + 1) / 4;
-  if (year % 4 == 2 && month > 2) leapdays++;
+  // Out of range fields and dates before the epoch cannot be represented
+  if (year < 0 || day < 1 || day > 31 || hours > 23 || minutes > 59 || seconds > 60) return 0;
+
+  int leapdays = (year + 1) / 4 - (year + 69) / 100 + (year + 369) / 400;
+  bool isLeapYear = year % 4 == 2 && ((year + 70) % 100 != 0 || (year + 370) % 400 == 0);
+  if (isLeapYear && month > 2) leapdays++;
   return (year * 365 + (daysInMonth[month-1] + day - 1 + leapdays)) * 86400 + hours * 3600 + minutes * 60 + seconds;
 }
 
-- 
2.43.0


From f06ae297ddc85e01726554c8690f7bc4a9aef7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:58 +0000
Subject: [PATCH 16/21] fix: X.509 empty bit strings and issuers without a
 usable key are rejected

---
 src/X509Certificate.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index f5029ca..67f8b18 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -248,6 +248,7 @@ std::unique_ptr<PublicKey> parseDer<std::unique_ptr<PublicKey>>(asn1_view& data)
     return {};
 
   auto [id3, s2] = data.read();
+  if (s2.empty()) FAIL();
   std::span<const uint8_t> s22 = s2.subspan(1);
   asn1_view body(s22);
   return std::make_unique<RsaPubkey>(parseDer<RsaPubkey>(body));
@@ -378,7 +379,7 @@ bool x509certificate::verify(x509certificate& issuer) {
   auto [sig_id, algo] = data.read();
   auto [signature_id, sig] = data.read();
   if (sig_id != asn1_id::sequence) return false;
-  if (signature_id != asn1_id::bit_string) return false;
+  if (signature_id != asn1_id::bit_string || sig.empty()) return false;
   // Verify signature, using algo, on cert.
   // find certificate that has the correct issuer
 
@@ -400,6 +401,7 @@ bool x509certificate::verify(x509certificate& issuer) {
     type = (Tls13SignatureScheme)0;
   }
 
+  if (!issuer.pubkey) return false;
   return issuer.pubkey->validateSignature(type, cert, signature);
 }
 
-- 
2.43.0


From b32094ed28190c6f8f24f8b6e04b4d2ec6e90c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:58 +0000
Subject: [PATCH 17/21] fix: parseCertificatesPem reads the last certificate,
 not the first one again

---
 src/X509Certificate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index 67f8b18..ee6daae 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -345,6 +345,7 @@ std::vector<x509certificate> parseCertificatesPem(std::span<const uint8_t> in) {
   std::vector<x509certificate> certs;
   std::string_view buffer((const char*)in.data(), in.size());
   size_t start = buffer.find("-----BEGIN CERTIFICATE-----");
+  if (start == std::string_view::npos) return certs;
   size_t end = buffer.find("-----BEGIN CERTIFICATE-----", start + 1);
 
   while (end != std::string::npos) {
@@ -356,7 +357,7 @@ std::vector<x509certificate> parseCertificatesPem(std::span<const uint8_t> in) {
     end = buffer.find("-----BEGIN CERTIFICATE-----", start + 1);
   }
 
-  std::span<const uint8_t> av(std::span<const uint8_t>((const uint8_t*)buffer.data(), buffer.size()));
+  std::span<const uint8_t> av(std::span<const uint8_t>((const uint8_t*)buffer.data() + start, buffer.size() - start));
   certs.push_back(parseCertificate(av, DataFormat::Pem));
   return certs;
 }
-- 
2.43.0


From 3acdf8f64b43ff37e089c49b5ad0d86b7320f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:58 +0000
Subject: [PATCH 18/21] fix: RSA-PSS SHA-384 and SHA-512 signatures hash the
 message with that hash

---
 src/X509Certificate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index ee6daae..d5c62ad 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -88,12 +88,12 @@ std::vector<uint8_t> RsaPrivateKey::sign(Tls13SignatureScheme type, std::span<co
   case Tls13SignatureScheme::rsa_pss_pss_sha384:
     salt.resize(48);
     Caligo::generate_random(salt);
-    return privkey.signPssSignature<Caligo::SHA2<384>, Caligo::MGF1<Caligo::SHA2<384>>>(Caligo::SHA2<256>(data).data(), salt);
+    return privkey.signPssSignature<Caligo::SHA2<384>, Caligo::MGF1<Caligo::SHA2<384>>>(Caligo::SHA2<384>(data).data(), salt);
   case Tls13SignatureScheme::rsa_pss_rsae_sha512:
   case Tls13SignatureScheme::rsa_pss_pss_sha512:
     salt.resize(64);
     Caligo::generate_random(salt);
-    return privkey.signPssSignature<Caligo::SHA2<512>, Caligo::MGF1<Caligo::SHA2<512>>>(Caligo::SHA2<256>(data).data(), salt);
+    return privkey.signPssSignature<Caligo::SHA2<512>, Caligo::MGF1<Caligo::SHA2<512>>>(Caligo::SHA2<512>(data).data(), salt);
   default:
     return {};
   }
-- 
2.43.0


From e2f3d19dd67be6bd72ecb9363d109ea4d08ec2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:58 +0000
Subject: [PATCH 19/21] fix: Truststore::trust rejects an empty chain

---
 src/Truststore.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Truststore.cpp b/src/Truststore.cpp
index 218d6ca..771c323 100644
--- a/src/Truststore.cpp
+++ b/src/Truststore.cpp
@@ -42,6 +42,7 @@ void Truststore::addCertificate(x509certificate cert) {
 //   Mark certificate as valid and continue to the next
 
 bool Truststore::trust(std::vector<x509certificate> &untrustedCertificates, uint64_t currentTime) {
+  if (untrustedCertificates.empty()) return false;
   std::map<std::string, x509certificate*> localCertMap;
   for (auto& [name, cert] : trusted_certs) {
     localCertMap[name] = &cert;
-- 
2.43.0


From 90d643e2b8775a183ea09f31111be14c06287441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 20/21] fix: RSA-PSS checks the signature length and range and
 supports every modulus size

---
 include/caligo/rsa.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/caligo/rsa.h b/include/caligo/rsa.h
index bc7a0bd..9e7d482 100644
--- a/include/caligo/rsa.h
+++ b/include/caligo/rsa.h
@@ -6,6 +6,7 @@
 #include <caligo/pkcs1.h>
 #include <caligo/random.h>
 
+#include <algorithm>
 #include <span>
 #include <array>
 #include <vector>
@@ -66,6 +67,7 @@ std::vector<uint8_t> getSalt(std::span<const uint8_t> sig) {
 
 template <typename Hash>
 std::vector<uint8_t> generatePssData(std::span<const uint8_t> data, std::span<const uint8_t> salt, size_t desiredLength) {
+  if (desiredLength < Hash::hashsize + salt.size() + 2) return {};
   Hash Hh;
   Hh.add(std::vector<uint8_t>({0,0,0,0,0,0,0,0}));
   Hh.add(data);
@@ -103,6 +105,11 @@ struct rsa_public_key {
       return MontgomeryValue<N>(s, m).exp(e);
     }
   }
+  size_t modulusBits() const {
+    size_t bits = N;
+    while (not n.bit(bits - 1)) bits--;
+    return bits;
+  }
   template <typename Hash>
   bool validatePkcs1_5Signature(std::span<const uint8_t> data, std::span<const uint8_t> sig) const {
     std::vector<uint8_t> hash = Caligo::PKCS1<Hash>(data, sig.size());
@@ -111,16 +118,22 @@ struct rsa_public_key {
   }
   template <typename Hash, typename MGF>
   bool validatePssSignature(std::span<const uint8_t> message, std::span<const uint8_t> sig) const {
+    // RFC8017 8.1.2 and 9.1.2: the signature is a number below n in as many octets as n, the encoded message fits emLen octets
+    size_t emBits = modulusBits() - 1;
+    size_t emLen = (emBits + 7) / 8;
+    if (sig.size() != emBits / 8 + 1 || emLen < Hash::hashsize + MGF::hashsize + 2) return false;
     std::vector<uint8_t> sigR(sig.begin(), sig.end());
     std::reverse(sigR.begin(), sigR.end());
     bignum<N> sigBN = bignum<N>(sigR);
+    if (not (sigBN < n)) return false;
     std::vector<uint8_t> dSigV = rsaep(sigBN).as_bytes();
-    dSigV.resize(sig.size());
+    if (std::any_of(dSigV.begin() + emLen, dSigV.end(), [](uint8_t b) { return b != 0; })) return false;
+    dSigV.resize(emLen);
     std::reverse(dSigV.begin(), dSigV.end());
     std::vector<uint8_t> salt = Caligo::getSalt<Hash, MGF::hashsize>(dSigV);
     std::array<uint8_t, Hash::hashsize> hMessage = Hash(message);
     std::vector<uint8_t> pssdata = Caligo::generatePssData<Hash>(hMessage, salt, dSigV.size());
-    pssdata[0] &= 0x7F;
+    pssdata[0] &= 0xFF >> (8 * emLen - emBits);
     return dSigV == pssdata;
   }
 };
@@ -153,11 +166,12 @@ struct rsa_private_key {
   }
   template <typename Hash, typename MGF>
   std::vector<uint8_t> signPssSignature(std::span<const uint8_t> message, std::span<const uint8_t> salt) const {
-    std::vector<uint8_t> pssData = Caligo::generatePssData<Hash>(message, salt, actualN / 8);
-    pssData[0] &= 0x7F;
+    std::vector<uint8_t> pssData = Caligo::generatePssData<Hash>(message, salt, (actualN + 6) / 8);
+    if (pssData.empty()) return {};
+    pssData[0] &= 0xFF >> (8 * pssData.size() - (actualN - 1));
     std::reverse(pssData.begin(), pssData.end());
     std::vector<uint8_t> signature = rsadp(bignum<N>(pssData)).as_bytes();
-    signature.resize(actualN / 8);
+    signature.resize((actualN + 7) / 8);
     std::reverse(signature.begin(), signature.end());
     return signature;
   }
-- 
2.43.0


From bbfe4fb745788f83038df89aa727ac6ad6d78598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 21/21] fix: PKCS#1 v1.5 signatures have the length of the
 modulus and one byte order for signing and validation

---
 include/caligo/pkcs1.h  |  1 +
 include/caligo/rsa.h    | 12 +++++++++---
 src/X509Certificate.cpp |  2 +-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/caligo/pkcs1.h b/include/caligo/pkcs1.h
index d32fdf1..6ac7051 100644
--- a/include/caligo/pkcs1.h
+++ b/include/caligo/pkcs1.h
@@ -4,6 +4,7 @@ namespace Caligo {
 
 template <typename Hash>
 std::vector<uint8_t> PKCS1(std::span<const uint8_t> data, size_t requestedSize) {
+  if (requestedSize < Hash::getAsn1Id().size() + Hash::hashsize + 11) return {};
   std::vector<uint8_t> rv;
   rv.push_back(0);
   rv.push_back(1);
diff --git a/include/caligo/rsa.h b/include/caligo/rsa.h
index 9e7d482..384a505 100644
--- a/include/caligo/rsa.h
+++ b/include/caligo/rsa.h
@@ -112,9 +112,14 @@ struct rsa_public_key {
   }
   template <typename Hash>
   bool validatePkcs1_5Signature(std::span<const uint8_t> data, std::span<const uint8_t> sig) const {
+    if (sig.size() != (modulusBits() + 7) / 8) return false;
     std::vector<uint8_t> hash = Caligo::PKCS1<Hash>(data, sig.size());
+    if (hash.empty()) return false;
     std::reverse(hash.begin(), hash.end());
-    return bignum<N>(hash) == rsaep(bignum<N>(sig));
+    std::vector<uint8_t> sigR(sig.begin(), sig.end());
+    std::reverse(sigR.begin(), sigR.end());
+    bignum<N> sigBN = bignum<N>(sigR);
+    return sigBN < n && bignum<N>(hash) == rsaep(sigBN);
   }
   template <typename Hash, typename MGF>
   bool validatePssSignature(std::span<const uint8_t> message, std::span<const uint8_t> sig) const {
@@ -157,10 +162,11 @@ struct rsa_private_key {
   }
   template <typename Hash>
   std::vector<uint8_t> signPkcs1_5Signature(std::span<const uint8_t> data) const {
-    std::vector<uint8_t> hash = Caligo::PKCS1<Hash>(data, actualN / 8);
+    std::vector<uint8_t> hash = Caligo::PKCS1<Hash>(data, (actualN + 7) / 8);
+    if (hash.empty()) return {};
     std::reverse(hash.begin(), hash.end());
     std::vector<uint8_t> signature = rsadp(bignum<N>(hash)).as_bytes();
-    while (signature[signature.size() - 1] == 0 && (signature[signature.size() - 2] & 0x80) == 0x00) signature.pop_back();
+    signature.resize((actualN + 7) / 8);
     std::reverse(signature.begin(), signature.end());
     return signature;
   }
diff --git a/src/X509Certificate.cpp b/src/X509Certificate.cpp
index d5c62ad..9fd8ba2 100644
--- a/src/X509Certificate.cpp
+++ b/src/X509Certificate.cpp
@@ -388,7 +388,7 @@ bool x509certificate::verify(x509certificate& issuer) {
   auto [six, oid] = algov.read();
   std::vector<uint8_t> signature;
   for (size_t n = 0; n < sig.size() - 1; n++) {
-    signature.push_back(sig[sig.size() - n - 1]);
+    signature.push_back(sig[n + 1]);
   }
   object_id objid{oid};
   Tls13SignatureScheme type = Tls13SignatureScheme::rsa_pkcs1_sha256;
-- 
2.43.0

