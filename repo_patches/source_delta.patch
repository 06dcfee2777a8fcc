From 383d32300ad50c0907deedaf2e6dee4d165c98f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:09 +0000
Subject: [PATCH 01/38] fix: Prp::encrypt re-locks the expanded key

Every encryption left the AEZ key schedule readable until the next decryption.
---
 src/prp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/prp.cpp b/src/prp.cpp
index 4bd0fb2..b1ce4ae 100644
--- a/src/prp.cpp
+++ b/src/prp.cpp
@@ -196,6 +196,8 @@ void Prp::encrypt(const uint8_t* in, const unsigned int len, uint8_t* out)
                 reinterpret_cast<const char*>(in),
                 len,
                 reinterpret_cast<char*>(out));
+
+    aez_ctx_.lock();
 }
 
 void Prp::encrypt(const std::string& in, std::string& out)
-- 
2.43.0


From 5cedf6f4d4b4349f80479deb53dc0ec20134a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:09 +0000
Subject: [PATCH 02/38] fix: RCPrf::eval and eval_range check against the
 number of leaves

A tree of height h has 2^(h-1) leaves. Indices between 2^(h-1) and 2^h - 1 were
accepted (aliased, or failing an assertion), and at height 64 the shift was
undefined and every index but 0 was refused.
---
 src/include/sse/crypto/rcprf.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 0ccbcab..80e53a5 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1938,8 +1938,9 @@ private:
 template<uint16_t NBYTES>
 std::array<uint8_t, NBYTES> RCPrf<NBYTES>::eval(uint64_t leaf) const
 {
-    if (leaf >> this->tree_height() != 0) {
-        throw std::out_of_range("Invalid node index: leaf > 2^height -1.");
+    if (leaf > RCPrfParams::max_leaf_index(this->tree_height())) {
+        throw std::out_of_range(
+            "Invalid node index: leaf > 2^(height - 1) - 1.");
     }
 
     return static_cast<const RCPrf<NBYTES>*>(this)
@@ -1951,8 +1952,9 @@ void RCPrf<NBYTES>::eval_range(uint64_t             min,
                                uint64_t             max,
                                const callback_type& callback) const
 {
-    if (max >> this->tree_height() != 0) {
-        throw std::out_of_range("Invalid max index: max > 2^height -1.");
+    if (max > RCPrfParams::max_leaf_index(this->tree_height())) {
+        throw std::out_of_range(
+            "Invalid max index: max > 2^(height - 1) - 1.");
     }
     if (max < min) {
         throw std::invalid_argument(
-- 
2.43.0


From 2a834f21f7f9d03c1394098273a87348edd2d52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:09 +0000
Subject: [PATCH 03/38] fix: RCPrf rejects the height 1, as documented

The height must be larger than 1: every evaluation of a height 1 RCPrf failed an
assertion (or shifted by a negative amount).
---
 src/include/sse/crypto/rcprf.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 80e53a5..9746eb3 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1773,14 +1773,14 @@ public:
     ///              will be able to evaluate integer input from 0 to
     ///              2^height -1. height must be larger than 1 and less than 64
     ///
-    /// @exception std::invalid_argument       height is not between 1 and 64
+    /// @exception std::invalid_argument       height is not between 2 and 64
     ///
     RCPrf(Key<RCPrfParams::kKeySize>&& key, RCPrfParams::depth_type height)
         : RCPrfBase<NBYTES>(height), root_prg_(std::move(key))
     {
-        if (height == 0) {
+        if (height <= 1) {
             throw std::invalid_argument(
-                "Invalid height: height must be non-zero");
+                "Invalid height: height must be larger than 1");
         }
         if (height > 64) {
             throw std::invalid_argument(
@@ -1904,9 +1904,9 @@ private:
         // deserialize function, so the next checks should always fail. Yet, for
         // the sake of security, let's keep them here. However, they cannot be
         // tested properly, so remove them from the code coverage.
-        if (height == 0) {
+        if (height <= 1) {
             throw std::invalid_argument(
-                "Invalid height: height must be non-zero");
+                "Invalid height: height must be larger than 1");
         }
         if (height > 64) {
             throw std::invalid_argument(
-- 
2.43.0


From a1c93b8bc1ea8d1ea0d808e01e2d03a0caeac3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:09 +0000
Subject: [PATCH 04/38] fix: ConstrainedRCPrf::constrain rejects reversed
 ranges, as documented

It returned an empty constrained PRF, or one spanning other leaves.
---
 src/include/sse/crypto/rcprf.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 9746eb3..673faac 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1437,6 +1437,12 @@ void ConstrainedRCPrf<NBYTES>::generate_constrained_subkeys(
     std::vector<std::unique_ptr<ConstrainedRCPrfElement<NBYTES>>>&
         constrained_elements) const
 {
+    if (min > max) {
+        throw std::invalid_argument("ConstrainedRCPrf::constrain: Invalid "
+                                    "range: min is larger than max: max="
+                                    + std::to_string(max)
+                                    + ", min=" + std::to_string(min));
+    }
     if (min < this->min_leaf() || max > this->max_leaf()) {
         throw std::out_of_range(
             "ConstrainedRCPrf::generate_constrained_subkeys: the input range ("
-- 
2.43.0


From 5c550c91e45988237212f1edc003167409e8406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:09 +0000
Subject: [PATCH 05/38] fix: an empty ConstrainedRCPrf can be unwrapped

It could be constructed and wrapped, but unwrapping it failed.
---
 src/include/sse/crypto/rcprf.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 673faac..094eddd 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -1534,11 +1534,11 @@ ConstrainedRCPrf<NBYTES> ConstrainedRCPrf<NBYTES>::deserialize(
     const size_t in_size,
     size_t&      n_bytes_read)
 {
+    // an empty constrained PRF consists in the header alone
     constexpr size_t min_size
-        = sizeof(RCPrfParams::depth_type) + sizeof(uint32_t)
-          + ConstrainedRCPrfElement<NBYTES>::kSerializedElementInfoSize;
+        = sizeof(RCPrfParams::depth_type) + sizeof(uint32_t);
 
-    if (in_size <= min_size) {
+    if (in_size < min_size) {
         /* LCOV_EXCL_START */
         throw std::invalid_argument(
             "ConstrainedRCPrf::deserialize: invalid input buffer size. The "
-- 
2.43.0


From 613b9f170a9137fcc9f878dd755015016267f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:09 +0000
Subject: [PATCH 06/38] fix: RCPrf and ConstrainedRCPrf have different wrapper
 type bytes

With the same byte (0x06), a wrapped ConstrainedRCPrf<11> made of a single leaf
was unwrapped as a RCPrf<11>, whose key was the serialized leaf.
---
 src/include/sse/crypto/wrapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/wrapper.hpp b/src/include/sse/crypto/wrapper.hpp
index 576920b..5455024 100644
--- a/src/include/sse/crypto/wrapper.hpp
+++ b/src/include/sse/crypto/wrapper.hpp
@@ -363,7 +363,7 @@ class RCPrf;
 template<uint16_t NBYTES>
 struct Wrapper::TypeByte<RCPrf<NBYTES>>
 {
-    static constexpr uint8_t value = 0x06;
+    static constexpr uint8_t value = 0x05;
 };
 
 template<uint16_t NBYTES>
-- 
2.43.0


From 29e60ef8cb8d7a36e62b5584dfd06c3c1355407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:09 +0000
Subject: [PATCH 07/38] fix: Wrapper erases and frees its secret buffer when
 unwrapping fails

Every rejected representation leaked a locked allocation holding the decrypted
content; after some tens of thousands, no key could be allocated any more.
Also check the result of the allocation.
---
 src/include/sse/crypto/wrapper.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/include/sse/crypto/wrapper.hpp b/src/include/sse/crypto/wrapper.hpp
index 5455024..843e875 100644
--- a/src/include/sse/crypto/wrapper.hpp
+++ b/src/include/sse/crypto/wrapper.hpp
@@ -27,6 +27,7 @@
 #include <algorithm>
 #include <array>
 #include <exception>
+#include <memory>
 #include <vector>
 
 #include <sodium/crypto_stream_chacha20.h>
@@ -200,7 +201,13 @@ std::vector<uint8_t> Wrapper::wrap(const CryptoClass& c) const
     const size_t buffer_size     = kRandomIVSize + serialized_size
                                + CryptoClass::kPublicContextSize
                                + 1; // the +1 is for the mandatory type byte
-    uint8_t* buffer = static_cast<uint8_t*>(sodium_malloc(buffer_size));
+    // erase and free the buffer, also when an exception is thrown
+    std::unique_ptr<uint8_t, void (*)(void*)> buffer_ptr(
+        static_cast<uint8_t*>(sodium_malloc(buffer_size)), sodium_free);
+    uint8_t* buffer = buffer_ptr.get();
+    if (buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
     // std::array<uint8_t, buffer_size> buffer;
 
     // put the random IV at the beggining
@@ -240,8 +247,6 @@ std::vector<uint8_t> Wrapper::wrap(const CryptoClass& c) const
                                     encryption_key_.unlock_get());
     encryption_key_.lock();
 
-    sodium_free(buffer);
-
     return out;
 }
 
@@ -257,7 +262,13 @@ CryptoClass Wrapper::unwrap(std::vector<uint8_t>& c_rep) const
     const size_t buffer_size = kRandomIVSize + data_size
                                + CryptoClass::kPublicContextSize
                                + 1; // the +1 is for the mandatory type byte
-    uint8_t* buffer = static_cast<uint8_t*>(sodium_malloc(buffer_size));
+    // erase and free the buffer, also when an exception is thrown
+    std::unique_ptr<uint8_t, void (*)(void*)> buffer_ptr(
+        static_cast<uint8_t*>(sodium_malloc(buffer_size)), sodium_free);
+    uint8_t* buffer = buffer_ptr.get();
+    if (buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
     // std::array<uint8_t, buffer_size> buffer;
 
     // copy the IV at the beggining of the buffer
@@ -319,8 +330,7 @@ CryptoClass Wrapper::unwrap(std::vector<uint8_t>& c_rep) const
         /* LCOV_EXCL_STOP */
     }
 
-    // free the buffer and zero the entry
-    sodium_free(buffer);
+    // zero the entry
     sodium_memzero(c_rep.data(), c_rep.size());
 
     return c;
-- 
2.43.0


From 3a0141736d3534328e5daaa39fb1324b97de69db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:09 +0000
Subject: [PATCH 08/38] fix: TdpMultPool of size 1 does not write past its
 empty key array

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index bfca8af..96121ee 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -723,6 +723,11 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
 
     keys_ = new mbedtls_rsa_context[keys_count_];
 
+    if (keys_count_ == 0) {
+        // the pool only supports the order 1, which uses rsa_key_
+        return;
+    }
+
     mbedtls_rsa_init(keys_, 0, 0);
     mbedtls_rsa_copy(keys_, &rsa_key_);
 
-- 
2.43.0


From 1e237562e44fec1349fd62e8a76afc0949c16008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:09 +0000
Subject: [PATCH 09/38] fix: TdpMultPool::eval rejects the order 0, as
 documented

It read a key before the beginning of the key array.
---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 96121ee..3720ee8 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -823,7 +823,7 @@ TdpMultPoolImpl_mbedTLS::eval_pool(
         // regular eval
         key = &rsa_key_;
 
-    } else if (order <= maximum_order()) {
+    } else if (order > 1 && order <= maximum_order()) {
         // get the right RSA context, i.e. the one in keys_[order-1]
         key = &keys_[order - 2];
     } else {
-- 
2.43.0


From cd06873e3ec645a9d83d580085ade9cfb76d4b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:09 +0000
Subject: [PATCH 10/38] fix: TdpMultPool uses the public exponent of its key

The powers were computed with 65537, whatever the exponent of the key: for keys
with an other exponent, eval(x, n) was not the n-th iterate of eval.
---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 3720ee8..66ada34 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -731,7 +731,7 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
     mbedtls_rsa_init(keys_, 0, 0);
     mbedtls_rsa_copy(keys_, &rsa_key_);
 
-    mbedtls_mpi_mul_int(&keys_[0].E, &keys_[0].E, RSA_PK);
+    mbedtls_mpi_mul_mpi(&keys_[0].E, &keys_[0].E, &rsa_key_.E);
 
     if (mbedtls_rsa_check_pubkey(&keys_[0]) != 0) {
         throw std::runtime_error("Invalid public key generated during the TDP "
@@ -742,7 +742,7 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
         mbedtls_rsa_init(&keys_[i], 0, 0);
         mbedtls_rsa_copy(&keys_[i], &keys_[i - 1]);
 
-        mbedtls_mpi_mul_int(&keys_[i].E, &keys_[i - 1].E, RSA_PK);
+        mbedtls_mpi_mul_mpi(&keys_[i].E, &keys_[i - 1].E, &rsa_key_.E);
 
         if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
             throw std::runtime_error(
-- 
2.43.0


From 3ce4ca5be4c73cb7d1169227297b1fbdb0f4d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:09 +0000
Subject: [PATCH 11/38] fix: TdpInverse::invert_mult checks the size of its
 input string

Shorter strings were read past their end, longer ones silently truncated.
---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 66ada34..7859a11 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -700,6 +700,11 @@ void TdpInverseImpl_mbedTLS::invert_mult(const std::string& in,
                                          std::string&       out,
                                          uint32_t           order) const
 {
+    if (in.size() != kMessageSpaceSize) {
+        throw std::invalid_argument("Invalid TDP input size. Input size should "
+                                    "be kMessageSpaceSize bytes long.");
+    }
+
     std::array<uint8_t, kMessageSpaceSize> in_array;
 
     memcpy(in_array.data(), in.data(), kMessageSpaceSize);
-- 
2.43.0


From 27d7a8421091e9212aaf577ac7bdf0ec621d92ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:09 +0000
Subject: [PATCH 12/38] fix: the TDP rejects RSA keys whose modulus is not
 kMessageSize bytes long

With a 4096 bits key, invert wrote 512 bytes in a 256 bytes array, and read 512
bytes of its 256 bytes input; with a 1024 bits key, half of the result was left
uninitialized, and eval on a string read past the end of its input.
---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 7859a11..7c805e3 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -87,6 +87,12 @@ TdpImpl_mbedTLS::TdpImpl_mbedTLS(const std::string& pk)
                                  "initialization");
         /* LCOV_EXCL_STOP */
     }
+
+    if (rsa_size() != kMessageSpaceSize) {
+        mbedtls_rsa_free(&rsa_key_);
+        throw std::runtime_error("Invalid RSA public key: the modulus should "
+                                 "be kMessageSpaceSize bytes long.");
+    }
 }
 
 TdpImpl_mbedTLS::TdpImpl_mbedTLS(const TdpImpl_mbedTLS& tdp)
@@ -422,6 +428,11 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS(const std::string& sk)
             "initialization from existing secret key"); /* LCOV_EXCL_LINE */
     }
 
+    if (rsa_size() != kMessageSpaceSize) {
+        throw std::runtime_error("Invalid RSA private key: the modulus should "
+                                 "be kMessageSpaceSize bytes long.");
+    }
+
     if (mbedtls_mpi_sub_int(&p_1_, &rsa_key_.P, 1) != 0) {
         throw std::runtime_error(
             "Failed MPI substraction"); /* LCOV_EXCL_LINE */
-- 
2.43.0


From d1a172747bd063865094610af96a5eaa4ac0543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:09 +0000
Subject: [PATCH 13/38] fix: default-constructed keys are random also without
 memory locking

When ENABLE_MEMORY_LOCK is not defined, all of them had the same content.
---
 src/include/sse/crypto/key.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index f284f91..689b103 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -111,9 +111,10 @@ public:
         if (content_ == nullptr) {
             throw std::bad_alloc(); /* LCOV_EXCL_LINE */
         }
-#ifdef ENABLE_MEMORY_LOCK
 
         random_bytes(N, content_);
+
+#ifdef ENABLE_MEMORY_LOCK
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
-- 
2.43.0


From a07f1314aa457e1e51aa9eedd6d57d34964337d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:09 +0000
Subject: [PATCH 14/38] fix: Prg::derive does not leave the key unlocked when
 out is NULL

---
 src/prg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/prg.cpp b/src/prg.cpp
index b1ff2b4..5174e3f 100644
--- a/src/prg.cpp
+++ b/src/prg.cpp
@@ -133,6 +133,9 @@ void Prg::derive(const size_t   offset,
     if (len == 0) {
         return;
     }
+    if (out == nullptr) {
+        throw std::invalid_argument("out is NULL");
+    }
 
     prg_derivation(key_.unlock_get(), offset, len, out);
     key_.lock();
-- 
2.43.0


From 7be4de64e341e1240ba7cf4867d0e77179737925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:09 +0000
Subject: [PATCH 15/38] fix: Key frees its memory when the initialization
 callback throws

The destructor is not run in this case: deriving a key from an empty key leaked
a locked allocation.
---
 src/include/sse/crypto/key.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index 689b103..3875162 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -261,7 +261,12 @@ private:
             throw std::bad_alloc(); /* LCOV_EXCL_LINE */
         }
 
-        init_callback(content_); // use the callback to fill the key
+        try {
+            init_callback(content_); // use the callback to fill the key
+        } catch (...) {
+            sodium_free(content_);
+            throw;
+        }
 
 #ifdef ENABLE_MEMORY_LOCK
         int err = sodium_mprotect_noaccess(content_);
-- 
2.43.0


From 6fe1d56a822cf968e7aaa8840b929f8007ac2526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:20 +0000
Subject: [PATCH 16/38] fix: Prf refuses output lengths for which its output
 would repeat

The blocks of the output are numbered with one byte: above 256 blocks, the
output repeats itself, and above 65472 bytes the loop never ends.
---
 src/include/sse/crypto/prf.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/sse/crypto/prf.hpp b/src/include/sse/crypto/prf.hpp
index b8bdbe3..07b6d8b 100644
--- a/src/include/sse/crypto/prf.hpp
+++ b/src/include/sse/crypto/prf.hpp
@@ -268,6 +268,9 @@ std::array<uint8_t, NBYTES> Prf<NBYTES>::prf(const unsigned char* in,
     static_assert(
         NBYTES != 0,
         "PRF output length invalid: length must be strictly larger than 0");
+    static_assert(NBYTES <= 256 * PrfBase::kDigestSize,
+                  "PRF output length invalid: the output blocks are numbered "
+                  "with a single byte, larger outputs would repeat");
 
     std::array<uint8_t, NBYTES> result;
 
-- 
2.43.0


From bd7c2417745a27604e8f0d8c1dd9a19f87c3aeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:33 +0000
Subject: [PATCH 17/38] fix: TdpInverse can be moved and unwrapped by users of
 the public header

---
 src/include/sse/crypto/tdp.hpp | 2 +-
 src/tdp.cpp                    | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/tdp.hpp b/src/include/sse/crypto/tdp.hpp
index a98b58f..9fa7853 100644
--- a/src/include/sse/crypto/tdp.hpp
+++ b/src/include/sse/crypto/tdp.hpp
@@ -317,7 +317,7 @@ public:
     explicit TdpInverse(const std::string& sk);
 
     TdpInverse(const TdpInverse& tdp) = delete;
-    TdpInverse(TdpInverse&& tdp)      = default;
+    TdpInverse(TdpInverse&& tdp) noexcept;
 
     TdpInverse& operator=(const TdpInverse& t) = delete;
 
diff --git a/src/tdp.cpp b/src/tdp.cpp
index 3fe408c..f3ba863 100644
--- a/src/tdp.cpp
+++ b/src/tdp.cpp
@@ -175,6 +175,8 @@ TdpInverse::TdpInverse(const std::string& sk)
 {
 }
 
+TdpInverse::TdpInverse(TdpInverse&& tdp) noexcept = default;
+
 // NOLINTNEXTLINE(modernize-use-equals-default)
 TdpInverse::~TdpInverse()
 {
-- 
2.43.0


From c62fa6c3514249a7d582f5b3b7d1bb192ac8d175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:40 +0000
Subject: [PATCH 18/38] fix: Prg::derive_keys frees its buffer when an
 exception is thrown

---
 src/include/sse/crypto/prg.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/include/sse/crypto/prg.hpp b/src/include/sse/crypto/prg.hpp
index 2afa5ca..1f138a4 100644
--- a/src/include/sse/crypto/prg.hpp
+++ b/src/include/sse/crypto/prg.hpp
@@ -460,8 +460,13 @@ std::vector<Key<K>> Prg::derive_keys(const uint16_t n_keys,
         return std::vector<Key<K>>(); // return empty vector
     }
 
-    uint8_t* key_buffer
-        = reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K));
+    // erase and free the buffer, also when an exception is thrown
+    std::unique_ptr<uint8_t, void (*)(void*)> key_buffer_ptr(
+        static_cast<uint8_t*>(sodium_allocarray(n_keys, K)), sodium_free);
+    uint8_t* key_buffer = key_buffer_ptr.get();
+    if (key_buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
 
     this->derive(key_offset * K, n_keys * K, key_buffer);
 
@@ -471,8 +476,6 @@ std::vector<Key<K>> Prg::derive_keys(const uint16_t n_keys,
         derived_keys.push_back(Key<K>(key_buffer + i * K));
     }
 
-    sodium_free(key_buffer);
-
     return derived_keys;
 }
 
@@ -504,8 +507,13 @@ std::vector<Key<K>> Prg::derive_keys(Key<kKeySize>&& k,
     }
 
 
-    uint8_t* key_buffer
-        = reinterpret_cast<uint8_t*>(sodium_allocarray(n_keys, K));
+    // erase and free the buffer, also when an exception is thrown
+    std::unique_ptr<uint8_t, void (*)(void*)> key_buffer_ptr(
+        static_cast<uint8_t*>(sodium_allocarray(n_keys, K)), sodium_free);
+    uint8_t* key_buffer = key_buffer_ptr.get();
+    if (key_buffer == nullptr) {
+        throw std::bad_alloc(); /* LCOV_EXCL_LINE */
+    }
 
     derive(std::move(k), key_offset * K, n_keys * K, key_buffer);
 
@@ -515,8 +523,6 @@ std::vector<Key<K>> Prg::derive_keys(Key<kKeySize>&& k,
         derived_keys.push_back(Key<K>(key_buffer + i * K));
     }
 
-    sodium_free(key_buffer);
-
     return derived_keys;
 }
 
-- 
2.43.0


From 3714d8bfb441cecabb5b1ddd587407b239eb2979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:48 +0000
Subject: [PATCH 19/38] fix: an empty key is refused also without memory
 locking

---
 src/include/sse/crypto/key.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index 3875162..b75f0f2 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -362,6 +362,9 @@ private:
     ///
     const uint8_t* data() const
     {
+        if (content_ == nullptr) {
+            throw std::runtime_error("Memory is absent");
+        }
         if (is_locked()) {
             throw std::runtime_error("Memory is locked");
         }
-- 
2.43.0


From 326ff730ef2d08a61dd7545f54b447e9e736763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:24 +0000
Subject: [PATCH 20/38] fix: release and erase temporary buffers when an
 operation throws

The string overloads of Cipher, Prg and Prp, HMac, Prf and random_string kept
their temporary in a raw new[] buffer, which was leaked (with the plaintext or
key material in it) when the operation failed: on a moved-from object, for an
empty key or when memory ran out. Cipher::decrypt and Prp also released theirs
without erasing the plaintext.
---
 src/cipher.cpp                           | 20 +++----
 src/include/sse/crypto/erased_buffer.hpp | 68 ++++++++++++++++++++++++
 src/include/sse/crypto/hmac.hpp          | 10 ++--
 src/include/sse/crypto/prf.hpp           |  7 ++-
 src/include/sse/crypto/random.hpp        | 11 ++--
 src/prg.cpp                              | 40 +++++---------
 src/prp.cpp                              | 15 +++---
 7 files changed, 107 insertions(+), 64 deletions(-)
 create mode 100644 src/include/sse/crypto/erased_buffer.hpp

diff --git a/src/cipher.cpp b/src/cipher.cpp
index 828e797..5e75fbd 100644
--- a/src/cipher.cpp
+++ b/src/cipher.cpp
@@ -20,10 +20,10 @@
 
 #include "cipher.hpp"
 
+#include "erased_buffer.hpp"
 #include "random.hpp"
 
 #include <exception>
-#include <vector>
 
 #include <sodium/crypto_aead_chacha20poly1305.h>
 #include <sodium/crypto_generichash_blake2b.h>
@@ -106,17 +106,13 @@ void Cipher::encrypt(const std::string& in, std::string& out)
             "The minimum number of bytes to encrypt is 1.");
     }
 
-    size_t         len   = in.size();
-    size_t         c_len = ciphertext_length(len);
-    unsigned char* data  = new unsigned char[c_len];
+    size_t       len   = in.size();
+    size_t       c_len = ciphertext_length(len);
+    ErasedBuffer data(c_len);
 
-    encrypt(reinterpret_cast<const unsigned char*>(in.data()), len, data);
-    out = std::string(reinterpret_cast<char*>(data), c_len);
-
-    // erase the buffer
-    sodium_memzero(data, c_len);
-
-    delete[] data;
+    encrypt(
+        reinterpret_cast<const unsigned char*>(in.data()), len, data.data());
+    out = std::string(reinterpret_cast<char*>(data.data()), c_len);
 }
 
 void Cipher::decrypt(const unsigned char* in,
@@ -183,7 +179,7 @@ void Cipher::decrypt(const std::string& in, std::string& out)
 
     size_t p_len = plaintext_length(len);
 
-    std::vector<uint8_t> data(p_len);
+    ErasedBuffer data(p_len);
     decrypt(
         reinterpret_cast<const unsigned char*>(in.data()), len, data.data());
 
diff --git a/src/include/sse/crypto/erased_buffer.hpp b/src/include/sse/crypto/erased_buffer.hpp
new file mode 100644
index 0000000..53adafb
--- /dev/null
+++ b/src/include/sse/crypto/erased_buffer.hpp
@@ -0,0 +1,68 @@
+//
+// libsse_crypto - An abstraction layer for high level cryptographic features.
+// Copyright (C) 2015-2017 Raphael Bost
+//
+// This file is part of libsse_crypto.
+//
+// libsse_crypto is free software: you can redistribute it and/or modify
+// it under the terms of the GNU Affero General Public License as
+// published by the Free Software Foundation, either version 3 of the
+// License, or (at your option) any later version.
+//
+// libsse_crypto is distributed in the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+// GNU Affero General Public License for more details.
+//
+// You should have received a copy of the GNU Affero General Public License
+// along with libsse_crypto.  If not, see <http://www.gnu.org/licenses/>.
+//
+
+#pragma once
+
+#include <cstddef>
+#include <cstdint>
+
+#include <memory>
+
+#include <sodium/utils.h>
+
+namespace sse {
+namespace crypto {
+
+/// @internal
+///
+/// @class ErasedBuffer
+/// @brief Temporary heap buffer
+///
+/// The buffer is erased and released when the object goes out of scope, also
+/// when this is caused by an exception.
+///
+class ErasedBuffer
+{
+public:
+    explicit ErasedBuffer(const size_t size)
+        : size_(size), buffer_(new uint8_t[size])
+    {
+    }
+
+    ErasedBuffer(const ErasedBuffer&) = delete;
+    ErasedBuffer& operator=(const ErasedBuffer&) = delete;
+
+    ~ErasedBuffer()
+    {
+        sodium_memzero(buffer_.get(), size_);
+    }
+
+    uint8_t* data()
+    {
+        return buffer_.get();
+    }
+
+private:
+    const size_t               size_;
+    std::unique_ptr<uint8_t[]> buffer_;
+};
+
+} // namespace crypto
+} // namespace sse
diff --git a/src/include/sse/crypto/hmac.hpp b/src/include/sse/crypto/hmac.hpp
index 4a4200f..242494d 100644
--- a/src/include/sse/crypto/hmac.hpp
+++ b/src/include/sse/crypto/hmac.hpp
@@ -20,6 +20,7 @@
 
 #pragma once
 
+#include <sse/crypto/erased_buffer.hpp>
 #include <sse/crypto/key.hpp>
 #include <sse/crypto/random.hpp>
 
@@ -194,13 +195,13 @@ void HMac<H, N>::hmac(const unsigned char* in,
         throw std::invalid_argument("out is NULL");
     }
 
-    uint8_t*         buffer;
     size_t           i_len      = kHMACKeySize + length;
     constexpr size_t tmp_len    = kHMACKeySize + kDigestSize;
     size_t           buffer_len = (i_len > kDigestSize) ? i_len : (kDigestSize);
 
-    buffer = new uint8_t[buffer_len];
-    uint8_t tmp[tmp_len];
+    ErasedBuffer buffer_holder(buffer_len);
+    uint8_t*     buffer = buffer_holder.data();
+    uint8_t      tmp[tmp_len];
 
     key_.unlock();
 
@@ -240,9 +241,6 @@ void HMac<H, N>::hmac(const unsigned char* in,
 
     memcpy(out, buffer, out_len);
 
-    sodium_memzero(buffer, buffer_len);
-    delete[] buffer;
-
     sodium_memzero(tmp, tmp_len);
 
     key_.lock();
diff --git a/src/include/sse/crypto/prf.hpp b/src/include/sse/crypto/prf.hpp
index 07b6d8b..9ef7ad4 100644
--- a/src/include/sse/crypto/prf.hpp
+++ b/src/include/sse/crypto/prf.hpp
@@ -20,6 +20,7 @@
 
 #pragma once
 
+#include <sse/crypto/erased_buffer.hpp>
 #include <sse/crypto/hash.hpp>
 #include <sse/crypto/hmac.hpp>
 #include <sse/crypto/key.hpp>
@@ -275,7 +276,8 @@ std::array<uint8_t, NBYTES> Prf<NBYTES>::prf(const unsigned char* in,
     std::array<uint8_t, NBYTES> result;
 
     if (NBYTES > PrfBase::kDigestSize) {
-        unsigned char* tmp = new unsigned char[length + 1];
+        ErasedBuffer   tmp_holder(length + 1);
+        unsigned char* tmp = tmp_holder.data();
         memcpy(tmp, in, length);
 
         uint16_t pos = 0;
@@ -295,9 +297,6 @@ std::array<uint8_t, NBYTES> Prf<NBYTES>::prf(const unsigned char* in,
                            static_cast<size_t>(NBYTES - pos));
             }
         }
-
-        sodium_memzero(tmp, length + 1);
-        delete[] tmp;
     } else if (NBYTES <= Hash::kDigestSize) {
         // only need one output bloc of PrfBase.
         base_.hmac(in, length, result.data(), result.size());
diff --git a/src/include/sse/crypto/random.hpp b/src/include/sse/crypto/random.hpp
index e53aa88..9497c8f 100644
--- a/src/include/sse/crypto/random.hpp
+++ b/src/include/sse/crypto/random.hpp
@@ -26,6 +26,8 @@
 
 #pragma once
 
+#include <sse/crypto/erased_buffer.hpp>
+
 #include <array>
 #include <string>
 
@@ -82,13 +84,10 @@ inline std::array<T, N> random_bytes() noexcept
 ///
 inline std::string random_string(const size_t length)
 {
-    uint8_t* tmp = new uint8_t[length];
-    random_bytes(length, tmp);
-
-    std::string out(reinterpret_cast<char*>(tmp), length);
-    delete[] tmp;
+    ErasedBuffer tmp(length);
+    random_bytes(length, tmp.data());
 
-    return out;
+    return std::string(reinterpret_cast<char*>(tmp.data()), length);
 }
 
 /// @brief RNG wrapper for mbedTLS
diff --git a/src/prg.cpp b/src/prg.cpp
index 5174e3f..a6b6fcc 100644
--- a/src/prg.cpp
+++ b/src/prg.cpp
@@ -21,6 +21,8 @@
 
 #include "prg.hpp"
 
+#include "erased_buffer.hpp"
+
 #include <cassert>
 #include <cstring>
 
@@ -106,15 +108,10 @@ static void prg_derivation(const unsigned char* key,
 
 void Prg::derive(const size_t offset, const size_t len, std::string& out) const
 {
-    unsigned char* data = new unsigned char[len];
-
-    derive(offset, len, data);
-    out = std::string(reinterpret_cast<char*>(data), len);
+    ErasedBuffer data(len);
 
-    // erase the buffer
-    sodium_memzero(data, len);
-
-    delete[] data;
+    derive(offset, len, data.data());
+    out = std::string(reinterpret_cast<char*>(data.data()), len);
 }
 
 std::string Prg::derive(const size_t offset, const size_t len) const
@@ -143,13 +140,10 @@ void Prg::derive(const size_t   offset,
 
 void Prg::derive(Key<kKeySize>&& k, const size_t len, std::string& out)
 {
-    std::vector<uint8_t> data(len);
+    ErasedBuffer data(len);
 
     derive(std::move(k), 0, len, data.data());
     out = std::string(reinterpret_cast<const char*>(data.data()), len);
-
-    // erase the buffer
-    sodium_memzero(data.data(), len);
 }
 
 void Prg::derive(Key<kKeySize>&& k,
@@ -174,31 +168,21 @@ void Prg::derive(Key<kKeySize>&& k,
                  const size_t    len,
                  std::string&    out)
 {
-    unsigned char* data = new unsigned char[len];
+    ErasedBuffer data(len);
 
-    derive(std::move(k), offset, len, data);
-    out = std::string(reinterpret_cast<char*>(data), len);
-
-    // erase the buffer
-    sodium_memzero(data, len);
-
-    delete[] data;
+    derive(std::move(k), offset, len, data.data());
+    out = std::string(reinterpret_cast<char*>(data.data()), len);
 }
 
 std::string Prg::derive(Key<kKeySize>&& k,
                         const size_t    offset,
                         const size_t    len)
 {
-    unsigned char* data = new unsigned char[len];
+    ErasedBuffer data(len);
 
-    derive(std::move(k), offset, len, data);
-    std::string out = std::string(reinterpret_cast<char*>(data), len);
+    derive(std::move(k), offset, len, data.data());
 
-    // erase the buffer
-    sodium_memzero(data, len);
-
-    delete[] data;
-    return out;
+    return std::string(reinterpret_cast<char*>(data.data()), len);
 }
 
 Prg Prg::duplicate() const
diff --git a/src/prp.cpp b/src/prp.cpp
index b1ce4ae..a4aca1c 100644
--- a/src/prp.cpp
+++ b/src/prp.cpp
@@ -20,6 +20,7 @@
 
 #include "prp.hpp"
 
+#include "erased_buffer.hpp"
 #include "random.hpp"
 
 #if __AES__ || __ARM_FEATURE_CRYPTO
@@ -219,13 +220,12 @@ void Prp::encrypt(const std::string& in, std::string& out)
         /* LCOV_EXCL_STOP */
     }
 
-    unsigned char* data = new unsigned char[len];
+    ErasedBuffer data(len);
 
     encrypt(reinterpret_cast<const unsigned char*>(in.data()),
             static_cast<unsigned int>(len),
-            data);
-    out = std::string(reinterpret_cast<char*>(data), len);
-    delete[] data;
+            data.data());
+    out = std::string(reinterpret_cast<char*>(data.data()), len);
 }
 
 void Prp::decrypt(const uint8_t* in, const unsigned int len, uint8_t* out)
@@ -283,14 +283,13 @@ void Prp::decrypt(const std::string& in, std::string& out)
         /* LCOV_EXCL_STOP */
     }
 
-    unsigned char* data = new unsigned char[len];
+    ErasedBuffer data(len);
 
     decrypt(reinterpret_cast<const unsigned char*>(in.data()),
             static_cast<unsigned int>(len),
-            data);
+            data.data());
 
-    out = std::string(reinterpret_cast<const char*>(data), len);
-    delete[] data;
+    out = std::string(reinterpret_cast<const char*>(data.data()), len);
 }
 
 void Prp::serialize(uint8_t* out) const
-- 
2.43.0


From d86e8964ccf50162b8f8f4cb28c6f00e1d14e424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:47 +0000
Subject: [PATCH 21/38] fix: do not reuse RSA blinding values left inconsistent
 by a failure

When preparing or updating the blinding values failed half way (for lack of
memory), the next private operations used a blinding and an unblinding value
that do not match, and returned wrong results.
---
 src/mbedtls/rsa.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mbedtls/rsa.c b/src/mbedtls/rsa.c
index c14a661..b90cea5 100644
--- a/src/mbedtls/rsa.c
+++ b/src/mbedtls/rsa.c
@@ -338,7 +338,10 @@ static int rsa_prepare_blinding( mbedtls_rsa_context *ctx,
     /* Unblinding value: Vf = random number, invertible mod N */
     do {
         if( count++ > 10 )
-            return( MBEDTLS_ERR_RSA_RNG_FAILED ); /* LCOV_EXCL_LINE */
+        {
+            ret = MBEDTLS_ERR_RSA_RNG_FAILED; /* LCOV_EXCL_LINE */
+            goto cleanup; /* LCOV_EXCL_LINE */
+        }
 
         MBEDTLS_MPI_CHK( mbedtls_mpi_fill_random( &ctx->Vf, ctx->len - 1, f_rng, p_rng ) );
         MBEDTLS_MPI_CHK( mbedtls_mpi_gcd( &ctx->Vi, &ctx->Vf, &ctx->N ) );
@@ -350,6 +353,13 @@ static int rsa_prepare_blinding( mbedtls_rsa_context *ctx,
 
 
 cleanup:
+    if( ret != 0 )
+    {
+        /* The values do not match each other: have them generated again */
+        mbedtls_mpi_free( &ctx->Vi );
+        mbedtls_mpi_free( &ctx->Vf );
+    }
+
     return( ret );
 }
 
-- 
2.43.0


From 5baa96f43ee241aa7abb590a9d06f0ade4b6b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:33 +0000
Subject: [PATCH 22/38] fix: report a failed copy of a parsed RSA key

---
 src/mbedtls/rsa_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mbedtls/rsa_io.c b/src/mbedtls/rsa_io.c
index 43549db..7eba18a 100644
--- a/src/mbedtls/rsa_io.c
+++ b/src/mbedtls/rsa_io.c
@@ -51,7 +51,7 @@ int mbedtls_rsa_parse_public_key( mbedtls_rsa_context *rsa_ctx,
     if( mbedtls_pk_get_type( &pk_ctx ) == MBEDTLS_PK_RSA )
     {
         // copy the key context to rsa_ctx
-        mbedtls_rsa_copy(rsa_ctx, mbedtls_pk_rsa(pk_ctx));
+        ret = mbedtls_rsa_copy(rsa_ctx, mbedtls_pk_rsa(pk_ctx));
     }else{
         ret = MBEDTLS_ERR_PK_UNKNOWN_PK_ALG;
     }
@@ -81,7 +81,7 @@ int mbedtls_rsa_parse_key( mbedtls_rsa_context *rsa_ctx,
     if( mbedtls_pk_get_type( &pk_ctx ) == MBEDTLS_PK_RSA )
     {
         // copy the key context to rsa_ctx
-        mbedtls_rsa_copy(rsa_ctx, mbedtls_pk_rsa(pk_ctx));
+        ret = mbedtls_rsa_copy(rsa_ctx, mbedtls_pk_rsa(pk_ctx));
     }else{
         ret = MBEDTLS_ERR_PK_UNKNOWN_PK_ALG;
     }
-- 
2.43.0


From 4ee7c5189b603bdf595e450231e08bbcb746fc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:33 +0000
Subject: [PATCH 23/38] fix: do not terminate the program when exporting a
 private key fails

TdpInverse::serialized_size() was declared noexcept but exports the key, which
throws when memory runs out.
---
 src/include/sse/crypto/tdp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/sse/crypto/tdp.hpp b/src/include/sse/crypto/tdp.hpp
index 9fa7853..b792403 100644
--- a/src/include/sse/crypto/tdp.hpp
+++ b/src/include/sse/crypto/tdp.hpp
@@ -584,7 +584,7 @@ private:
     ///
     /// @return The size in bytes of the buffer needed to serialize the object.
     ///
-    size_t serialized_size() const noexcept
+    size_t serialized_size() const
     {
         return private_key().size();
     }
-- 
2.43.0


From bdd08fa370672d859d37b86c174de61b0c9e146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:25 +0000
Subject: [PATCH 24/38] fix: free RSA keys and temporaries on every error path,
 and check all results

Constructors, evaluations and inversions of the mbedTLS trapdoor permutation
leaked (private) key material when a step failed, and the pool and the
assignment ignored failed copies and multiplications, which could leave a pool
with wrong exponents.
---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 184 ++++++++++++++----------------
 src/tdp_impl/tdp_impl_mbedtls.hpp |   2 +
 2 files changed, 89 insertions(+), 97 deletions(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 7c805e3..44987df 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -62,16 +62,46 @@ static void zeroize_rsa(mbedtls_rsa_context* rsa)
     mbedtls_mpi_lset(&rsa->Vf, 0);
 }
 
+// Frees (and erases) a big number at the end of the scope, also when an
+// exception is thrown
+class MpiGuard
+{
+public:
+    explicit MpiGuard(mbedtls_mpi* mpi) : mpi_(mpi)
+    {
+        mbedtls_mpi_init(mpi_);
+    }
+    MpiGuard(const MpiGuard&) = delete;
+    MpiGuard& operator=(const MpiGuard&) = delete;
+
+    ~MpiGuard()
+    {
+        mbedtls_mpi_free(mpi_);
+    }
+
+private:
+    mbedtls_mpi* const mpi_;
+};
+
+static void free_keys(mbedtls_rsa_context* keys, const uint8_t count)
+{
+    for (uint8_t i = 0; i < count; i++) {
+        zeroize_rsa(&keys[i]);
+        mbedtls_rsa_free(&keys[i]);
+    }
+    delete[] keys;
+}
+
 // mbedTLS implementation of the trapdoor permutation
 
 TdpImpl_mbedTLS::TdpImpl_mbedTLS()
 {
     mbedtls_rsa_init(&rsa_key_, 0, 0);
 }
-TdpImpl_mbedTLS::TdpImpl_mbedTLS(const std::string& pk)
+// Delegating to the default constructor makes the destructor free the key when
+// an exception is thrown
+TdpImpl_mbedTLS::TdpImpl_mbedTLS(const std::string& pk) : TdpImpl_mbedTLS()
 {
-    mbedtls_rsa_init(&rsa_key_, 0, 0);
-
     // parse the public key
     if (mbedtls_rsa_parse_public_key(
             &rsa_key_,
@@ -89,15 +119,13 @@ TdpImpl_mbedTLS::TdpImpl_mbedTLS(const std::string& pk)
     }
 
     if (rsa_size() != kMessageSpaceSize) {
-        mbedtls_rsa_free(&rsa_key_);
         throw std::runtime_error("Invalid RSA public key: the modulus should "
                                  "be kMessageSpaceSize bytes long.");
     }
 }
 
-TdpImpl_mbedTLS::TdpImpl_mbedTLS(const TdpImpl_mbedTLS& tdp)
+TdpImpl_mbedTLS::TdpImpl_mbedTLS(const TdpImpl_mbedTLS& tdp) : TdpImpl_mbedTLS()
 {
-    mbedtls_rsa_init(&rsa_key_, 0, 0); /* LCOV_EXCL_LINE */
     if (mbedtls_rsa_copy(&rsa_key_, &tdp.rsa_key_) != 0) {
         throw std::runtime_error(
             "Error when copying an RSA private key"); /* LCOV_EXCL_LINE */
@@ -125,7 +153,10 @@ TdpImpl_mbedTLS::~TdpImpl_mbedTLS()
 TdpImpl_mbedTLS& TdpImpl_mbedTLS::operator=(const TdpImpl_mbedTLS& t)
 {
     if (this != &t) {
-        mbedtls_rsa_copy(&rsa_key_, &(t.rsa_key_));
+        if (mbedtls_rsa_copy(&rsa_key_, &(t.rsa_key_)) != 0) {
+            throw std::runtime_error(
+                "Error when copying an RSA key"); /* LCOV_EXCL_LINE */
+        }
     }
 
     return *this;
@@ -187,7 +218,7 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::eval(
 
     int         ret;
     mbedtls_mpi x;
-    mbedtls_mpi_init(&x);
+    MpiGuard    x_guard(&x);
 
     // deserialize the integer
     ret = mbedtls_mpi_read_binary(&x, in.data(), in.size());
@@ -229,7 +260,6 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::eval(
 
     mbedtls_mpi_write_binary(&x, out.data(), out.size());
     mbedtls_mpi_lset(&x, 0); // erase the temporary variable
-    mbedtls_mpi_free(&x);
 
     return out;
 }
@@ -251,7 +281,7 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::
     sample_array() const
 {
     mbedtls_mpi x;
-    mbedtls_mpi_init(&x);
+    MpiGuard    x_guard(&x);
     std::array<uint8_t, kMessageSpaceSize> out;
     std::fill(out.begin(), out.end(), 0);
 
@@ -274,7 +304,6 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::
 
     mbedtls_mpi_write_binary(&x, out.data(), out.size());
     mbedtls_mpi_lset(&x, 0);
-    mbedtls_mpi_free(&x);
 
     return out;
 }
@@ -299,7 +328,7 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::
     std::array<uint8_t, Tdp::kRSAPrfSize> rnd = prg.prf(seed);
 
     mbedtls_mpi x;
-    mbedtls_mpi_init(&x);
+    MpiGuard    x_guard(&x);
     std::array<uint8_t, kMessageSpaceSize> out;
     std::fill(out.begin(), out.end(), 0);
 
@@ -323,7 +352,6 @@ std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize> TdpImpl_mbedTLS::
 
     mbedtls_mpi_write_binary(&x, out.data(), out.size());
     mbedtls_mpi_lset(&x, 0);
-    mbedtls_mpi_free(&x);
 
     return out;
 }
@@ -361,12 +389,6 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS()
 {
     int ret;
 
-    // initialize the key
-    mbedtls_rsa_init(&rsa_key_, 0, 0);
-    mbedtls_mpi_init(&phi_);
-    mbedtls_mpi_init(&p_1_);
-    mbedtls_mpi_init(&q_1_);
-
     // generate a new random key
     ret = mbedtls_rsa_gen_key(
         &rsa_key_, mbedTLS_rng_wrap, nullptr, RSA_MODULUS_SIZE, RSA_PK);
@@ -384,30 +406,13 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS()
             "initialization"); /* LCOV_EXCL_LINE */
     }
 
-    if (mbedtls_mpi_sub_int(&p_1_, &rsa_key_.P, 1) != 0) {
-        throw std::runtime_error(
-            "Failed MPI substraction"); /* LCOV_EXCL_LINE */
-    }
-    if (mbedtls_mpi_sub_int(&q_1_, &rsa_key_.Q, 1) != 0) {
-        throw std::runtime_error(
-            "Failed MPI substraction"); /* LCOV_EXCL_LINE */
-    }
-    if (mbedtls_mpi_mul_mpi(&phi_, &p_1_, &q_1_) != 0) {
-        throw std::runtime_error(
-            "Failed MPI multiplication"); /* LCOV_EXCL_LINE */
-    }
+    init_exponents();
 }
 
 TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS(const std::string& sk)
 {
     int ret;
 
-    // initialize the key
-    mbedtls_rsa_init(&rsa_key_, 0, 0);
-    mbedtls_mpi_init(&phi_);
-    mbedtls_mpi_init(&p_1_);
-    mbedtls_mpi_init(&q_1_);
-
     // do not forget the '\0' character
     ret = mbedtls_rsa_parse_key(
         &rsa_key_,
@@ -433,17 +438,25 @@ TdpInverseImpl_mbedTLS::TdpInverseImpl_mbedTLS(const std::string& sk)
                                  "be kMessageSpaceSize bytes long.");
     }
 
-    if (mbedtls_mpi_sub_int(&p_1_, &rsa_key_.P, 1) != 0) {
-        throw std::runtime_error(
-            "Failed MPI substraction"); /* LCOV_EXCL_LINE */
-    }
-    if (mbedtls_mpi_sub_int(&q_1_, &rsa_key_.Q, 1) != 0) {
-        throw std::runtime_error(
-            "Failed MPI substraction"); /* LCOV_EXCL_LINE */
-    }
-    if (mbedtls_mpi_mul_mpi(&phi_, &p_1_, &q_1_) != 0) {
-        throw std::runtime_error(
-            "Failed MPI multiplication"); /* LCOV_EXCL_LINE */
+    init_exponents();
+}
+
+void TdpInverseImpl_mbedTLS::init_exponents()
+{
+    mbedtls_mpi_init(&phi_);
+    mbedtls_mpi_init(&p_1_);
+    mbedtls_mpi_init(&q_1_);
+
+    if (mbedtls_mpi_sub_int(&p_1_, &rsa_key_.P, 1) != 0
+        || mbedtls_mpi_sub_int(&q_1_, &rsa_key_.Q, 1) != 0
+        || mbedtls_mpi_mul_mpi(&phi_, &p_1_, &q_1_) != 0) {
+        /* LCOV_EXCL_START */
+        // the destructor will not be called
+        mbedtls_mpi_free(&p_1_);
+        mbedtls_mpi_free(&q_1_);
+        mbedtls_mpi_free(&phi_);
+        throw std::runtime_error("Failed MPI operation");
+        /* LCOV_EXCL_STOP */
     }
 }
 
@@ -585,13 +598,9 @@ TdpInverseImpl_mbedTLS::invert_mult(
     mbedtls_mpi x, mpi_order, d_p, d_q;
     mbedtls_mpi y_p, y_q;
     mbedtls_mpi y;
-    mbedtls_mpi_init(&x);
-    mbedtls_mpi_init(&mpi_order);
-    mbedtls_mpi_init(&d_p);
-    mbedtls_mpi_init(&d_q);
-    mbedtls_mpi_init(&y_p);
-    mbedtls_mpi_init(&y_q);
-    mbedtls_mpi_init(&y);
+    MpiGuard    x_guard(&x), mpi_order_guard(&mpi_order);
+    MpiGuard    d_p_guard(&d_p), d_q_guard(&d_q);
+    MpiGuard    y_p_guard(&y_p), y_q_guard(&y_q), y_guard(&y);
 
     // deserialize the integer
     ret = mbedtls_mpi_read_binary(&x, in.data(), in.size());
@@ -689,20 +698,12 @@ cleanup:
     mbedtls_mpi_lset(&y_q, 0);
     mbedtls_mpi_lset(&mpi_order, 0);
 
-    mbedtls_mpi_free(&x);
-    mbedtls_mpi_free(&d_p);
-    mbedtls_mpi_free(&d_q);
-    mbedtls_mpi_free(&y_p);
-    mbedtls_mpi_free(&y_q);
-    mbedtls_mpi_free(&mpi_order);
-
     if (ret != 0) {
         throw std::runtime_error(
             "Error during the modular exponentiation"); /* LCOV_EXCL_LINE */
     }
 
     mbedtls_mpi_lset(&y, 0); // erase the temporary variable
-    mbedtls_mpi_free(&y);
 
     return out;
 }
@@ -739,28 +740,19 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(const std::string& sk,
 
     keys_ = new mbedtls_rsa_context[keys_count_];
 
-    if (keys_count_ == 0) {
-        // the pool only supports the order 1, which uses rsa_key_
-        return;
-    }
-
-    mbedtls_rsa_init(keys_, 0, 0);
-    mbedtls_rsa_copy(keys_, &rsa_key_);
-
-    mbedtls_mpi_mul_mpi(&keys_[0].E, &keys_[0].E, &rsa_key_.E);
-
-    if (mbedtls_rsa_check_pubkey(&keys_[0]) != 0) {
-        throw std::runtime_error("Invalid public key generated during the TDP "
-                                 "pool initialization"); /* LCOV_EXCL_LINE */
-    }
-
-    for (uint8_t i = 1; i < keys_count_; i++) {
+    for (uint8_t i = 0; i < keys_count_; i++) {
         mbedtls_rsa_init(&keys_[i], 0, 0);
-        mbedtls_rsa_copy(&keys_[i], &keys_[i - 1]);
-
-        mbedtls_mpi_mul_mpi(&keys_[i].E, &keys_[i - 1].E, &rsa_key_.E);
+    }
 
-        if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
+    for (uint8_t i = 0; i < keys_count_; i++) {
+        // the previous key of the pool, the order 1 being rsa_key_
+        const mbedtls_rsa_context* prev = (i == 0) ? &rsa_key_ : &keys_[i - 1];
+
+        if (mbedtls_rsa_copy(&keys_[i], prev) != 0
+            || mbedtls_mpi_mul_mpi(&keys_[i].E, &prev->E, &rsa_key_.E) != 0
+            || mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
+            // the destructor will not be called
+            free_keys(keys_, keys_count_);
             throw std::runtime_error(
                 "Invalid public key generated during the TDP pool "
                 "initialization"); /* LCOV_EXCL_LINE */
@@ -776,11 +768,13 @@ TdpMultPoolImpl_mbedTLS::TdpMultPoolImpl_mbedTLS(
 
     for (uint8_t i = 0; i < keys_count_; i++) {
         mbedtls_rsa_init(&keys_[i], 0, 0);
+    }
 
-        mbedtls_rsa_copy(&keys_[i], &pool_impl.keys_[i]);
-
-
-        if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
+    for (uint8_t i = 0; i < keys_count_; i++) {
+        if (mbedtls_rsa_copy(&keys_[i], &pool_impl.keys_[i]) != 0
+            || mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
+            // the destructor will not be called
+            free_keys(keys_, keys_count_);
             throw std::runtime_error(
                 "Invalid public key generated by the TDP pool copy "
                 "constructor"); /* LCOV_EXCL_LINE */
@@ -806,10 +800,11 @@ TdpMultPoolImpl_mbedTLS& TdpMultPoolImpl_mbedTLS::operator=(
 
         for (uint8_t i = 0; i < keys_count_; i++) {
             mbedtls_rsa_init(&keys_[i], 0, 0);
+        }
 
-            mbedtls_rsa_copy(&keys_[i], &t.keys_[i]);
-
-            if (mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
+        for (uint8_t i = 0; i < keys_count_; i++) {
+            if (mbedtls_rsa_copy(&keys_[i], &t.keys_[i]) != 0
+                || mbedtls_rsa_check_pubkey(&keys_[i]) != 0) {
                 throw std::runtime_error(
                     "Invalid public key generated by the TDP pool assignment "
                     "operator"); /* LCOV_EXCL_LINE */
@@ -821,11 +816,7 @@ TdpMultPoolImpl_mbedTLS& TdpMultPoolImpl_mbedTLS::operator=(
 
 TdpMultPoolImpl_mbedTLS::~TdpMultPoolImpl_mbedTLS()
 {
-    for (uint8_t i = 0; i < keys_count_; i++) {
-        zeroize_rsa(&keys_[i]);
-        mbedtls_rsa_free(&keys_[i]);
-    }
-    delete[] keys_;
+    free_keys(keys_, keys_count_);
 }
 
 std::array<uint8_t, TdpImpl_mbedTLS::kMessageSpaceSize>
@@ -858,7 +849,7 @@ TdpMultPoolImpl_mbedTLS::eval_pool(
 
     int         ret;
     mbedtls_mpi x;
-    mbedtls_mpi_init(&x);
+    MpiGuard    x_guard(&x);
 
     // deserialize the integer
     ret = mbedtls_mpi_read_binary(&x, in.data(), in.size());
@@ -901,7 +892,6 @@ TdpMultPoolImpl_mbedTLS::eval_pool(
     mbedtls_mpi_write_binary(&x, out.data(), out.size());
 
     mbedtls_mpi_lset(&x, 0);
-    mbedtls_mpi_free(&x);
 
     return out;
 }
diff --git a/src/tdp_impl/tdp_impl_mbedtls.hpp b/src/tdp_impl/tdp_impl_mbedtls.hpp
index fb00270..6b7b3ce 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.hpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.hpp
@@ -106,6 +106,8 @@ public:
                      uint32_t           order) const override;
 
 private:
+    void init_exponents();
+
     mbedtls_mpi phi_, p_1_, q_1_;
 };
 
-- 
2.43.0


From 8b6d5b59077d57745a81ecace83954f49c3ca0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:42 +0000
Subject: [PATCH 25/38] fix: erase the text of private keys and the values of
 leaves from released memory

PEM buffers, the copies of an RSA private key made when wrapping and
unwrapping it, and leaves of constrained range PRFs were left in the memory
given back to the allocator.
---
 src/include/sse/crypto/rcprf.hpp |  9 ++++++++-
 src/include/sse/crypto/tdp.hpp   |  5 +----
 src/mbedtls/pem.c                | 13 ++++++++++---
 src/tdp.cpp                      | 28 ++++++++++++++++++++++++++++
 4 files changed, 47 insertions(+), 8 deletions(-)

diff --git a/src/include/sse/crypto/rcprf.hpp b/src/include/sse/crypto/rcprf.hpp
index 094eddd..63816f4 100644
--- a/src/include/sse/crypto/rcprf.hpp
+++ b/src/include/sse/crypto/rcprf.hpp
@@ -34,6 +34,8 @@
 #include <memory>
 #include <vector>
 
+#include <sodium/utils.h>
+
 namespace sse {
 namespace crypto {
 
@@ -976,7 +978,12 @@ public:
     ///
     /// @brief Destructor
     ///
-    ~ConstrainedRCPrfLeafElement() override = default;
+    /// The value of the leaf is erased from the memory.
+    ///
+    ~ConstrainedRCPrfLeafElement() override
+    {
+        sodium_memzero(leaf_buffer_.data(), NBYTES);
+    }
 
     // Already documented by the superclass
     std::array<uint8_t, NBYTES> eval(uint64_t leaf) const override;
diff --git a/src/include/sse/crypto/tdp.hpp b/src/include/sse/crypto/tdp.hpp
index b792403..dc17557 100644
--- a/src/include/sse/crypto/tdp.hpp
+++ b/src/include/sse/crypto/tdp.hpp
@@ -584,10 +584,7 @@ private:
     ///
     /// @return The size in bytes of the buffer needed to serialize the object.
     ///
-    size_t serialized_size() const
-    {
-        return private_key().size();
-    }
+    size_t serialized_size() const;
 
     /// @brief Serialize the object in the given buffer
     ///
diff --git a/src/mbedtls/pem.c b/src/mbedtls/pem.c
index 69d0210..4aba799 100644
--- a/src/mbedtls/pem.c
+++ b/src/mbedtls/pem.c
@@ -111,6 +111,7 @@ int mbedtls_pem_read_buffer( mbedtls_pem_context *ctx, const char *header, const
 
     if( ( ret = mbedtls_base64_decode( buf, len, &len, s1, s2 - s1 ) ) != 0 )
     {
+        mbedtls_zeroize( buf, len ); /* LCOV_EXCL_LINE */
         mbedtls_free( buf ); /* LCOV_EXCL_LINE */
         return( MBEDTLS_ERR_PEM_INVALID_DATA + ret ); /* LCOV_EXCL_LINE */
     }
@@ -123,7 +124,11 @@ int mbedtls_pem_read_buffer( mbedtls_pem_context *ctx, const char *header, const
 
 void mbedtls_pem_free( mbedtls_pem_context *ctx )
 {
-    mbedtls_free( ctx->buf );
+    if( ctx->buf != NULL )
+    {
+        mbedtls_zeroize( ctx->buf, ctx->buflen );
+        mbedtls_free( ctx->buf );
+    }
     mbedtls_free( ctx->info );
 
     mbedtls_zeroize( ctx, sizeof( mbedtls_pem_context ) );
@@ -137,7 +142,7 @@ int mbedtls_pem_write_buffer( const char *header, const char *footer,
 {
     int ret;
     unsigned char *encode_buf, *c, *p = buf;
-    size_t len = 0, use_len, add_len = 0;
+    size_t len = 0, use_len, add_len = 0, encode_len;
 
     mbedtls_base64_encode( NULL, 0, &use_len, der_data, der_len );
     add_len = strlen( header ) + strlen( footer ) + ( use_len / 64 ) + 1;
@@ -148,7 +153,8 @@ int mbedtls_pem_write_buffer( const char *header, const char *footer,
         return( MBEDTLS_ERR_BASE64_BUFFER_TOO_SMALL );
     }
 
-    if( ( encode_buf = mbedtls_calloc( 1, use_len ) ) == NULL )
+    encode_len = use_len;
+    if( ( encode_buf = mbedtls_calloc( 1, encode_len ) ) == NULL )
         return( MBEDTLS_ERR_PEM_ALLOC_FAILED ); /* LCOV_EXCL_LINE */
 
     if( ( ret = mbedtls_base64_encode( encode_buf, use_len, &use_len, der_data,
@@ -178,6 +184,7 @@ int mbedtls_pem_write_buffer( const char *header, const char *footer,
     *p++ = '\0';
     *olen = p - buf;
 
+    mbedtls_zeroize( encode_buf, encode_len );
     mbedtls_free( encode_buf );
     return( 0 );
 }
diff --git a/src/tdp.cpp b/src/tdp.cpp
index f3ba863..04aca73 100644
--- a/src/tdp.cpp
+++ b/src/tdp.cpp
@@ -31,6 +31,8 @@
 #include <iomanip>
 #include <iostream>
 
+#include <sodium/utils.h>
+
 #define SSE_CRYPTO_TDP_IMPL_MBEDTLS 1
 #define SSE_CRYPTO_TDP_IMPL_OPENSSL 2
 
@@ -287,11 +289,25 @@ std::array<uint8_t, TdpInverse::kMessageSize> TdpInverse::invert_mult(
 }
 
 
+size_t TdpInverse::serialized_size() const
+{
+    std::string  sk   = private_key();
+    const size_t size = sk.size();
+
+    // erase the text of the key
+    sodium_memzero(&sk[0], sk.size());
+
+    return size;
+}
+
 void TdpInverse::serialize(uint8_t* out) const
 {
     std::string sk = private_key();
     // NOLINTNEXTLINE(bugprone-not-null-terminated-result)
     memcpy(out, sk.data(), sk.size());
+
+    // erase the text of the key
+    sodium_memzero(&sk[0], sk.size());
 }
 
 
@@ -320,6 +336,18 @@ TdpInverse TdpInverse::deserialize(uint8_t*     in,
     std::string sk(
         reinterpret_cast<const char*>(in),
         reinterpret_cast<const char*>(suffix_start + kKeySuffixSize));
+
+    // erase the text of the key, even if it is refused
+    struct Eraser
+    {
+        std::string& text;
+
+        ~Eraser()
+        {
+            sodium_memzero(&text[0], text.size());
+        }
+    } eraser{sk};
+
     TdpInverse result(sk);
 
     if ((n_bytes_read < in_size) && (in[n_bytes_read] == '\n')) {
-- 
2.43.0


From 4f8ca4e2e92a0d03531b83bbc195238b8d9bc6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:16 +0000
Subject: [PATCH 26/38] fix: big-number division and reduction with the result
 in an operand

The quotient had a wrong sign (or the remainder was lost) when it replaced the
dividend or divisor, and mbedtls_mpi_mod_mpi( B, A, B ) did not terminate.
---
 src/mbedtls/bignum.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 0c0f549..db3d005 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1261,7 +1261,7 @@ static mbedtls_mpi_uint mbedtls_int_div_int( mbedtls_mpi_uint u1,
  */
 int mbedtls_mpi_div_mpi( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, const mbedtls_mpi *B )
 {
-    int ret;
+    int ret, s_A, s_B;
     size_t i, n, t, k;
     mbedtls_mpi X, Y, Z, T1, T2;
 
@@ -1273,11 +1273,16 @@ int mbedtls_mpi_div_mpi( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, c
 
     if( mbedtls_mpi_cmp_abs( A, B ) < 0 )
     {
-        if( Q != NULL ) MBEDTLS_MPI_CHK( mbedtls_mpi_lset( Q, 0 ) );
+        /* R first: Q and A may be the same number */
         if( R != NULL ) MBEDTLS_MPI_CHK( mbedtls_mpi_copy( R, A ) );
+        if( Q != NULL ) MBEDTLS_MPI_CHK( mbedtls_mpi_lset( Q, 0 ) );
         return( 0 );
     }
 
+    /* Q and R may be the same numbers as A and B */
+    s_A = A->s;
+    s_B = B->s;
+
     MBEDTLS_MPI_CHK( mbedtls_mpi_copy( &X, A ) );
     MBEDTLS_MPI_CHK( mbedtls_mpi_copy( &Y, B ) );
     X.s = Y.s = 1;
@@ -1350,13 +1355,13 @@ int mbedtls_mpi_div_mpi( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, c
     if( Q != NULL )
     {
         MBEDTLS_MPI_CHK( mbedtls_mpi_copy( Q, &Z ) );
-        Q->s = A->s * B->s;
+        Q->s = s_A * s_B;
     }
 
     if( R != NULL )
     {
         MBEDTLS_MPI_CHK( mbedtls_mpi_shift_r( &X, k ) );
-        X.s = A->s;
+        X.s = s_A;
         MBEDTLS_MPI_CHK( mbedtls_mpi_copy( R, &X ) );
 
         if( mbedtls_mpi_cmp_int( R, 0 ) == 0 )
@@ -1393,10 +1398,15 @@ int mbedtls_mpi_div_int( mbedtls_mpi *Q, mbedtls_mpi *R, const mbedtls_mpi *A, m
 int mbedtls_mpi_mod_mpi( mbedtls_mpi *R, const mbedtls_mpi *A, const mbedtls_mpi *B )
 {
     int ret;
+    mbedtls_mpi TB;
 
     if( mbedtls_mpi_cmp_int( B, 0 ) < 0 )
         return( MBEDTLS_ERR_MPI_NEGATIVE_VALUE );
 
+    mbedtls_mpi_init( &TB );
+
+    if( R == B ) { MBEDTLS_MPI_CHK( mbedtls_mpi_copy( &TB, B ) ); if( A == B ) A = &TB; B = &TB; }
+
     MBEDTLS_MPI_CHK( mbedtls_mpi_div_mpi( NULL, R, A, B ) );
 
     while( mbedtls_mpi_cmp_int( R, 0 ) < 0 )
@@ -1407,6 +1417,8 @@ int mbedtls_mpi_mod_mpi( mbedtls_mpi *R, const mbedtls_mpi *A, const mbedtls_mpi
 
 cleanup:
 
+    mbedtls_mpi_free( &TB );
+
     return( ret );
 }
 
-- 
2.43.0


From c5dfffd4d88dffdab7a2b17e2ec378a6cd229d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:16 +0000
Subject: [PATCH 27/38] fix: gcd with zero, powers of negative numbers that are
 zero, and a zero modulus

gcd( A, 0 ) was 0, ( -N ) ^ E mod N was N for odd E, and a modulus without
limbs was dereferenced.
---
 src/mbedtls/bignum.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index db3d005..d168d36 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1566,7 +1566,7 @@ int mbedtls_mpi_exp_mod( mbedtls_mpi *X, const mbedtls_mpi *A, const mbedtls_mpi
     mbedtls_mpi RR, T, W[ 2 << MBEDTLS_MPI_WINDOW_SIZE ], Apos;
     int neg;
 
-    if( mbedtls_mpi_cmp_int( N, 0 ) < 0 || ( N->p[0] & 1 ) == 0 )
+    if( mbedtls_mpi_cmp_int( N, 0 ) <= 0 || ( N->p[0] & 1 ) == 0 )
         return( MBEDTLS_ERR_MPI_BAD_INPUT_DATA );
 
     if( mbedtls_mpi_cmp_int( E, 0 ) < 0 )
@@ -1742,7 +1742,8 @@ int mbedtls_mpi_exp_mod( mbedtls_mpi *X, const mbedtls_mpi *A, const mbedtls_mpi
      */
     MBEDTLS_MPI_CHK( mpi_montred( X, N, mm, &T ) );
 
-    if( neg && E->n != 0 && ( E->p[0] & 1 ) != 0 )
+    if( neg && E->n != 0 && ( E->p[0] & 1 ) != 0 &&
+        mbedtls_mpi_cmp_int( X, 0 ) != 0 )
     {
         X->s = -1;
         MBEDTLS_MPI_CHK( mbedtls_mpi_add_mpi( X, N, X ) );
@@ -1775,6 +1776,15 @@ int mbedtls_mpi_gcd( mbedtls_mpi *G, const mbedtls_mpi *A, const mbedtls_mpi *B
     MBEDTLS_MPI_CHK( mbedtls_mpi_copy( &TA, A ) );
     MBEDTLS_MPI_CHK( mbedtls_mpi_copy( &TB, B ) );
 
+    TA.s = TB.s = 1;
+
+    /* gcd( A, 0 ) = |A| */
+    if( mbedtls_mpi_cmp_int( &TB, 0 ) == 0 )
+    {
+        MBEDTLS_MPI_CHK( mbedtls_mpi_copy( G, &TA ) );
+        goto cleanup;
+    }
+
     lz = mbedtls_mpi_lsb( &TA );
     lzt = mbedtls_mpi_lsb( &TB );
 
@@ -1784,8 +1794,6 @@ int mbedtls_mpi_gcd( mbedtls_mpi *G, const mbedtls_mpi *A, const mbedtls_mpi *B
     MBEDTLS_MPI_CHK( mbedtls_mpi_shift_r( &TA, lz ) );
     MBEDTLS_MPI_CHK( mbedtls_mpi_shift_r( &TB, lz ) );
 
-    TA.s = TB.s = 1;
-
     while( mbedtls_mpi_cmp_int( &TA, 0 ) != 0 )
     {
         MBEDTLS_MPI_CHK( mbedtls_mpi_shift_r( &TA, mbedtls_mpi_lsb( &TA ) ) );
-- 
2.43.0


From 5e068f663710872b19bb25cda84bd30ac3d27f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:16 +0000
Subject: [PATCH 28/38] fix: mbedtls_mpi_mod_int with a large divisor or a
 number without limbs

---
 src/mbedtls/bignum.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index d168d36..338f889 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1427,6 +1427,7 @@ cleanup:
  */
 int mbedtls_mpi_mod_int( mbedtls_mpi_uint *r, const mbedtls_mpi *A, mbedtls_mpi_sint b )
 {
+    int ret;
     size_t i;
     mbedtls_mpi_uint x, y, z;
 
@@ -1447,10 +1448,33 @@ int mbedtls_mpi_mod_int( mbedtls_mpi_uint *r, const mbedtls_mpi *A, mbedtls_mpi_
 
     if( b == 2 )
     {
-        *r = A->p[0] & 1;
+        *r = ( A->n == 0 ) ? 0 : A->p[0] & 1;
         return( 0 );
     }
 
+    /*
+     * b does not fit in half a limb
+     */
+    if( ( (mbedtls_mpi_uint) b >> biH ) != 0 )
+    {
+        mbedtls_mpi R, B;
+        mbedtls_mpi_uint p[1];
+
+        p[0] = (mbedtls_mpi_uint) b;
+        B.s  = 1;
+        B.n  = 1;
+        B.p  = p;
+
+        mbedtls_mpi_init( &R );
+
+        if( ( ret = mbedtls_mpi_mod_mpi( &R, A, &B ) ) == 0 )
+            *r = ( R.n == 0 ) ? 0 : R.p[0];
+
+        mbedtls_mpi_free( &R );
+
+        return( ret );
+    }
+
     /*
      * general case
      */
-- 
2.43.0


From f83dd9badc5182d9ec17668d1d1b975ba405542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:16 +0000
Subject: [PATCH 29/38] fix: the primality test frees its numbers when no base
 is found

---
 src/mbedtls/bignum.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index 338f889..b922862 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -2080,7 +2080,8 @@ static int mpi_miller_rabin( const mbedtls_mpi *X,
             }
 
             if (count++ > 30) {
-                return MBEDTLS_ERR_MPI_NOT_ACCEPTABLE;
+                ret = MBEDTLS_ERR_MPI_NOT_ACCEPTABLE;
+                goto cleanup;
             }
 
         } while ( mbedtls_mpi_cmp_mpi( &A, &W ) >= 0 ||
-- 
2.43.0


From 14f34c0131a4692d2347875e16458fa98549a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:46 +0000
Subject: [PATCH 30/38] fix: modular power of a number without limbs

---
 src/mbedtls/bignum.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index b922862..d416c32 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -1651,6 +1651,9 @@ int mbedtls_mpi_exp_mod( mbedtls_mpi *X, const mbedtls_mpi *A, const mbedtls_mpi
     else
         MBEDTLS_MPI_CHK( mbedtls_mpi_copy( &W[1], A ) );
 
+    /* copying a number without limbs frees the destination */
+    MBEDTLS_MPI_CHK( mbedtls_mpi_grow( &W[1], N->n + 1 ) );
+
     MBEDTLS_MPI_CHK( mpi_montmul( &W[1], &RR, N, mm, &T ) );
 
     /*
-- 
2.43.0


From b41b7da89aff0f405c6128f644e4903155ecf138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:14 +0000
Subject: [PATCH 31/38] fix: primes slightly above a power of two were declared
 composite

---
 src/mbedtls/bignum.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mbedtls/bignum.c b/src/mbedtls/bignum.c
index d416c32..1603781 100644
--- a/src/mbedtls/bignum.c
+++ b/src/mbedtls/bignum.c
@@ -2078,9 +2078,13 @@ static int mpi_miller_rabin( const mbedtls_mpi *X,
 
             j = mbedtls_mpi_bitlen( &A );
             k = mbedtls_mpi_bitlen( &W );
-            if (j > k) {
-                MBEDTLS_MPI_CHK( mbedtls_mpi_shift_r( &A, j - k ) );
-            }
+            /*
+             * Drop the bits beyond the size of W. (Shifting them out would
+             * always leave the top bit set, and never give a number smaller
+             * than W when W is close to a power of two.)
+             */
+            while( j > k )
+                MBEDTLS_MPI_CHK( mbedtls_mpi_set_bit( &A, --j, 0 ) );
 
             if (count++ > 30) {
                 ret = MBEDTLS_ERR_MPI_NOT_ACCEPTABLE;
-- 
2.43.0


From 607f5169ffbc196dc6c0ea3e032df959d14e9d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:16 +0000
Subject: [PATCH 32/38] fix: refuse base64 text that ends inside a group of
 four symbols

Such a text was accepted: its last bytes were dropped silently, and the
announced length did not match the decoded one ("=" even wrapped it around).
---
 src/mbedtls/base64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mbedtls/base64.c b/src/mbedtls/base64.c
index f46b675..a49aef1 100644
--- a/src/mbedtls/base64.c
+++ b/src/mbedtls/base64.c
@@ -195,6 +195,10 @@ int mbedtls_base64_decode( unsigned char *dst, size_t dlen, size_t *olen,
         return( 0 );
     }
 
+    /* The text is made of complete groups of four symbols */
+    if( n % 4 != 0 )
+        return( MBEDTLS_ERR_BASE64_INVALID_CHARACTER );
+
     /* The following expression is to calculate the following formula without
      * risk of integer overflow in n:
      *     n = ( ( n * 6 ) + 7 ) >> 3;
-- 
2.43.0


From e84b22e508a0bab8fba0ed05dc7718a2fe8512ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:16 +0000
Subject: [PATCH 33/38] fix: DER encoding of the number zero

It was written with an empty content, which is not a valid INTEGER, and
the sign test looked at the byte behind the position, outside the buffer
when writing at its end.
---
 src/mbedtls/asn1write.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mbedtls/asn1write.c b/src/mbedtls/asn1write.c
index f3f75df..726ed9a 100644
--- a/src/mbedtls/asn1write.c
+++ b/src/mbedtls/asn1write.c
@@ -138,6 +138,11 @@ int mbedtls_asn1_write_mpi( unsigned char **p, unsigned char *start, const mbedt
     //
     len = mbedtls_mpi_size( X );
 
+    // DER represents 0 with one (zero) octet, not with an empty content
+    //
+    if( len == 0 )
+        len = 1;
+
     if( *p < start || (size_t)( *p - start ) < len )
         return( MBEDTLS_ERR_ASN1_BUF_TOO_SMALL );
 
-- 
2.43.0


From 48ed450350dade53c2d6b44cfa0e31d2ae9f5fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:10 +0000
Subject: [PATCH 34/38] fix: DER encoding of integers above 255

Only the low byte was written.
---
 src/mbedtls/asn1write.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/mbedtls/asn1write.c b/src/mbedtls/asn1write.c
index 726ed9a..62fb32b 100644
--- a/src/mbedtls/asn1write.c
+++ b/src/mbedtls/asn1write.c
@@ -241,21 +241,24 @@ int mbedtls_asn1_write_int( unsigned char **p, unsigned char *start, int val )
     int ret;
     size_t len = 0;
 
-    // TODO negative values and values larger than 128
+    const int positive = ( val > 0 );
+
+    // TODO negative values below -128
     // DER format assumes 2s complement for numbers, so the leftmost bit
     // should be 0 for positive numbers and 1 for negative numbers.
     //
-    if( *p - start < 1 )
-        return( MBEDTLS_ERR_ASN1_BUF_TOO_SMALL );
+    do
+    {
+        if( *p - start < 1 )
+            return( MBEDTLS_ERR_ASN1_BUF_TOO_SMALL );
 
-    len += 1;
-#pragma GCC diagnostic push
-// The only val value used in our code base is 0
-#pragma GCC diagnostic ignored "-Wconversion"
-    *--(*p) = val;
-#pragma GCC diagnostic pop
+        len += 1;
+        *--(*p) = (unsigned char) ( val & 0xFF );
+        val >>= 8;
+    }
+    while( val > 0 );
 
-    if( val > 0 && **p & 0x80 )
+    if( positive && **p & 0x80 )
     {
         if( *p - start < 1 )
             return( MBEDTLS_ERR_ASN1_BUF_TOO_SMALL );
-- 
2.43.0


From 69ebad00f2de26808e0ec225449ec6760e7cdc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:26 +0000
Subject: [PATCH 35/38] fix: a punctured key share for the reserved tag is
 refused

---
 src/ppke/GMPpke.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ppke/GMPpke.cpp b/src/ppke/GMPpke.cpp
index 98b7798..5bdb4e9 100644
--- a/src/ppke/GMPpke.cpp
+++ b/src/ppke/GMPpke.cpp
@@ -283,11 +283,15 @@ GmppkePrivateKeyShare Gmppke::skShareGen(
     size_t                                      d,
     const tag_type&                             tag) const
 {
+    if (tag == NULLTAG) {
+        throw std::invalid_argument(
+            "Invalid tag: the NULLTAG is reserved and cannot be used.");
+    }
+
     const ZR              h = group.hashListToZR(tag);
     GmppkePrivateKeyShare share;
 
     assert(d > 0);
-    assert(tag != NULLTAG);
     std::string d_string = std::to_string(d);
 
     const ZR r1 = group.pseudoRandomZR(prf, ("param_r1_" + d_string));
-- 
2.43.0


From a1faed7347d1209fffa6a3a5090c01bbf1685b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:26 +0000
Subject: [PATCH 36/38] fix: printing a group element does not read past its
 encoding

---
 src/ppke/relic_wrapper/relic_api.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ppke/relic_wrapper/relic_api.cpp b/src/ppke/relic_wrapper/relic_api.cpp
index 409de63..9e68616 100644
--- a/src/ppke/relic_wrapper/relic_api.cpp
+++ b/src/ppke/relic_wrapper/relic_api.cpp
@@ -378,7 +378,7 @@ std::ostream& operator<<(std::ostream& s, const G1& g1)
     auto data = g1.getBytes();
     s << "0x";
     for (auto i : data) {
-        s << std::hex << static_cast<unsigned int>(data[i]);
+        s << std::hex << static_cast<unsigned int>(i);
     }
     s << std::endl;
 
@@ -497,7 +497,7 @@ std::ostream& operator<<(std::ostream& s, const G2& g2)
     auto data = g2.getBytes();
     s << "0x";
     for (auto i : data) {
-        s << std::hex << static_cast<unsigned int>(data[i]);
+        s << std::hex << static_cast<unsigned int>(i);
     }
     s << std::endl;
 
@@ -640,7 +640,7 @@ std::ostream& operator<<(std::ostream& s, const GT& gt)
     auto data = gt.getBytes();
     s << "0x";
     for (auto i : data) {
-        s << std::hex << static_cast<unsigned int>(data[i]);
+        s << std::hex << static_cast<unsigned int>(i);
     }
     s << std::endl;
 
-- 
2.43.0


From 8c154ca38f0622a774cb169560879d4e24012798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:19 +0000
Subject: [PATCH 37/38] fix: assigning a pool implementation also assigns its
 first key

---
 src/tdp_impl/tdp_impl_mbedtls.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tdp_impl/tdp_impl_mbedtls.cpp b/src/tdp_impl/tdp_impl_mbedtls.cpp
index 44987df..46dd211 100644
--- a/src/tdp_impl/tdp_impl_mbedtls.cpp
+++ b/src/tdp_impl/tdp_impl_mbedtls.cpp
@@ -786,6 +786,9 @@ TdpMultPoolImpl_mbedTLS& TdpMultPoolImpl_mbedTLS::operator=(
     const TdpMultPoolImpl_mbedTLS& t)
 {
     if (this != &t) {
+        // the first order is evaluated with the key of the base class
+        TdpImpl_mbedTLS::operator=(t);
+
         for (uint8_t i = 0; i < keys_count_; i++) {
             zeroize_rsa(&keys_[i]);
             mbedtls_rsa_free(&keys_[i]);
@@ -793,9 +796,10 @@ TdpMultPoolImpl_mbedTLS& TdpMultPoolImpl_mbedTLS::operator=(
 
         if (keys_count_ != t.keys_count_) {
             // realloc the key array
+            mbedtls_rsa_context* keys = new mbedtls_rsa_context[t.keys_count_];
             delete[] keys_;
             keys_count_ = t.keys_count_;
-            keys_       = new mbedtls_rsa_context[keys_count_];
+            keys_       = keys;
         }
 
         for (uint8_t i = 0; i < keys_count_; i++) {
-- 
2.43.0


From 7aaf98c0b087f0973dc67787b8ab84338c0b081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:11 +0000
Subject: [PATCH 38/38] fix: a key whose memory cannot be locked is freed

The Key constructors threw without freeing the protected memory when
locking it failed; the destructor of a partly constructed object does
not run, so the (readable) key was lost in memory.
---
 src/include/sse/crypto/key.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/include/sse/crypto/key.hpp b/src/include/sse/crypto/key.hpp
index b75f0f2..717a971 100644
--- a/src/include/sse/crypto/key.hpp
+++ b/src/include/sse/crypto/key.hpp
@@ -118,8 +118,11 @@ public:
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
+            const int error = errno;
+            // the destructor will not be called
+            sodium_free(content_);
             throw std::runtime_error("Error when locking memory: "
-                                     + std::string(strerror(errno)));
+                                     + std::string(strerror(error)));
             /* LCOV_EXCL_STOP */
         }
         is_locked_ = true;
@@ -157,8 +160,11 @@ public:
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
+            const int error = errno;
+            // the destructor will not be called
+            sodium_free(content_);
             throw std::runtime_error("Error when locking memory: "
-                                     + std::string(strerror(errno)));
+                                     + std::string(strerror(error)));
             /* LCOV_EXCL_STOP */
         }
         is_locked_ = true;
@@ -272,8 +278,11 @@ private:
         int err = sodium_mprotect_noaccess(content_);
         if (err == -1 && errno != ENOSYS) {
             /* LCOV_EXCL_START */
+            const int error = errno;
+            // the destructor will not be called
+            sodium_free(content_);
             throw std::runtime_error("Error when locking memory: "
-                                     + std::string(strerror(errno)));
+                                     + std::string(strerror(error)));
             /* LCOV_EXCL_STOP */
         }
         is_locked_ = true;
-- 
2.43.0

