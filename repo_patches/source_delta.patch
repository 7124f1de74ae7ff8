From 8bad02ad4c07bdbd4e9526ba24b3669b806ce404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:09 +0000
Subject: [PATCH 01/33] fix: strict BQFC decoding must reject encodings of
 non-reduced forms

The strict uniqueness gate only compared |b| with a, so a self-consistent
encoding of (a, b) with a > c was still accepted as an alias of the reduced
form's encoding.
---
 src/bqfc.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/bqfc.c b/src/bqfc.c
index 1e164fe..6897df5 100644
--- a/src/bqfc.c
+++ b/src/bqfc.c
@@ -307,6 +307,27 @@ static int bqfc_verify_canon(mpz_t a, mpz_t b, const uint8_t *str, size_t d_bits
     return memcmp(canon_str, str, BQFC_FORM_SIZE);
 }
 
+/* |b| <= a <= c, with b >= 0 in case of equality; 4ac = b^2 - D */
+static bool bqfc_is_reduced(const mpz_t a, const mpz_t b, const mpz_t D)
+{
+    mpz_t ac4, aa4;
+    int cmp_ba, cmp_ac;
+
+    mpz_inits(ac4, aa4, NULL);
+    mpz_mul(ac4, b, b);
+    mpz_sub(ac4, ac4, D);
+    mpz_mul(aa4, a, a);
+    mpz_mul_2exp(aa4, aa4, 2);
+
+    cmp_ba = mpz_cmpabs(b, a);
+    cmp_ac = mpz_cmp(aa4, ac4);
+    mpz_clears(ac4, aa4, NULL);
+
+    if (cmp_ba > 0 || cmp_ac > 0)
+        return false;
+    return mpz_sgn(b) >= 0 || (cmp_ba != 0 && cmp_ac != 0);
+}
+
 int bqfc_deserialize(mpz_t out_a, mpz_t out_b, const mpz_t D, const uint8_t *str,
                      size_t size, size_t d_bits, bool strict)
 {
@@ -335,6 +356,11 @@ int bqfc_deserialize(mpz_t out_a, mpz_t out_b, const mpz_t D, const uint8_t *str
     if (ret)
         goto out;
 
+    if (strict && !bqfc_is_reduced(out_a, out_b, D)) {
+        ret = -1;
+        goto out;
+    }
+
     ret = bqfc_verify_canon(out_a, out_b, str, d_bits);
 out:
     mpz_clears(f_c.a, f_c.t, f_c.g, f_c.b0, NULL);
-- 
2.43.0


From d633903e1525a38f07cca8ea4bba74b5f0fd22d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:09 +0000
Subject: [PATCH 02/33] fix: the primality test called primes up to 233
 composite

They divide the products of small primes, so the GCD step rejected them and
hash primes of 8 bits skipped every admissible value but one.
---
 src/primetest.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/primetest.h b/src/primetest.h
index 8d824e2..68a239b 100644
--- a/src/primetest.h
+++ b/src/primetest.h
@@ -128,6 +128,17 @@ out:
     return res;
 }
 
+static bool is_small_prime(unsigned long n)
+{
+    if (n < 2)
+        return false;
+    for (unsigned long p = 2; p * p <= n; p++) {
+        if (n % p == 0)
+            return false;
+    }
+    return true;
+}
+
 /*
  * This is a "strengthened" Baillie-PSW primality test based on "Strengthening
  * the Baillie-PSW primality test" paper (https://arxiv.org/abs/2006.14425).
@@ -147,6 +158,10 @@ static int is_prime_bpsw(const mpz_t n)
     int min_pprods = 5, n_pprods = sizeof(pprods) / sizeof(*pprods);
     mpz_t b, d;
 
+    /* Small primes divide the products below, so decide them separately. */
+    if (mpz_cmp_ui(n, 1 << 16) < 0)
+        return mpz_sgn(n) > 0 && is_small_prime(mpz_get_ui(n)) ? 2 : 0;
+
     /* Discard even numbers. */
     if (!mpz_tstbit(n, 0) && mpz_cmp_ui(n, 2))
         return 0;
-- 
2.43.0


From d78d2105e8a6ad9567e334c8c2d7a68078ad2363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 03/33] fix: refuse a non-negative discriminant instead of
 dying with SIGFPE

Forms of a positive discriminant have a negative c, so reducing or taking the
fourth root of -D raised SIGFPE in the calling process.
---
 src/proof_common.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proof_common.h b/src/proof_common.h
index 5cf32c8..2699a11 100644
--- a/src/proof_common.h
+++ b/src/proof_common.h
@@ -54,6 +54,9 @@ std::vector<unsigned char> SerializeForm(form &y, int d_bits)
 form DeserializeForm(const integer &D, const uint8_t *bytes, size_t size,
                      bool strict = false)
 {
+    if (mpz_sgn(D.impl) >= 0) {
+        throw std::runtime_error("Discriminant is not negative");
+    }
     integer a, b;
     if (bqfc_deserialize(a.impl, b.impl, D.impl, bytes, size, D.num_bits(), strict)) {
         throw std::runtime_error("Deserializing compressed form failed");
-- 
2.43.0


From ad526239b8aa25791c5bb41025aa66a2f08a0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 04/33] fix: bindings must not read past a short initial form

verify_n_wesolowski and its relatives hand a bare pointer to the verifier, which
reads 100 bytes; a shorter argument was read out of bounds (and a longer one
silently truncated).
---
 rust_bindings/src/lib.rs        | 10 +++++++++-
 src/python_bindings/fastvdf.cpp | 11 +++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/rust_bindings/src/lib.rs b/rust_bindings/src/lib.rs
index fc4c91d..d30abe0 100644
--- a/rust_bindings/src/lib.rs
+++ b/rust_bindings/src/lib.rs
@@ -9,6 +9,9 @@ mod bindings {
     include!(concat!(env!("OUT_DIR"), "/bindings.rs"));
 }
 
+/// Size of a serialized form, `BQFC_FORM_SIZE`.
+const FORM_SIZE: usize = 100;
+
 pub fn create_discriminant(seed: &[u8], result: &mut [u8]) -> bool {
     // SAFETY: The length of each individual array is passed in as to prevent buffer overflows.
     // Exceptions are handled on the C++ side and None is returned if so.
@@ -29,7 +32,12 @@ pub fn verify_n_wesolowski(
     num_iterations: u64,
     recursion: u64,
 ) -> bool {
-    // SAFETY: The length of each individual array is passed in as to prevent buffer overflows.
+    // The wrapper reads a whole serialized form from `x_s`, whose length is not passed in.
+    if x_s.len() != FORM_SIZE {
+        return false;
+    }
+
+    // SAFETY: The length of each other individual array is passed in as to prevent buffer overflows.
     // Exceptions are handled on the C++ side and false is returned if so.
     unsafe {
         bindings::verify_n_wesolowski_wrapper(
diff --git a/src/python_bindings/fastvdf.cpp b/src/python_bindings/fastvdf.cpp
index 9af6750..57312d5 100644
--- a/src/python_bindings/fastvdf.cpp
+++ b/src/python_bindings/fastvdf.cpp
@@ -25,6 +25,13 @@ static py::bytes to_signed_bytes_be(const integer& value) {
     return py::bytes(out);
 }
 
+// The N wesolowski verifier takes a bare pointer to the initial form.
+static void check_form_size(const std::string& x_s) {
+    if (x_s.size() != BQFC_FORM_SIZE) {
+        throw std::runtime_error("expected 100-byte initial form");
+    }
+}
+
 PYBIND11_MODULE(_chiavdf, m) {
     m.doc() = "Chia proof of time";
 
@@ -73,6 +80,7 @@ PYBIND11_MODULE(_chiavdf, m) {
         std::string proof_blob_copy(proof_blob);
         uint8_t *proof_blob_ptr = reinterpret_cast<uint8_t *>(proof_blob_copy.data());
         bool is_valid = false;
+        check_form_size(x_s_copy);
         {
             py::gil_scoped_release release;
             is_valid=CheckProofOfTimeNWesolowski(integer(discriminant_copy), (const uint8_t *)x_s_copy.data(), proof_blob_ptr, proof_blob_copy.size(), num_iterations, disc_size_bits, recursion);
@@ -92,6 +100,7 @@ PYBIND11_MODULE(_chiavdf, m) {
         std::string x_s_copy(x_s);
         std::string proof_blob_copy(proof_blob);
         bool is_valid = false;
+        check_form_size(x_s_copy);
         {
             py::gil_scoped_release release;
             is_valid=CreateDiscriminantAndCheckProofOfTimeNWesolowski(challenge_hash_bits, discriminant_size_bits,(const uint8_t *)x_s_copy.data(), (const uint8_t *)proof_blob_copy.data(), proof_blob_copy.size(), num_iterations, recursion);
@@ -129,6 +138,7 @@ PYBIND11_MODULE(_chiavdf, m) {
         std::string x_s_copy(x_s);
         std::string proof_blob_copy(proof_blob);
         std::pair<bool, std::vector<uint8_t>> result;
+        check_form_size(x_s_copy);
         {
             py::gil_scoped_release release;
             uint8_t *proof_blob_ptr = reinterpret_cast<uint8_t *>(proof_blob_copy.data());
@@ -160,6 +170,7 @@ PYBIND11_MODULE(_chiavdf, m) {
         std::string x_s_copy(x_s);
         std::string proof_blob_copy(proof_blob);
         integer B;
+        check_form_size(x_s_copy);
         {
             py::gil_scoped_release release;
             uint8_t *proof_blob_ptr = reinterpret_cast<uint8_t *>(proof_blob_copy.data());
-- 
2.43.0


From 5f534a0f060275af15bd0a58f0724ba4ad136e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:02 +0000
Subject: [PATCH 05/33] hook: fault and schedule points of the squaring
 pipeline (CHIAVDF_VERIF)

---
 src/integer.h   | 11 +++++++++++
 src/threading.h | 23 +++++++++++++++++++++++
 src/vdf_fast.h  | 11 +++++++++++
 3 files changed, 45 insertions(+)

diff --git a/src/integer.h b/src/integer.h
index 1bb9428..94a4a04 100644
--- a/src/integer.h
+++ b/src/integer.h
@@ -30,7 +30,18 @@ void xgcd_partial(integer& u, integer& v, integer& a, integer& b, const integer&
     mpz_clear(f_L);
 }
 
+#ifdef CHIAVDF_VERIF
+//may change an intermediate value of the squaring pipeline (a hardware or arithmetic fault)
+inline void (*chiavdf_verif_value)(mpz_struct* i)=nullptr;
+#endif
+
 void inject_error(mpz_struct* i) {
+    #ifdef CHIAVDF_VERIF
+    if (chiavdf_verif_value) {
+        chiavdf_verif_value(i);
+    }
+    #endif
+
     if (!enable_random_error_injection) {
         return;
     }
diff --git a/src/threading.h b/src/threading.h
index 2f46af1..d4172f9 100644
--- a/src/threading.h
+++ b/src/threading.h
@@ -569,6 +569,13 @@ struct alignas(64) thread_counter {
 thread_counter master_counter[100];
 thread_counter slave_counter[100];
 
+#ifdef CHIAVDF_VERIF
+//called at each synchronisation point of the two-thread pipeline (0: before a fence; 1: while waiting in a fence; 2: before an advance;
+//3: after the quotient steps of a gcd).
+//returning false makes this thread fail at that point
+inline bool (*chiavdf_verif_sync)(bool is_slave, int kind, uint64 value)=nullptr;
+#endif
+
 struct thread_state {
     int pairindex;
     bool is_slave=false;
@@ -605,6 +612,10 @@ struct thread_state {
     //waits for the other thread to have at least this counter value
     //returns false if an error has been raised
     bool fence_absolute(uint64 t_v) {
+        #ifdef CHIAVDF_VERIF
+        if (chiavdf_verif_sync && !chiavdf_verif_sync(is_slave, 0, t_v)) raise_error();
+        #endif
+
         if (last_fence>=t_v) {
             return true;
         }
@@ -626,6 +637,10 @@ struct thread_state {
             }
 
             ++spin_counter;
+
+            #ifdef CHIAVDF_VERIF
+            if (chiavdf_verif_sync && !chiavdf_verif_sync(is_slave, 1, t_v)) raise_error();
+            #endif
         }
 
         if (!(this_counter().error_flag)) {
@@ -642,6 +657,10 @@ struct thread_state {
     //increases this thread's counter value. it can only be increased
     //returns false if an error has been raised
     bool advance_absolute(uint64 t_v) {
+        #ifdef CHIAVDF_VERIF
+        if (chiavdf_verif_sync && !chiavdf_verif_sync(is_slave, 2, t_v)) raise_error();
+        #endif
+
         if (t_v==v()) {
             return true;
         }
@@ -795,6 +814,10 @@ template<class mpz_type> bool gcd_unsigned(
         asm_code::asm_avx2_func_gcd_unsigned(&data) :
         asm_code::asm_cel_func_gcd_unsigned(&data);
 
+    #ifdef CHIAVDF_VERIF
+    if (chiavdf_verif_sync && !chiavdf_verif_sync(c_thread_state.is_slave, 3, 0)) error_code=1;
+    #endif
+
     if (error_code!=0) {
         c_thread_state.raise_error();
         return false;
diff --git a/src/vdf_fast.h b/src/vdf_fast.h
index 8372865..e842832 100644
--- a/src/vdf_fast.h
+++ b/src/vdf_fast.h
@@ -1141,9 +1141,20 @@ uint64 repeated_square_fast_single_thread(square_state_type &square_state, form&
     return res;
 }
 
+#ifdef CHIAVDF_VERIF
+//when set, called instead of the two-thread pipeline (it may call the pipeline itself)
+inline uint64 (*chiavdf_verif_fast)(square_state_type &square_state,form& f, const integer& D, const integer& L, uint64 base, uint64 iterations, INUDUPLListener *nuduplListener)=nullptr;
+#endif
+
 //returns number of iterations performed
 //if this returns ~0, the discriminant was invalid and the inputs are unchanged
 uint64 repeated_square_fast(square_state_type &square_state,form& f, const integer& D, const integer& L, uint64 base, uint64 iterations, INUDUPLListener *nuduplListener) {
+    #ifdef CHIAVDF_VERIF
+    if (chiavdf_verif_fast) {
+        return chiavdf_verif_fast(square_state, f, D, L, base, iterations, nuduplListener);
+    }
+    #endif
+
 
     if (enable_threads) {
         return repeated_square_fast_multithread(square_state, f, D, L, base, iterations, nuduplListener);
-- 
2.43.0


From 21310df5f3d1c8445db6d3688fe6cee32c42a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:09 +0000
Subject: [PATCH 06/33] fix: a stop during 1-Wesolowski proof generation must
 not wait forever

---
 src/vdf.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index 3cfe197..fc9032e 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -329,9 +329,12 @@ Proof ProveOneWesolowski(uint64_t iters, integer& D, form f, OneWesolowskiCallba
     );
     OneWesolowskiProver prover(sg, D, weso->forms.get(), stopped);
     prover.start();
-    while (!prover.IsFinished()) {
+    // A stopped prover never finishes.
+    while (!stopped && !prover.IsFinished()) {
         this_thread::sleep_for(1s);
     }
+    if (stopped)
+        return Proof();
     int d_bits = D.num_bits();
     std::vector<unsigned char> y_serialized;
     std::vector<unsigned char> proof_serialized;
-- 
2.43.0


From bef3427d607ae7c4b11516b5b2515e517e05c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:16 +0000
Subject: [PATCH 07/33] hook: stand-in for the segment provers
 (CHIAVDF_VERIF_PROVERS)

---
 src/provers.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/provers.h b/src/provers.h
index ffb1245..4307083 100644
--- a/src/provers.h
+++ b/src/provers.h
@@ -207,4 +207,8 @@ class InterruptableProver: public Prover {
     int bucket;
 };
 
+#if defined(CHIAVDF_VERIF) && defined(CHIAVDF_VERIF_PROVERS)
+#include CHIAVDF_VERIF_PROVERS // a test may stand in for the provers the manager starts
+#endif
+
 #endif // PROVERS_H
-- 
2.43.0


From 2d8176e0c5f15157727ca0e5f9d3f3e32256db0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:23 +0000
Subject: [PATCH 08/33] fix: n-weso proofs must not use a segment that is not
 proved yet

Prove() collects finished segments of every length, but a segment of some
length can finish before an earlier one of the same length; the earlier one
is then a placeholder, and using it crashed the client (division by zero).
---
 src/vdf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index fc9032e..c7ed1c1 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -546,7 +546,8 @@ class ProverManager {
             for (int i = segment_count - 1; i >= 0; i--) {
                 uint64_t segment_size = (1LL << (16 + 2 * i));
                 uint64_t position = proved_iters / segment_size;
-                while (position < done_segments[i].size() && proved_iters + segment_size <= iteration) {
+                while (position < done_segments[i].size() && !done_segments[i][position].is_empty &&
+                       proved_iters + segment_size <= iteration) {
                     proof_segments.emplace_back(done_segments[i][position]);
                     position++;
                     proved_iters += segment_size;
-- 
2.43.0


From f935f684abc6a8c28a47fd2a3dc7cd10dc17f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:24 +0000
Subject: [PATCH 09/33] fix: stopping the prover manager must wake every
 waiting request

'stopped' is set without the mutexes the requests wait with, so a request
that had just checked it could miss the notification and wait forever.
---
 src/vdf.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vdf.h b/src/vdf.h
index c7ed1c1..ea5ca2d 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -472,8 +472,15 @@ class ProverManager {
         }
         std::cout << "Segment provers finished.\n" << std::flush;
 
-        proof_cv.notify_all();
-        last_segment_cv.notify_all();
+        // With the mutexes held, no request can be between checking 'stopped' and waiting.
+        {
+            std::lock_guard<std::mutex> lk(proof_mutex);
+            proof_cv.notify_all();
+        }
+        {
+            std::lock_guard<std::mutex> lk(last_segment_mutex);
+            last_segment_cv.notify_all();
+        }
     }
 
     Proof Prove(uint64_t iteration) {
-- 
2.43.0


From ca5d5b26bc2e31799f37da88a4759da826414505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:23 +0000
Subject: [PATCH 10/33] fix: do not prove a segment whose end the squaring loop
 has not stored yet

With FastStorage the background workers can complete a segment before the
squaring loop has passed its end and written weso->checkpoints there; the
manager then built the segment from an unset checkpoint (SIGFPE in the
prover, or a wrong proof).
---
 src/vdf.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index ea5ca2d..f0e7720 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -715,7 +715,10 @@ class ProverManager {
             }
 
             if (fast_storage != NULL) {
-                intermediates_iter = fast_storage -> GetFinishedSegment();
+                // The workers may be ahead of the squaring loop, which stores the
+                // checkpoint that ends a segment only when it passes it.
+                intermediates_iter = std::min<uint64_t>(
+                    fast_storage -> GetFinishedSegment(), vdf_iteration);
             } else {
                 intermediates_iter = vdf_iteration;
             }
-- 
2.43.0


From 6b79ce866b3b84a74855cb82e29e7dd7dbea85d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:56 +0000
Subject: [PATCH 11/33] fix: 2-weso sessions must refuse counts above the
 supported maximum

The limit compared with kMaxProcessesAllowed - 500000, which is negative and
became a huge unsigned number, so counts that the squaring loop never reaches
were accepted and never answered.
---
 src/vdf_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 58dc0af..169a7b5 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -294,7 +294,7 @@ void SessionTwoWeso(tcp::socket& sock) {
                     PrintInfo("Duplicate iteration " + to_string(iters) + "... Ignoring.");
                     continue;
                 }
-                if (iters >= kMaxProcessesAllowed - 500000) {
+                if (iters >= kMaxItersAllowed - 500000) {
                     PrintInfo("Too big iter... ignoring");
                     continue;
                 }
-- 
2.43.0


From 73e0c0a68f470d97353ef1e36cc4015c50114e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:56 +0000
Subject: [PATCH 12/33] fix: the 101st request of a 2-weso session wrote past
 the stop flags

After 100 requests a smaller one still starts a thread; its stop flag was
element 100 of an array of 100 (and so on for the following ones).
---
 src/vdf_client.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 169a7b5..c432baf 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -3,6 +3,7 @@
 #include "version.hpp"
 #include "vdf_client_session.h"
 #include <atomic>
+#include <deque>
 
 using boost::asio::ip::tcp;
 
@@ -252,7 +253,8 @@ void SessionTwoWeso(tcp::socket& sock) {
         boost::asio::write(sock, boost::asio::buffer("OK", 2));
 
         std::atomic<bool> stopped(false);
-        std::atomic<bool> stop_vector[100];
+        // Grows with 'threads'; references stay valid.
+        std::deque<std::atomic<bool>> stop_vector;
         std::vector<std::thread> threads;
         // (iteration, thread_id)
         std::set<std::pair<uint64_t, uint64_t> > seen_iterations;
@@ -301,9 +303,9 @@ void SessionTwoWeso(tcp::socket& sock) {
                 if (threads.size() < kMaxProcessesAllowed || iters < min_iter) {
                     seen_iterations.insert({iters, threads.size()});
                     PrintInfo("Running proving for iter: " + to_string(iters));
-                    stop_vector[threads.size()] = false;
+                    stop_vector.emplace_back(false);
                     threads.push_back(std::thread(CreateAndWriteProofTwoWeso, std::ref(D), f, iters,
-                                      (TwoWesolowskiCallback*)weso, std::ref(stop_vector[threads.size()]),
+                                      (TwoWesolowskiCallback*)weso, std::ref(stop_vector.back()),
                                       std::ref(sock)));
                     if (threads.size() > kMaxProcessesAllowed) {
                         PrintInfo("Stopping proving for iter: " + to_string(max_iter));
-- 
2.43.0


From 8145feb2ab11429da125fb56fd63f95a4309be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:56 +0000
Subject: [PATCH 13/33] fix: refuse a non-negative discriminant in client
 sessions

root(-D, 4) of a positive discriminant died with SIGFPE.
---
 src/vdf_client.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index c432baf..fc2c3ad 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -154,11 +154,19 @@ uint64_t ReadIteration(tcp::socket& sock) {
     return iters;
 }
 
+integer ReadDiscriminant() {
+    integer D(disc);
+    if (mpz_sgn(D.impl) >= 0) {
+        throw std::runtime_error("Discriminant must be negative");
+    }
+    return D;
+}
+
 void SessionFastAlgorithm(tcp::socket& sock) {
     InitSession(sock);
     ConfigureSessionRuntime();
     try {
-        integer D(disc);
+        integer D = ReadDiscriminant();
         integer L = root(-D, 4);
         PrintInfo("Discriminant = " + to_string(D.impl));
         form f = DeserializeForm(D, initial_form_s, sizeof(initial_form_s));
@@ -207,7 +215,7 @@ void SessionOneWeso(tcp::socket& sock) {
     InitSession(sock);
     ConfigureSessionRuntime();
     try {
-        integer D(disc);
+        integer D = ReadDiscriminant();
         integer L = root(-D, 4);
         PrintInfo("Discriminant = " + to_string(D.impl));
         form f = DeserializeForm(D, initial_form_s, sizeof(initial_form_s));
@@ -244,7 +252,7 @@ void SessionTwoWeso(tcp::socket& sock) {
     InitSession(sock);
     ConfigureSessionRuntime();
     try {
-        integer D(disc);
+        integer D = ReadDiscriminant();
         integer L = root(-D, 4);
         PrintInfo("Discriminant = " + to_string(D.impl));
         form f = DeserializeForm(D, initial_form_s, sizeof(initial_form_s));
-- 
2.43.0


From 4c5c81e8106690e3b8d8882ecd5445562d8725b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:56 +0000
Subject: [PATCH 14/33] fix: a lost connection or malformed message must stop
 the session's threads

ReadIteration threw through the session functions while the squaring loop, the
prover manager and the proving threads were running; destroying the joinable
threads terminated the process (or hung in a condition variable's destructor).
---
 src/vdf_client.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index fc2c3ad..354ac8e 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -162,6 +162,17 @@ integer ReadDiscriminant() {
     return D;
 }
 
+// For use while worker threads are running: a lost connection or a malformed
+// message ends the session the way a stop message does.
+uint64_t ReadIterationOrStop(tcp::socket& sock) {
+    try {
+        return ReadIteration(sock);
+    } catch (std::exception& e) {
+        PrintInfo("Exception in thread: " + to_string(e.what()));
+        return 0;
+    }
+}
+
 void SessionFastAlgorithm(tcp::socket& sock) {
     InitSession(sock);
     ConfigureSessionRuntime();
@@ -187,7 +198,7 @@ void SessionFastAlgorithm(tcp::socket& sock) {
         boost::asio::write(sock, boost::asio::buffer("OK", 2));
 
         while (!stopped) {
-            uint64_t iters = ReadIteration(sock);
+            uint64_t iters = ReadIterationOrStop(sock);
             if (iters == 0) {
                 PrintInfo("Got stop signal!");
                 stopped = true;
@@ -232,10 +243,10 @@ void SessionOneWeso(tcp::socket& sock) {
         FastStorage* fast_storage = NULL;
         std::thread vdf_worker(repeated_square, iter, f, std::ref(D), std::ref(L), weso, fast_storage, std::ref(stopped));
         std::thread th_prover(CreateAndWriteProofOneWeso, iter, std::ref(D), f, (OneWesolowskiCallback*)weso, std::ref(stopped), std::ref(sock));
-        iter = ReadIteration(sock);
+        iter = ReadIterationOrStop(sock);
         while (iter != 0) {
             std::cout << "Warning: did not receive stop signal\n";
-            iter = ReadIteration(sock);
+            iter = ReadIterationOrStop(sock);
         }
         stopped = true;
         vdf_worker.join();
@@ -271,7 +282,7 @@ void SessionTwoWeso(tcp::socket& sock) {
         std::thread vdf_worker(repeated_square, 0, f, std::ref(D), std::ref(L), weso, fast_storage, std::ref(stopped));
 
         while (!stopped) {
-            uint64_t iters = ReadIteration(sock);
+            uint64_t iters = ReadIterationOrStop(sock);
             if (iters == 0) {
                 PrintInfo("Got stop signal!");
                 stopped = true;
-- 
2.43.0


From 980e2f295dddd7e9402b6a56aa9996e15378010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:56 +0000
Subject: [PATCH 15/33] fix: a proof that cannot be sent must not terminate the
 process

WriteProof runs in a proving thread, where an exception from a connection that
the peer has closed ended in std::terminate.
---
 src/vdf_client.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 354ac8e..46a74e5 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -44,10 +44,14 @@ void WriteProof(uint64_t iteration, Proof& result, tcp::socket& sock) {
     Int32ToBytes(int_bytes, str_result.size());
 
     PrintInfo("Sending proof");
-    {
+    try {
         std::lock_guard<std::mutex> lock(socket_mutex);
         boost::asio::write(sock, boost::asio::buffer(int_bytes, 4));
         boost::asio::write(sock, boost::asio::buffer(str_result.c_str(), str_result.size()));
+    } catch (std::exception& e) {
+        // Runs in a proving thread: the session notices the lost connection by itself.
+        PrintInfo("Exception in thread: " + to_string(e.what()));
+        return;
     }
     PrintInfo("Sent proof");
 }
-- 
2.43.0


From 4979c56777158b339f74802d68cb14ea209c25c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:02 +0000
Subject: [PATCH 16/33] fix: answer OK before starting the threads of an n-weso
 session

A connection lost before the answer made the write throw while the squaring
thread was running, which terminated the process.
---
 src/vdf_client.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 46a74e5..3898cbb 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -186,6 +186,10 @@ void SessionFastAlgorithm(tcp::socket& sock) {
         PrintInfo("Discriminant = " + to_string(D.impl));
         form f = DeserializeForm(D, initial_form_s, sizeof(initial_form_s));
         PrintInfo("Initial form: " + to_string(f.a.impl) + " " + to_string(f.b.impl));
+        // Tell client that I'm ready to get the challenges. Before any thread is started: the write throws when the
+        // connection is lost.
+        boost::asio::write(sock, boost::asio::buffer("OK", 2));
+
         std::vector<std::thread> threads;
         const bool multi_proc_machine = (std::thread::hardware_concurrency() >= 16) ? true : false;
         WesolowskiCallback* weso = new FastAlgorithmCallback(segments, D, f, multi_proc_machine);
@@ -198,9 +202,6 @@ void SessionFastAlgorithm(tcp::socket& sock) {
         ProverManager pm(D, (FastAlgorithmCallback*)weso, fast_storage, segments, thread_count);
         pm.start();
 
-        // Tell client that I'm ready to get the challenges.
-        boost::asio::write(sock, boost::asio::buffer("OK", 2));
-
         while (!stopped) {
             uint64_t iters = ReadIterationOrStop(sock);
             if (iters == 0) {
-- 
2.43.0


From 6a79fe2a322a7af69adc739a46b57f9a97b66265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:11 +0000
Subject: [PATCH 17/33] fix: refuse board voltages out of range instead of
 setting a wrapped one

---
 src/hw/vdf_driver.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/hw/vdf_driver.cpp b/src/hw/vdf_driver.cpp
index 9709b20..e3b5982 100644
--- a/src/hw/vdf_driver.cpp
+++ b/src/hw/vdf_driver.cpp
@@ -575,16 +575,17 @@ double VdfDriver::GetBoardVoltage() {
 int VdfDriver::SetBoardVoltage(double voltage) {
   uint8_t vid;
   double vr_factor = 100000.0;
-  uint32_t vr_slope = 625;
-  uint32_t vr_intercept = 24375;
-  vid =
-    (uint8_t)((((uint32_t)(voltage * vr_factor)) - vr_intercept) / vr_slope);
-
-  if ((vid < 0x29) || (vid > 0x79)) {
-    fprintf(stderr, "SetBoardVoltage illegal vid %d for voltage %1.3f\n",
-            vid, voltage);
+  double vr_slope = 625.0;
+  double vr_intercept = 24375.0;
+  double vid_val = (voltage * vr_factor - vr_intercept) / vr_slope;
+
+  // Compare before the conversion, which would wrap
+  if (!(vid_val >= 0x29 && vid_val < 0x79 + 1)) {
+    fprintf(stderr, "SetBoardVoltage illegal vid %f for voltage %1.3f\n",
+            vid_val, voltage);
     return 1;
   }
+  vid = (uint8_t)vid_val;
 
   int ret_val = I2CWriteReg(VR_I2C_ADDR, 0x8, 0xe4); // Fixed compensation value
   ret_val |= I2CWriteReg(VR_I2C_ADDR, 0x7, vid);     // Voltage value
-- 
2.43.0


From cbc15ff74992ccaeb17d7cad9a9ca4100311fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:31 +0000
Subject: [PATCH 18/33] fix: read the initial form with the size of its own
 discriminant

The proofs are written with the number of bits of the discriminant, but
the initial form was parsed as if the discriminant always had 1024 bits.
---
 src/hw/hw_proof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index c6e1bec..bf37bca 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -821,7 +821,7 @@ void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const ch
     init_vdf_value(&vdf->last_val);
     // TODO: verify validity of initial form
     bqfc_deserialize(vdf->last_val.a, vdf->last_val.b, vdf->D.impl, init_form,
-            BQFC_FORM_SIZE, BQFC_MAX_D_BITS, false);
+            BQFC_FORM_SIZE, mpz_sizeinbase(vdf->D.impl, 2), false);
     hw_proof_get_form(hw_proof_value_at(vdf, 0), vdf, &vdf->last_val);
     vdf->valid_values[0] = 1 << 0;
     //vdf->raw_values.push_back(initial);
-- 
2.43.0


From 44d3ae2939608e8fead488c4a904d69f671f473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:41 +0000
Subject: [PATCH 19/33] fix: refuse hardware values with a non-positive a or
 beyond the target

A negative a passed the divisibility test and made form::from_abd throw
in an auxiliary thread, ending the process; a count beyond the target
was written past the end of valid_values, or aborted.
---
 src/hw/hw_proof.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index bf37bca..61caeed 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -29,6 +29,8 @@ int verify_vdf_value(struct vdf_state *vdf, struct vdf_value *val)
 
 int hw_proof_add_value(struct vdf_state *vdf, struct vdf_value *val)
 {
+    bool in_range = val->iters <= vdf->target_iters - vdf->iters_offset;
+
     val->iters += vdf->iters_offset;
     if (val->iters == vdf->iters_offset || val->iters == vdf->last_val.iters) {
         vdf->n_skipped++;
@@ -42,7 +44,7 @@ int hw_proof_add_value(struct vdf_state *vdf, struct vdf_value *val)
     }
     vdf->n_skipped = 0;
 
-    if (mpz_sgn(val->a) == 0) {
+    if (!in_range || mpz_sgn(val->a) <= 0) {
         report_bad_vdf_value(vdf, val);
         return -1;
     }
-- 
2.43.0


From c27368cec7cbc5ac13bfffde8906dee341be3c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:08 +0000
Subject: [PATCH 20/33] fix: take the lock when handing out finished hardware
 proofs

hw_retrieve_proof read and erased done_proofs while proof threads were
appending to it, which loses, repeats or corrupts entries.
---
 src/hw/hw_proof.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 61caeed..12fb4c5 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -747,6 +747,7 @@ int hw_retrieve_proof(struct vdf_state *vdf, struct vdf_proof **out_proof)
         }
     }
 #endif
+    std::lock_guard<std::mutex> lk(vdf->proofs_resize_mtx);
     if (!vdf->done_proofs.empty()) {
         for (size_t i = 0; i < vdf->done_proofs.size(); i++) {
             uint16_t idx = vdf->done_proofs[i];
-- 
2.43.0


From 425619c79fb1d940f0b2e2f748a8d15770761f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:37 +0000
Subject: [PATCH 21/33] fix: release a proof thread's slot only after it has
 been counted off

hw_stop_proof returns, and the next session resets the counter, once no
slot is busy; a decrement still to come made the counter wrap, and no
proof was started in the new session any more.
---
 src/hw/hw_proof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 12fb4c5..20531dc 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -727,8 +727,8 @@ void hw_compute_proof(struct vdf_state *vdf, size_t proof_idx, struct vdf_proof
 
 out:
     if (thr_idx < vdf->max_aux_threads) {
-        vdf->aux_threads_busy &= ~(1UL << thr_idx);
         vdf->n_proof_threads -= PARALLEL_PROVER_N_THREADS;
+        vdf->aux_threads_busy &= ~(1UL << thr_idx);
     }
 }
 
-- 
2.43.0


From 943aa30ebfd6091217b217827172508cbd9c4e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:32 +0000
Subject: [PATCH 22/33] fix: take the lock to look up an intermediate value

The vector of blocks grows while other threads look up values in it.
---
 src/hw/hw_proof.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 20531dc..8bc14ca 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -103,6 +103,7 @@ static const size_t g_values_mult = 1UL << 12;
 
 form *hw_proof_value_at(struct vdf_state *vdf, size_t pos)
 {
+    std::lock_guard<std::mutex> lk(vdf->valid_values_mtx);
     size_t idx = pos / g_values_mult;
     size_t old_size = vdf->values.size();
 
-- 
2.43.0


From 794cb93ceda658f9456d843541547dfff33f2fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:29 +0000
Subject: [PATCH 23/33] fix: store an intermediate value once, under the lock

After the hardware has been restarted from an earlier value the same
values are reported and computed again while proof threads read them;
writing them a second time replaced the storage being read.
---
 src/hw/hw_proof.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 8bc14ca..b13ab5e 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -119,24 +119,34 @@ form *hw_proof_value_at(struct vdf_state *vdf, size_t pos)
     return &vdf->values[idx][pos % g_values_mult];
 }
 
+bool hw_proof_value_valid(struct vdf_state *vdf, size_t pos)
+{
+    std::lock_guard<std::mutex> lk(vdf->valid_values_mtx);
+
+    return vdf->valid_values[pos / 8] & (1 << (pos % 8));
+}
+
 form *hw_proof_last_good_form(struct vdf_state *vdf, size_t *out_pos)
 {
     size_t pos = vdf->cur_iters / vdf->interval;
 
-    while (!(vdf->valid_values[pos / 8] & (1 << (pos % 8)))) {
+    while (!hw_proof_value_valid(vdf, pos)) {
         pos--;
     }
     *out_pos = pos;
     return hw_proof_value_at(vdf, pos);
 }
 
-void hw_proof_add_intermediate(struct vdf_state *vdf, struct vdf_value *val, size_t pos)
+void hw_proof_add_intermediate(struct vdf_state *vdf, const form &f, size_t pos)
 {
-    if (val) {
-        hw_proof_get_form(hw_proof_value_at(vdf, pos), vdf, val);
-    }
+    form *out = hw_proof_value_at(vdf, pos);
+
     vdf->valid_values_mtx.lock();
-    vdf->valid_values[pos / 8] |= 1 << (pos % 8);
+    /* After a restart the same value can be found again, while it's in use */
+    if (!(vdf->valid_values[pos / 8] & (1 << (pos % 8)))) {
+        *out = f;
+        vdf->valid_values[pos / 8] |= 1 << (pos % 8);
+    }
     vdf->valid_values_mtx.unlock();
     vdf->done_values++;
 }
@@ -178,8 +188,7 @@ void hw_proof_calc_values(struct vdf_state *vdf, struct vdf_work *work, int thr_
                 abort();
             }
 
-            *hw_proof_value_at(vdf, pos) = f;
-            hw_proof_add_intermediate(vdf, NULL, pos);
+            hw_proof_add_intermediate(vdf, f, pos);
 
             next_iters += vdf->interval;
         }
@@ -496,7 +505,7 @@ void hw_proof_wait_values(struct vdf_state *vdf, bool finish_work)
 
 int hw_proof_wait_value(struct vdf_state *vdf, size_t pos)
 {
-    while (!(vdf->valid_values[pos / 8] & (1 << (pos % 8)))) {
+    while (!hw_proof_value_valid(vdf, pos)) {
         vdf_usleep(100000);
         if (vdf->stopping) {
             return -1;
@@ -522,7 +531,9 @@ void hw_proof_handle_value(struct vdf_state *vdf, struct vdf_value *val)
     bool print_stats = false;
 
     if (val->iters == end_iters) {
-        hw_proof_add_intermediate(vdf, val, val->iters / interval);
+        form f;
+        hw_proof_get_form(&f, vdf, val);
+        hw_proof_add_intermediate(vdf, f, val->iters / interval);
         if (end_iters) {
             end_iters -= interval;
         }
-- 
2.43.0


From c2d9df361100fb909f954abd5052588e08034009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 24/33] fix: a hardware connection without a session has
 nothing to stop

---
 src/hw/hw_vdf_client.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 73cefc5..8bb88d3 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -175,6 +175,7 @@ void init_vdf_client(struct vdf_client *client)
             continue;
         }
         client->conns[i].vdf.idx = i;
+        client->conns[i].vdf.init_done = false;
         client->conns[i].sock = kInvalidSocket;
         memset(client->conns[i].read_buf, 0, sizeof(client->conns[i].read_buf));
         client->conns[i].buf_pos = 0;
-- 
2.43.0


From bedc3777a840172c8b8c2db4b2e8efd7059211aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 25/33] fix: close the socket of a failed connection attempt

---
 src/hw/hw_vdf_client.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 8bb88d3..470944e 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -146,6 +146,8 @@ void init_conn(struct vdf_conn *conn, uint32_t ip, int port)
     ret = connect(conn->sock, (struct sockaddr *)&sa, sizeof(sa));
     if (ret < 0) {
         perror("connect");
+        vdf_socket_close(conn->sock);
+        conn->sock = kInvalidSocket;
         vdf_sleep(1);
         return;
     }
-- 
2.43.0


From 4d584e652d38779a1e719b42fcc59d88e0caf119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 26/33] fix: keep an incomplete iterations message until the
 rest arrives

---
 src/hw/hw_vdf_client.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 470944e..8fc8f81 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -250,17 +250,21 @@ void write_data(struct vdf_conn *conn, const char *buf, size_t size)
 void handle_iters(struct vdf_client *client, struct vdf_conn *conn)
 {
     char *buf = conn->read_buf;
-    char iters_size_buf[3] = {0}, iters_buf[16];
+    char iters_size_buf[3] = {0}, iters_buf[17];
     uint64_t iters;
     uint32_t bytes = conn->buf_pos, iters_size;
 
-    while (bytes) {
+    while (bytes >= 2) {
         memcpy(iters_size_buf, buf, 2);
         iters_size = strtoul(iters_size_buf, NULL, 10);
-        if (iters_size > sizeof(iters_buf) || bytes < 2 + iters_size) {
+        if (iters_size >= sizeof(iters_buf)) {
             LOG_ERROR("Bad iters data size: %u", bytes);
             throw std::runtime_error("Bad data size");
         }
+        if (bytes < 2 + iters_size) {
+            /* The rest has not arrived yet */
+            break;
+        }
         //buf[2 + iters_size] = '\0';
         memcpy(iters_buf, &buf[2], iters_size);
         iters_buf[iters_size] = '\0';
@@ -273,15 +277,15 @@ void handle_iters(struct vdf_client *client, struct vdf_conn *conn)
             LOG_INFO("VDF %d: Stop requested", conn->vdf.idx);
             stop_conn(client, conn);
             bytes -= 2 + iters_size;
+            buf += 2 + iters_size;
             break;
         }
 
         bytes -= 2 + iters_size;
         buf += 2 + iters_size;
     }
-    if (!bytes) {
-        conn->buf_pos = 0;
-    }
+    memmove(conn->read_buf, buf, bytes);
+    conn->buf_pos = bytes;
     if (!conn->vdf.req_proofs.empty()) {
         size_t n_proofs = conn->vdf.req_proofs.size();
         char iters_str[100];
-- 
2.43.0


From f3aad665482dd9938ebe926725ae5032afcd1603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 27/33] fix: keep an incomplete initial message until the rest
 arrives

---
 src/hw/hw_vdf_client.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 8fc8f81..73394e4 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -357,8 +357,8 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
     }
 
     if (conn->state == WAITING) {
-        uint64_t d_size;
-        char d_str[350];
+        uint64_t d_size, msg_size;
+        char d_size_buf[4] = {0}, d_str[350];
         uint64_t n_iters = 2000UL * 1000 * 1000;
         uint8_t *init_form;
 
@@ -372,17 +372,26 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
             throw std::runtime_error("Bad initial data from timelord");
         }
 
-        d_size = strtoul(&buf[1], NULL, 10);
+        memcpy(d_size_buf, &buf[1], 3);
+        d_size = strtoul(d_size_buf, NULL, 10);
+        if (d_size >= sizeof(d_str)) {
+            throw std::runtime_error("Bad discriminant size");
+        }
         if ((uint64_t)bytes < 4 + d_size + 1) {
             /* Expecting initial form after discriminant */
             return;
         }
         memcpy(d_str, &buf[4], d_size);
         d_str[d_size] = '\0';
-        if ((uint64_t)bytes != 4 + d_size + 1 + buf[4 + d_size]) {
+        msg_size = 4 + d_size + 1 + (uint8_t)buf[4 + d_size];
+        if (msg_size > sizeof(conn->read_buf)) {
             LOG_ERROR("Bad data size: %d", bytes);
             throw std::runtime_error("Bad data size");
         }
+        if ((uint64_t)bytes < msg_size) {
+            /* Expecting the rest of initial form */
+            return;
+        }
 
         init_form = (uint8_t *)&buf[4 + d_size + 1];
         init_vdf_state(vdf, &client->opts.vpo, d_str, init_form, n_iters, vdf->idx);
@@ -390,7 +399,8 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
                 vdf->target_iters, vdf->idx);
         write_data(conn, "OK", 2);
         conn->state = RUNNING;
-        conn->buf_pos = 0;
+        conn->buf_pos = bytes - msg_size;
+        memmove(buf, buf + msg_size, conn->buf_pos);
         LOG_INFO("VDF %d: Received challenge, running", vdf->idx);
     } else if (conn->state == RUNNING || conn->state == IDLING) {
         handle_proofs(client, conn);
-- 
2.43.0


From d935b86d89395d74405b0cb654b2649581eeac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 28/33] fix: a failing hardware connection must not end the
 other ones

---
 src/hw/hw_vdf_client.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 73394e4..09f3dd4 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -247,6 +247,16 @@ void write_data(struct vdf_conn *conn, const char *buf, size_t size)
     }
 }
 
+void drop_conn(struct vdf_client *client, struct vdf_conn *conn)
+{
+    if (conn->vdf.init_done) {
+        hw_stop_proof(&conn->vdf);
+        clear_vdf_state(&conn->vdf);
+        stop_hw_vdf(client->drv, conn->vdf.idx);
+    }
+    close_conn(conn);
+}
+
 void handle_iters(struct vdf_client *client, struct vdf_conn *conn)
 {
     char *buf = conn->read_buf;
@@ -434,7 +444,12 @@ void event_loop(struct vdf_client *client)
             if (!(client->opts.vdfs_mask & (1 << i))) {
                 continue;
             }
-            handle_conn(client, &client->conns[i]);
+            try {
+                handle_conn(client, &client->conns[i]);
+            } catch (const std::exception &e) {
+                LOG_ERROR("VDF %d: %s, closing connection", i, e.what());
+                drop_conn(client, &client->conns[i]);
+            }
             if (client->conns[i].state == RUNNING) {
                 running_mask |= 1 << i;
             }
@@ -753,6 +768,8 @@ int hw_vdf_client_main(int argc, char **argv)
     sa.sa_handler = signal_handler;
     sigaction(SIGINT, &sa, NULL);
     sigaction(SIGTERM, &sa, NULL);
+    // A lost connection is reported by write()
+    signal(SIGPIPE, SIG_IGN);
 #endif
 
     event_loop(&client);
-- 
2.43.0


From fdc7bc17b8681b9ca962d842e55f971fb2502aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 29/33] fix: keep the part of an answer that the socket does
 not accept yet

---
 src/hw/hw_vdf_client.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 09f3dd4..f4ce8b4 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -11,6 +11,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <signal.h>
+#include <string>
 
 #ifdef _WIN32
 #include <winsock2.h>
@@ -41,6 +42,7 @@ struct vdf_conn {
     vdf_socket_t sock;
     char read_buf[512];
     uint32_t buf_pos;
+    std::string write_buf; // Data the socket has not accepted yet
     enum conn_state state;
 };
 
@@ -161,6 +163,7 @@ void init_conn(struct vdf_conn *conn, uint32_t ip, int port)
     }
     conn->state = WAITING;
     conn->buf_pos = 0;
+    conn->write_buf.clear();
     LOG_INFO("VDF %d: Connected to timelord, waiting for challenge", conn->vdf.idx);
 }
 
@@ -238,15 +241,27 @@ int read_data(struct vdf_client *client, struct vdf_conn *conn)
     return bytes;
 }
 
-void write_data(struct vdf_conn *conn, const char *buf, size_t size)
+void flush_data(struct vdf_conn *conn)
 {
-    int bytes = vdf_socket_write(conn->sock, buf, size);
-    if (bytes < 0) {
-        perror("write");
-        throw std::runtime_error("Write error");
+    while (!conn->write_buf.empty()) {
+        int bytes = vdf_socket_write(conn->sock, conn->write_buf.data(), conn->write_buf.size());
+        if (bytes < 0) {
+            if (vdf_socket_would_block()) {
+                return;
+            }
+            perror("write");
+            throw std::runtime_error("Write error");
+        }
+        conn->write_buf.erase(0, bytes);
     }
 }
 
+void write_data(struct vdf_conn *conn, const char *buf, size_t size)
+{
+    conn->write_buf.append(buf, size);
+    flush_data(conn);
+}
+
 void drop_conn(struct vdf_client *client, struct vdf_conn *conn)
 {
     if (conn->vdf.init_done) {
@@ -413,6 +428,7 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
         memmove(buf, buf + msg_size, conn->buf_pos);
         LOG_INFO("VDF %d: Received challenge, running", vdf->idx);
     } else if (conn->state == RUNNING || conn->state == IDLING) {
+        flush_data(conn);
         handle_proofs(client, conn);
         bytes = read_data(client, conn);
         if (bytes <= 0) {
@@ -421,6 +437,12 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
 
         handle_iters(client, conn);
     }
+    if (conn->state == STOPPED && !conn->write_buf.empty() && !g_stopping) {
+        flush_data(conn);
+        if (!conn->write_buf.empty()) {
+            return;
+        }
+    }
     if (conn->state == STOPPED) {
         bytes = read_data(client, conn);
         if (bytes != 3 || memcmp(buf, "ACK", 3)) {
-- 
2.43.0


From cc9babf7c7ab20814cded311dc4b0ba463c8d2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 30/33] fix: answer the requests of a session whose engine has
 reached the target

---
 src/hw/hw_proof.hpp      | 1 +
 src/hw/hw_vdf_client.cpp | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/hw/hw_proof.hpp b/src/hw/hw_proof.hpp
index 3668413..530d2f9 100644
--- a/src/hw/hw_proof.hpp
+++ b/src/hw/hw_proof.hpp
@@ -94,6 +94,7 @@ int hw_proof_add_value(struct vdf_state *vdf, struct vdf_value *val);
 form *hw_proof_last_good_form(struct vdf_state *vdf, size_t *out_pos);
 void hw_proof_handle_value(struct vdf_state *vdf, struct vdf_value *val);
 void hw_stop_proof(struct vdf_state *vdf);
+void hw_proof_process_work(struct vdf_state *vdf);
 void hw_request_proof(struct vdf_state *vdf, uint64_t iters, bool is_chkp);
 void hw_compute_proof(struct vdf_state *vdf, size_t proof_idx, struct vdf_proof *out_proof, uint8_t thr_idx);
 int hw_retrieve_proof(struct vdf_state *vdf, struct vdf_proof **proof);
diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index f4ce8b4..c001e3e 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -429,6 +429,10 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
         LOG_INFO("VDF %d: Received challenge, running", vdf->idx);
     } else if (conn->state == RUNNING || conn->state == IDLING) {
         flush_data(conn);
+        if (conn->state == IDLING) {
+            // No more values come, but their storage and proofs may be pending
+            hw_proof_process_work(vdf);
+        }
         handle_proofs(client, conn);
         bytes = read_data(client, conn);
         if (bytes <= 0) {
-- 
2.43.0


From aad3debf8a90d2062a9ebb92b75a9900611223b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:02 +0000
Subject: [PATCH 31/33] fix: stop raising the frequency at the end of the table

---
 src/hw/hw_vdf_client.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index c001e3e..4e052f0 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -528,8 +528,8 @@ void event_loop(struct vdf_client *client)
             uint64_t elapsed = vdf_get_elapsed_us(client->drv->last_freq_update);
             if (elapsed / 1000000 >= client->opts.auto_freq_period) {
                 // Check and see what the next frequency would be, and if its <= max allowed frequency
-                double next_freq = pll_entries[client->drv->freq_idx + 1].freq;
-                if (next_freq <= client->opts.max_freq) {
+                uint32_t next_idx = client->drv->freq_idx + 1;
+                if (next_idx < VALID_PLL_FREQS && pll_entries[next_idx].freq <= client->opts.max_freq) {
                     adjust_hw_freq(client->drv, running_mask, 1);
                 } else {
                     LOG_INFO("Can't increase frequency, already at maximum");
-- 
2.43.0


From 9e6495378fd25273658ed3ebd85c90d4003217c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:02 +0000
Subject: [PATCH 32/33] fix: a frequency change must not restart an engine that
 has just completed

---
 src/hw/hw_vdf_client.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 4e052f0..e428a64 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -520,6 +520,7 @@ void event_loop(struct vdf_client *client)
                 if (client->conns[i].vdf.completed) {
                     stop_hw_vdf(client->drv, i);
                     client->conns[i].state = IDLING;
+                    running_mask &= ~(1 << i);
                 }
             }
         }
-- 
2.43.0


From eec139d9831c5e8b42e2048f4fd42d37a3638ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:02 +0000
Subject: [PATCH 33/33] fix: refuse a malformed discriminant or initial form of
 a hardware session

---
 src/hw/hw_proof.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index b13ab5e..cc6c38b 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -4,6 +4,7 @@
 
 #include <algorithm>
 #include <cstdlib>
+#include <stdexcept>
 
 static const uint32_t g_chkp_thres = 1000000;
 static const uint32_t g_skip_thres = 10;
@@ -821,7 +822,9 @@ void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const ch
         vdf->max_proof_threads = opts->max_proof_threads;
     }
 
-    mpz_set_str(vdf->D.impl, d_str, 0);
+    if (mpz_set_str(vdf->D.impl, d_str, 0) || mpz_sgn(vdf->D.impl) >= 0) {
+        throw std::runtime_error("Bad discriminant");
+    }
     mpz_set(vdf->L.impl, vdf->D.impl);
     mpz_neg(vdf->L.impl, vdf->L.impl);
     mpz_root(vdf->L.impl, vdf->L.impl, 4);
@@ -835,8 +838,11 @@ void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const ch
     //initial.iters = 0;
     init_vdf_value(&vdf->last_val);
     // TODO: verify validity of initial form
-    bqfc_deserialize(vdf->last_val.a, vdf->last_val.b, vdf->D.impl, init_form,
-            BQFC_FORM_SIZE, mpz_sizeinbase(vdf->D.impl, 2), false);
+    if (bqfc_deserialize(vdf->last_val.a, vdf->last_val.b, vdf->D.impl, init_form,
+            BQFC_FORM_SIZE, mpz_sizeinbase(vdf->D.impl, 2), false)) {
+        clear_vdf_state(vdf);
+        throw std::runtime_error("Bad initial form");
+    }
     hw_proof_get_form(hw_proof_value_at(vdf, 0), vdf, &vdf->last_val);
     vdf->valid_values[0] = 1 << 0;
     //vdf->raw_values.push_back(initial);
-- 
2.43.0

