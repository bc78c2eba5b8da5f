From 65dc5d18a2d26d982a33da1d3adfb4454d4ce754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:21 +0000
Subject: [PATCH 1/8] fix: report failure of the random generator in key
 generation and encapsulation

crypto_kem_keypair and crypto_kem_enc ignored the return value of randombytes
and returned success with keys, ciphertexts and secrets derived from
uninitialised memory.
---
 src/kem.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kem.c b/src/kem.c
index 5e5c429..da11a55 100644
--- a/src/kem.c
+++ b/src/kem.c
@@ -32,7 +32,10 @@ int crypto_kem_keypair(unsigned char* pk, unsigned char* sk)
     uint8_t shake_input_seedSE[1 + CRYPTO_BYTES];           // contains secret data
 
     // Generate the secret value s, the seed for S and E, and the seed for the seed for A. Add seed_A to the public key
-    randombytes(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A);
+    if (randombytes(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A) != 0) {
+        clear_bytes(randomness, 2*CRYPTO_BYTES);
+        return 1;
+    }
 #ifdef DO_VALGRIND_CHECK
     VALGRIND_MAKE_MEM_UNDEFINED(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A);
 #endif
@@ -101,7 +104,10 @@ int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk
 
     // pkh <- G_1(pk), generate random mu, compute (seedSE || k) = G_2(pkh || mu)
     shake(pkh, BYTES_PKHASH, pk, CRYPTO_PUBLICKEYBYTES);
-    randombytes(mu, BYTES_MU);
+    if (randombytes(mu, BYTES_MU) != 0) {
+        clear_bytes(mu, BYTES_MU);
+        return 1;
+    }
 #ifdef DO_VALGRIND_CHECK
     VALGRIND_MAKE_MEM_UNDEFINED(mu, BYTES_MU);
 #endif
-- 
2.43.0


From ce49fcf84e002bacf957f6e80ce13d0652c24897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:21 +0000
Subject: [PATCH 2/8] fix: read the secret matrix in decapsulation without
 assuming alignment

crypto_kem_dec read S through a uint16_t pointer into the caller's byte
buffer, which is undefined behaviour when that buffer is at an odd address.
---
 src/kem.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kem.c b/src/kem.c
index da11a55..e1b1116 100644
--- a/src/kem.c
+++ b/src/kem.c
@@ -171,7 +171,7 @@ int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned ch
     const uint8_t *ct_c2 = &ct[(PARAMS_LOGQ*PARAMS_N*PARAMS_NBAR)/8];
     const uint8_t *sk_s = &sk[0];
     const uint8_t *sk_pk = &sk[CRYPTO_BYTES];
-    const uint16_t *sk_S = (uint16_t *) &sk[CRYPTO_BYTES + CRYPTO_PUBLICKEYBYTES];
+    const uint8_t *sk_S = &sk[CRYPTO_BYTES + CRYPTO_PUBLICKEYBYTES];
     uint16_t S[PARAMS_N * PARAMS_NBAR];                      // contains secret data
     const uint8_t *sk_pkh = &sk[CRYPTO_BYTES + CRYPTO_PUBLICKEYBYTES + 2*PARAMS_N*PARAMS_NBAR];
     const uint8_t *pk_seedA = &sk_pk[0];
@@ -191,8 +191,9 @@ int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned ch
     VALGRIND_MAKE_MEM_UNDEFINED(sk, CRYPTO_SECRETKEYBYTES);
 #endif
 
+    memcpy(S, sk_S, 2*PARAMS_N*PARAMS_NBAR);                 // sk may have any alignment
     for (size_t i = 0; i < PARAMS_N * PARAMS_NBAR; i++) {
-        S[i] = LE_TO_UINT16(sk_S[i]);
+        S[i] = LE_TO_UINT16(S[i]);
     }
 
     // Compute W = C - Bp*S (mod q), and decode the randomness mu
-- 
2.43.0


From 56e8e6209591605cbae07741ab5a951e72147392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:43 +0000
Subject: [PATCH 3/8] fix: keep the state of the portable AES out of static
 storage

aes_c.c passed the block being encrypted through a file-scope pointer, so two
threads using the standalone AES corrupted each other's matrix A.
---
 src/aes/aes_c.c | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/aes/aes_c.c b/src/aes/aes_c.c
index 5eea00c..6a66738 100644
--- a/src/aes/aes_c.c
+++ b/src/aes/aes_c.c
@@ -19,7 +19,6 @@
 /*****************************************************************************/
 // state - array holding the intermediate results during decryption.
 typedef uint8_t state_t[4][4];
-static state_t* state;
 
 // The lookup-tables are marked const so they can be placed in read-only storage instead of RAM
 // The numbers below can be computed dynamically trading ROM for RAM -
@@ -202,7 +201,7 @@ void aes256_load_schedule_c(const uint8_t* Key, uint8_t* RoundKey)
 
 // This function adds the round key to state.
 // The round key is added to the state by an XOR function.
-static void AddRoundKey(const uint8_t* RoundKey, uint8_t round)
+static void AddRoundKey(state_t* state, const uint8_t* RoundKey, uint8_t round)
 {
   uint8_t i,j;
   for (i=0;i<4;++i)
@@ -217,7 +216,7 @@ static void AddRoundKey(const uint8_t* RoundKey, uint8_t round)
 
 // The SubBytes Function Substitutes the values in the
 // state matrix with values in an S-box.
-static void SubBytes(void)
+static void SubBytes(state_t* state)
 {
   uint8_t i, j;
   for (i = 0; i < 4; ++i)
@@ -233,7 +232,7 @@ static void SubBytes(void)
 // The ShiftRows() function shifts the rows in the state to the left.
 // Each row is shifted with different offset.
 // Offset = Row number. So the first row is not shifted.
-static void ShiftRows(void)
+static void ShiftRows(state_t* state)
 {
   uint8_t temp;
 
@@ -269,7 +268,7 @@ static uint8_t xtime(uint8_t x)
 
 
 // MixColumns function mixes the columns of the state matrix
-static void MixColumns(void)
+static void MixColumns(state_t* state)
 {
   uint8_t i;
   uint8_t Tmp,Tm,t;
@@ -286,39 +285,38 @@ static void MixColumns(void)
 
 
 // Cipher is the main function that encrypts the PlainText.
-static void Cipher(const uint8_t* RoundKey, uint32_t Nr)
+static void Cipher(state_t* state, const uint8_t* RoundKey, uint32_t Nr)
 {
   uint8_t round = 0;
 
   // Add the First round key to the state before starting the rounds.
-  AddRoundKey(RoundKey, 0);
+  AddRoundKey(state, RoundKey, 0);
 
   // There will be Nr rounds.
   // The first Nr-1 rounds are identical.
   // These Nr-1 rounds are executed in the loop below.
   for (round = 1; round < Nr; ++round)
   {
-    SubBytes();
-    ShiftRows();
-    MixColumns();
-    AddRoundKey(RoundKey, round);
+    SubBytes(state);
+    ShiftRows(state);
+    MixColumns(state);
+    AddRoundKey(state, RoundKey, round);
   }
 
   // The last round is given below.
   // The MixColumns function is not here in the last round.
-  SubBytes();
-  ShiftRows();
-  AddRoundKey(RoundKey, Nr);
+  SubBytes(state);
+  ShiftRows(state);
+  AddRoundKey(state, RoundKey, Nr);
 }
 
 
 void aes128_enc_c(const uint8_t* input, const uint8_t* schedule, uint8_t* output)
 {
   memcpy(output, input, 16);
-  state = (state_t*)output;
 
   // The next function call encrypts the PlainText with the Key using AES algorithm.
-  Cipher(schedule, 10);
+  Cipher((state_t*)output, schedule, 10);
 }
 
 
@@ -326,8 +324,7 @@ void aes256_enc_c(const uint8_t* input, const uint8_t* schedule, uint8_t* output
 {
   // Copy input to output, and work in-memory on output
   memcpy(output, input, 16);
-  state = (state_t*)output;
 
   // The next function call encrypts the PlainText with the Key using AES algorithm.
-  Cipher(schedule, 14);
+  Cipher((state_t*)output, schedule, 14);
 }
-- 
2.43.0


From e65847db88245613ea487eab5ff152080f5ebd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:43 +0000
Subject: [PATCH 4/8] fix: convert A from little-endian in
 frodo_mul_add_sa_plus_e

The portable FAST path multiplied with the raw bytes of A, so encapsulation and
decapsulation produced wrong ciphertexts on big-endian machines.
---
 src/frodo_macrify.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frodo_macrify.c b/src/frodo_macrify.c
index 75190b3..26c950e 100755
--- a/src/frodo_macrify.c
+++ b/src/frodo_macrify.c
@@ -230,6 +230,9 @@ int frodo_mul_add_sa_plus_e(uint16_t *out, const uint16_t *s, uint16_t *e, const
 #endif
 
 #if !defined(USE_AVX2)
+        for (p = 0; p < 8 * PARAMS_N; p++) {
+            A[p] = LE_TO_UINT16(A[p]);
+        }
         for (j = 0; j < PARAMS_NBAR; j++) {
             uint16_t sum = 0;
             int16_t sp[8];
-- 
2.43.0


From 4afc12405d5957e850a87fb683d769c89d4b166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:07 +0000
Subject: [PATCH 5/8] fix: fill random requests of 2^31 bytes and more
 completely

randombytes truncated the length to int, so that large requests returned
success with the buffer partly or entirely untouched.
---
 src/random/random.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index 7cea45c..e5f7dcf 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -18,6 +18,9 @@
 #define passed 0 
 #define failed 1
 
+// Largest number of bytes requested from the system at once
+#define MAX_CHUNK 0x40000000
+
 
 static __inline void delay(unsigned int count)
 {
@@ -29,13 +32,18 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
 { // Generation of "nbytes" of random values
     
 #if defined(WINDOWS)   
-    if (!BCRYPT_SUCCESS(BCryptGenRandom(NULL, random_array, (unsigned long)nbytes, BCRYPT_USE_SYSTEM_PREFERRED_RNG))) {
-        return failed;
+    while (nbytes > 0) {
+        unsigned long n = (nbytes < MAX_CHUNK) ? (unsigned long)nbytes : MAX_CHUNK;
+        if (!BCRYPT_SUCCESS(BCryptGenRandom(NULL, random_array, n, BCRYPT_USE_SYSTEM_PREFERRED_RNG))) {
+            return failed;
+        }
+        random_array += n;
+        nbytes -= n;
     }
 
 #elif defined(NIX)
-    int r, n = (int)nbytes, count = 0;
-    
+    int r, n;
+
     if (lock == -1) {
         do {
             lock = open("/dev/urandom", O_RDONLY);
@@ -45,15 +53,16 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
         } while (lock == -1);
     }
 
-    while (n > 0) {
+    while (nbytes > 0) {
+        n = (nbytes < MAX_CHUNK) ? (int)nbytes : MAX_CHUNK;
         do {
-            r = read(lock, random_array+count, n);
+            r = read(lock, random_array, n);
             if (r == -1) {
                 delay(0xFFFF);
             }
         } while (r == -1);
-        count += r;
-        n -= r;
+        random_array += r;
+        nbytes -= r;
     }
 #endif
 
-- 
2.43.0


From bac41c3307c7adb00c0eaacde2b1b189f03098b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:07 +0000
Subject: [PATCH 6/8] fix: make the first use of randombytes safe for several
 threads

The descriptor was opened and stored without synchronisation: two threads
making the first request raced on it and could leak a descriptor.
---
 src/random/random.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index e5f7dcf..5f51edd 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -42,21 +42,25 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
     }
 
 #elif defined(NIX)
-    int r, n;
+    int r, n, none = -1, fd = __atomic_load_n(&lock, __ATOMIC_ACQUIRE);
 
-    if (lock == -1) {
+    if (fd == -1) {
         do {
-            lock = open("/dev/urandom", O_RDONLY);
-            if (lock == -1) {
+            fd = open("/dev/urandom", O_RDONLY);
+            if (fd == -1) {
                 delay(0xFFFFF);
             }
-        } while (lock == -1);
+        } while (fd == -1);
+        if (!__atomic_compare_exchange_n(&lock, &none, fd, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
+            close(fd);                  // Another thread opened the device first
+            fd = none;
+        }
     }
 
     while (nbytes > 0) {
         n = (nbytes < MAX_CHUNK) ? (int)nbytes : MAX_CHUNK;
         do {
-            r = read(lock, random_array, n);
+            r = read(fd, random_array, n);
             if (r == -1) {
                 delay(0xFFFF);
             }
-- 
2.43.0


From 2e9a227a48b57062b77fb01d3a873fea73f5a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:07 +0000
Subject: [PATCH 7/8] fix: round halves up when decoding in the Python
 implementation

Python's round() rounds halves to even, so that coefficients exactly between two
code points decoded differently from the specification and the C code.
---
 python3/frodokem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python3/frodokem.py b/python3/frodokem.py
index 873e622..e7d2859 100644
--- a/python3/frodokem.py
+++ b/python3/frodokem.py
@@ -320,8 +320,8 @@ class FrodoKEM(object):
         for i in range(self.mbar):
             # 2. for j = 0; j < nbar; j += 1
             for j in range(self.nbar):
-                # 3. tmp = dc(K[i][j]) = round(K[i][j] * 2^B / q) mod 2^B
-                tmp = round(K[i][j] * (2 ** self.B) / self.q) % (2 ** self.B)
+                # 3. tmp = dc(K[i][j]) = round(K[i][j] * 2^B / q) mod 2^B, where round(x) = floor(x + 1/2)
+                tmp = ((K[i][j] * (2 ** self.B) + self.q // 2) // self.q) % (2 ** self.B)
                 # 4. tmp' = sum_{l=0}^{B-1} tmp_l * 2^l
                 tmpbits = [0 for l in range(self.B)]
                 for l in range(self.B):
-- 
2.43.0


From f734eb3633dfefd9ef026964e04abec4173a67ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:07 +0000
Subject: [PATCH 8/8] fix: reject unknown variant names in the Python
 implementation

The assertion tested a non-empty string and could never fail.
---
 python3/frodokem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python3/frodokem.py b/python3/frodokem.py
index e7d2859..bde4212 100644
--- a/python3/frodokem.py
+++ b/python3/frodokem.py
@@ -42,7 +42,7 @@ class FrodoKEM(object):
             self.setParamsFrodo1344()
             self.gen = self.genSHAKE128
         else:
-            assert "Unknown variant"
+            raise ValueError("Unknown variant")
         warnings.warn("WARNING: This Python3 implementation of FrodoKEM is not designed to be fast or secure, and may leak secret information via timing or other side channels; it should not be used in production environments.")
 
     def setParamsFrodo640(self):
-- 
2.43.0

