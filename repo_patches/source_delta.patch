From 54cacdeadf02c7803ef504afdf936335b40234fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:21 +0000
Subject: [PATCH 1/5] fix: bi_32_armv7m: put the S-box outputs back in place
 after each round

The assembly computes the new x0,...,x4 in the registers of x2,x3,x4,x0,x1 and
nothing renamed them, so every ciphertext, tag and hash was wrong.
---
 crypto_aead/isapa128av20/bi_32_armv7m/asconp.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h b/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
index 87ab8e8..291b477 100644
--- a/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
+++ b/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
@@ -159,6 +159,14 @@ forceinline void ROUND(state_t *s, uint64_t C)
           [tmp1] "=r"(tmp1), [tmp2] "=r"(tmp2)
         : [C_e] "i"((uint32_t)C), [C_o] "i"((uint32_t)(C >> 32))
         :);
+    // The S-box leaves the new x0,...,x4 in the operands of x2,x3,x4,x0,x1
+    uint64_t t0 = s->x[0];
+    uint64_t t1 = s->x[1];
+    s->x[0] = s->x[2];
+    s->x[1] = s->x[3];
+    s->x[2] = s->x[4];
+    s->x[3] = t0;
+    s->x[4] = t1;
 }
 
 /* ---------------------------------------------------------------- */
-- 
2.43.0


From f386ca3887b1b4a4ffba80beceb5e2ab98444f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:46 +0000
Subject: [PATCH 2/5] fix: reject ciphertexts that are shorter than a tag

clen - ISAP_TAG_SZ wrapped around, so decryption read far out of bounds.
---
 crypto_aead/isapa128av20/avx_512/crypto_aead.c          | 5 +++++
 crypto_aead/isapa128av20/bi_32/crypto_aead.c            | 5 +++++
 crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c | 5 +++++
 crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c        | 5 +++++
 crypto_aead/isapa128av20/bi_8/crypto_aead.c             | 5 +++++
 crypto_aead/isapa128av20/opt_32/crypto_aead.c           | 5 +++++
 crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c       | 5 +++++
 crypto_aead/isapa128av20/opt_64/crypto_aead.c           | 5 +++++
 crypto_aead/isapa128av20/opt_8/crypto_aead.c            | 5 +++++
 crypto_aead/isapa128av20/ref/crypto_aead.c              | 5 +++++
 crypto_aead/isapa128v20/opt_32/crypto_aead.c            | 5 +++++
 crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c    | 5 +++++
 crypto_aead/isapa128v20/opt_64/crypto_aead.c            | 5 +++++
 crypto_aead/isapa128v20/ref/crypto_aead.c               | 5 +++++
 crypto_aead/isapk128av20/avx512/crypto_aead.c           | 5 +++++
 crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c    | 5 +++++
 crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c    | 5 +++++
 crypto_aead/isapk128av20/opt_64/crypto_aead.c           | 5 +++++
 crypto_aead/isapk128av20/ref/crypto_aead.c              | 5 +++++
 crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c     | 5 +++++
 crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c     | 5 +++++
 crypto_aead/isapk128v20/opt_64/crypto_aead.c            | 5 +++++
 crypto_aead/isapk128v20/ref/crypto_aead.c               | 5 +++++
 crypto_aead/isapxv20/ref/crypto_aead.c                  | 5 +++++
 24 files changed, 120 insertions(+)

diff --git a/crypto_aead/isapa128av20/avx_512/crypto_aead.c b/crypto_aead/isapa128av20/avx_512/crypto_aead.c
index 58f7641..3f002e3 100644
--- a/crypto_aead/isapa128av20/avx_512/crypto_aead.c
+++ b/crypto_aead/isapa128av20/avx_512/crypto_aead.c
@@ -31,6 +31,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32/crypto_aead.c b/crypto_aead/isapa128av20/bi_32/crypto_aead.c
index 4a9bd29..005e2f3 100644
--- a/crypto_aead/isapa128av20/bi_32/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
index e0d533c..e37c59f 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
@@ -37,6 +37,11 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
index e0d533c..e37c59f 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
@@ -37,6 +37,11 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_8/crypto_aead.c b/crypto_aead/isapa128av20/bi_8/crypto_aead.c
index 4a9bd29..005e2f3 100644
--- a/crypto_aead/isapa128av20/bi_8/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_8/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_32/crypto_aead.c b/crypto_aead/isapa128av20/opt_32/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapa128av20/opt_32/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
index e0d533c..e37c59f 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
@@ -37,6 +37,11 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_64/crypto_aead.c b/crypto_aead/isapa128av20/opt_64/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapa128av20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_64/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_8/crypto_aead.c b/crypto_aead/isapa128av20/opt_8/crypto_aead.c
index 4a9bd29..005e2f3 100644
--- a/crypto_aead/isapa128av20/opt_8/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_8/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/ref/crypto_aead.c b/crypto_aead/isapa128av20/ref/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapa128av20/ref/crypto_aead.c
+++ b/crypto_aead/isapa128av20/ref/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_32/crypto_aead.c b/crypto_aead/isapa128v20/opt_32/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapa128v20/opt_32/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_32/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c b/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_64/crypto_aead.c b/crypto_aead/isapa128v20/opt_64/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapa128v20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_64/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/ref/crypto_aead.c b/crypto_aead/isapa128v20/ref/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapa128v20/ref/crypto_aead.c
+++ b/crypto_aead/isapa128v20/ref/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/avx512/crypto_aead.c b/crypto_aead/isapk128av20/avx512/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapk128av20/avx512/crypto_aead.c
+++ b/crypto_aead/isapk128av20/avx512/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c b/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c b/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_64/crypto_aead.c b/crypto_aead/isapk128av20/opt_64/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapk128av20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_64/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/ref/crypto_aead.c b/crypto_aead/isapk128av20/ref/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapk128av20/ref/crypto_aead.c
+++ b/crypto_aead/isapk128av20/ref/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c b/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c b/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_64/crypto_aead.c b/crypto_aead/isapk128v20/opt_64/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapk128v20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_64/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/ref/crypto_aead.c b/crypto_aead/isapk128v20/ref/crypto_aead.c
index 2287e4d..6a15db8 100644
--- a/crypto_aead/isapk128v20/ref/crypto_aead.c
+++ b/crypto_aead/isapk128v20/ref/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapxv20/ref/crypto_aead.c b/crypto_aead/isapxv20/ref/crypto_aead.c
index 100427c..948b66c 100644
--- a/crypto_aead/isapxv20/ref/crypto_aead.c
+++ b/crypto_aead/isapxv20/ref/crypto_aead.c
@@ -35,6 +35,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext contains at least a tag
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
-- 
2.43.0


From 224b15fb7538bea5f7995da2604138af387d8f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:24 +0000
Subject: [PATCH 3/5] fix: stp: keep the tag comparison state of a call out of
 globals

Concurrent calls overwrote each other's s0 and s1 between isap_mac and pvp, so
a genuine ciphertext could be rejected.
---
 .../bi_32_armv6m_stp/crypto_aead.c            |  8 ++++---
 .../isapa128av20/bi_32_armv6m_stp/isap.c      | 21 +++++++++----------
 .../isapa128av20/bi_32_armv6m_stp/isap.h      |  6 ++++--
 .../isapa128av20/bi_32_stp/crypto_aead.c      |  8 ++++---
 crypto_aead/isapa128av20/bi_32_stp/isap.c     | 21 +++++++++----------
 crypto_aead/isapa128av20/bi_32_stp/isap.h     |  6 ++++--
 .../isapa128av20/opt_32_stp/crypto_aead.c     |  8 ++++---
 crypto_aead/isapa128av20/opt_32_stp/isap.c    | 21 +++++++++----------
 crypto_aead/isapa128av20/opt_32_stp/isap.h    |  6 ++++--
 9 files changed, 57 insertions(+), 48 deletions(-)

diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
index e37c59f..d96cf78 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t pvp_state[2];
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, pvp_state);
 	return 0;
 }
 
@@ -47,7 +48,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t pvp_state[2];
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, pvp_state);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -55,7 +57,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, pvp_state);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
index 2fa2aed..40acb2a 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,8 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag,
+    uint64_t *pvp_state)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +131,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    pvp_state[0] = s->x[0];
+    pvp_state[1] = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +153,8 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star,
+    const uint64_t *pvp_state)
 {
     state_t state;
     state_t *s = &state;
@@ -163,8 +162,8 @@ int pvp(
     // Calculate U
     s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = pvp_state[0];
+    s->x[3] = pvp_state[1];
     s->x[4] = 0;
     P_PVP;
     uint64_t u0, u1;
@@ -174,8 +173,8 @@ int pvp(
     // Calculate U'
     s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = pvp_state[0];
+    s->x[3] = pvp_state[1];
     s->x[4] = 0;
     P_PVP;
 
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
index ae37dcd..20ccf2c 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
@@ -33,11 +33,13 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag,
+	uint64_t *pvp_state);
 
 int pvp(
 	const unsigned char *T,
-	const unsigned char *T_star);
+	const unsigned char *T_star,
+	const uint64_t *pvp_state);
 
 void isap_enc(
 	const uint8_t *k,
diff --git a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
index e37c59f..d96cf78 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t pvp_state[2];
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, pvp_state);
 	return 0;
 }
 
@@ -47,7 +48,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t pvp_state[2];
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, pvp_state);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -55,7 +57,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, pvp_state);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/bi_32_stp/isap.c b/crypto_aead/isapa128av20/bi_32_stp/isap.c
index 2fa2aed..40acb2a 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,8 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag,
+    uint64_t *pvp_state)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +131,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    pvp_state[0] = s->x[0];
+    pvp_state[1] = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +153,8 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star,
+    const uint64_t *pvp_state)
 {
     state_t state;
     state_t *s = &state;
@@ -163,8 +162,8 @@ int pvp(
     // Calculate U
     s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = pvp_state[0];
+    s->x[3] = pvp_state[1];
     s->x[4] = 0;
     P_PVP;
     uint64_t u0, u1;
@@ -174,8 +173,8 @@ int pvp(
     // Calculate U'
     s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = pvp_state[0];
+    s->x[3] = pvp_state[1];
     s->x[4] = 0;
     P_PVP;
 
diff --git a/crypto_aead/isapa128av20/bi_32_stp/isap.h b/crypto_aead/isapa128av20/bi_32_stp/isap.h
index ae37dcd..20ccf2c 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/isap.h
+++ b/crypto_aead/isapa128av20/bi_32_stp/isap.h
@@ -33,11 +33,13 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag,
+	uint64_t *pvp_state);
 
 int pvp(
 	const unsigned char *T,
-	const unsigned char *T_star);
+	const unsigned char *T_star,
+	const uint64_t *pvp_state);
 
 void isap_enc(
 	const uint8_t *k,
diff --git a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
index e37c59f..d96cf78 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t pvp_state[2];
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, pvp_state);
 	return 0;
 }
 
@@ -47,7 +48,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t pvp_state[2];
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, pvp_state);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -55,7 +57,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, pvp_state);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/opt_32_stp/isap.c b/crypto_aead/isapa128av20/opt_32_stp/isap.c
index 2fa2aed..40acb2a 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,8 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag,
+    uint64_t *pvp_state)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +131,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    pvp_state[0] = s->x[0];
+    pvp_state[1] = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +153,8 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star,
+    const uint64_t *pvp_state)
 {
     state_t state;
     state_t *s = &state;
@@ -163,8 +162,8 @@ int pvp(
     // Calculate U
     s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = pvp_state[0];
+    s->x[3] = pvp_state[1];
     s->x[4] = 0;
     P_PVP;
     uint64_t u0, u1;
@@ -174,8 +173,8 @@ int pvp(
     // Calculate U'
     s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = pvp_state[0];
+    s->x[3] = pvp_state[1];
     s->x[4] = 0;
     P_PVP;
 
diff --git a/crypto_aead/isapa128av20/opt_32_stp/isap.h b/crypto_aead/isapa128av20/opt_32_stp/isap.h
index 55464cb..1bf2152 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/isap.h
+++ b/crypto_aead/isapa128av20/opt_32_stp/isap.h
@@ -33,11 +33,13 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag,
+	uint64_t *pvp_state);
 
 int pvp(
 	const uint8_t *T,
-	const uint8_t *T_star);
+	const uint8_t *T_star,
+	const uint64_t *pvp_state);
 
 void isap_enc(
 	const uint8_t *k,
-- 
2.43.0


From a14f4328e5d16da9785535e231d564a688a8a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:24 +0000
Subject: [PATCH 4/5] fix: isapk opt_64: do not read past the end of an 18-byte
 block

The last 16-bit lane was loaded as 64 bits, up to 6 bytes behind the input.
---
 crypto_aead/isapk128av20/opt_64/isap.c | 4 ++--
 crypto_aead/isapk128v20/opt_64/isap.c  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crypto_aead/isapk128av20/opt_64/isap.c b/crypto_aead/isapk128av20/opt_64/isap.c
index 8011b82..792def3 100644
--- a/crypto_aead/isapk128av20/opt_64/isap.c
+++ b/crypto_aead/isapk128av20/opt_64/isap.c
@@ -60,14 +60,14 @@ union State {
         if(rem_bytes>ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             idx += ISAP_rH_SZ; \
             rem_bytes -= ISAP_rH_SZ; \
             PermuteRoundsHX; \
         } else if(rem_bytes==ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             PermuteRoundsHX; \
             S.X.Aba ^= 0x80ULL; \
             PermuteRoundsHX; \
diff --git a/crypto_aead/isapk128v20/opt_64/isap.c b/crypto_aead/isapk128v20/opt_64/isap.c
index 60ad9c2..cb9decc 100644
--- a/crypto_aead/isapk128v20/opt_64/isap.c
+++ b/crypto_aead/isapk128v20/opt_64/isap.c
@@ -60,14 +60,14 @@ union State {
         if(rem_bytes>ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             idx += ISAP_rH_SZ; \
             rem_bytes -= ISAP_rH_SZ; \
             PermuteRoundsHX; \
         } else if(rem_bytes==ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             PermuteRoundsHX; \
             S.X.Aba ^= 0x80ULL; \
             PermuteRoundsHX; \
-- 
2.43.0


From 5d6254bd5a9bd144671041d38c9954d62f432a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:42 +0000
Subject: [PATCH 5/5] fix: bi_32, bi_32_armv6m_stp, opt_32_armv67m: accept
 buffers of any alignment

Lanes were read and written through 64-bit pointers into the caller's byte
buffers, which compilers turn into LDRD/LDM/STRD on ARM; those fault on
addresses that are not a multiple of four.
---
 crypto_aead/isapa128av20/bi_32/isap.c         | 29 ++++++++++-----
 .../isapa128av20/bi_32_armv6m_stp/isap.c      | 37 ++++++++++++-------
 crypto_aead/isapa128v20/opt_32_armv67m/isap.c | 36 ++++++++++++------
 3 files changed, 66 insertions(+), 36 deletions(-)

diff --git a/crypto_aead/isapa128av20/bi_32/isap.c b/crypto_aead/isapa128av20/bi_32/isap.c
index d4009e0..0f44c6a 100644
--- a/crypto_aead/isapa128av20/bi_32/isap.c
+++ b/crypto_aead/isapa128av20/bi_32/isap.c
@@ -5,12 +5,20 @@
 #include "asconp.h"
 #include "config.h"
 
+// Load a lane from a buffer of any alignment
+forceinline lane_t LOADLANE(const uint8_t *src)
+{
+    lane_t t0;
+    memcpy(t0.b, src, 8);
+    return t0;
+}
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(LOADLANE(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +63,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(LOADLANE(k + 0));
+    s->l[1] = U64TOWORD(LOADLANE(k + 8));
+    s->l[2] = U64TOWORD(LOADLANE(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,8 +121,8 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[0] = U64TOWORD(LOADLANE(npub + 0));
+    s->l[1] = U64TOWORD(LOADLANE(npub + 8));
     s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
@@ -158,15 +166,16 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(LOADLANE(npub + 0));
+    s->l[4] = U64TOWORD(LOADLANE(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        t0.x ^= LOADLANE(m).x;
+        memcpy(c, t0.b, 8);
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -213,7 +222,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        memcpy(out + 8 * i, t0.b, 8);
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
index 40acb2a..394583c 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
@@ -5,12 +5,20 @@
 #include "asconp.h"
 #include "config.h"
 
+// Load a lane from a buffer of any alignment
+forceinline lane_t LOADLANE(const uint8_t *src)
+{
+    lane_t t0;
+    memcpy(t0.b, src, 8);
+    return t0;
+}
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(LOADLANE(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +63,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(LOADLANE(k + 0));
+    s->l[1] = U64TOWORD(LOADLANE(k + 8));
+    s->l[2] = U64TOWORD(LOADLANE(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -114,8 +122,8 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[0] = U64TOWORD(LOADLANE(npub + 0));
+    s->l[1] = U64TOWORD(LOADLANE(npub + 8));
     s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
@@ -160,8 +168,8 @@ int pvp(
     state_t *s = &state;
 
     // Calculate U
-    s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
+    s->l[0] = U64TOWORD(LOADLANE(T + 0));
+    s->l[1] = U64TOWORD(LOADLANE(T + 8));
     s->x[2] = pvp_state[0];
     s->x[3] = pvp_state[1];
     s->x[4] = 0;
@@ -171,8 +179,8 @@ int pvp(
     u1 = s->x[1];
 
     // Calculate U'
-    s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
+    s->l[0] = U64TOWORD(LOADLANE(T_star + 0));
+    s->l[1] = U64TOWORD(LOADLANE(T_star + 8));
     s->x[2] = pvp_state[0];
     s->x[3] = pvp_state[1];
     s->x[4] = 0;
@@ -207,15 +215,16 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(LOADLANE(npub + 0));
+    s->l[4] = U64TOWORD(LOADLANE(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        t0.x ^= LOADLANE(m).x;
+        memcpy(c, t0.b, 8);
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -262,7 +271,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        memcpy(out + 8 * i, t0.b, 8);
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128v20/opt_32_armv67m/isap.c b/crypto_aead/isapa128v20/opt_32_armv67m/isap.c
index 6cd7749..d144f21 100644
--- a/crypto_aead/isapa128v20/opt_32_armv67m/isap.c
+++ b/crypto_aead/isapa128v20/opt_32_armv67m/isap.c
@@ -1,3 +1,4 @@
+#include <string.h>
 #include "api.h"
 #include "isap.h"
 #include "asconp.h"
@@ -14,6 +15,14 @@ const u8 ISAP_IV_KE[] = {0x03, ISAP_K, ISAP_rH, ISAP_rB, ISAP_sH, ISAP_sB, ISAP_
 #define P_sK P_LOOP(12)
 #define P_sK_UROL P_12()
 
+// Load a big-endian lane from a buffer of any alignment
+static u64 LOADU64BIG(const u8 *src)
+{
+    u64 x;
+    memcpy(&x, src, 8);
+    return U64BIG(x);
+}
+
 /******************************************************************************/
 /*                                 ISAP_RK                                    */
 /******************************************************************************/
@@ -29,9 +38,9 @@ void isap_rk(
     u32_2 x0, x1, x2, x3, x4;
 
     // Initialize
-    to_bit_interleaving(&x0, U64BIG(*(u64 *)(k + 0)));
-    to_bit_interleaving(&x1, U64BIG(*(u64 *)(k + 8)));
-    to_bit_interleaving(&x2, U64BIG(*(u64 *)(iv + 0)));
+    to_bit_interleaving(&x0, LOADU64BIG(k + 0));
+    to_bit_interleaving(&x1, LOADU64BIG(k + 8));
+    to_bit_interleaving(&x2, LOADU64BIG(iv + 0));
     x3.o = 0;
     x3.e = 0;
     x4.o = 0;
@@ -106,8 +115,8 @@ void isap_mac(
     u64 tmp0;
 
     // Initialize
-    to_bit_interleaving(&x0, U64BIG(*(u64 *)npub + 0));
-    to_bit_interleaving(&x1, U64BIG(*(u64 *)(npub + 8)));
+    to_bit_interleaving(&x0, LOADU64BIG(npub + 0));
+    to_bit_interleaving(&x1, LOADU64BIG(npub + 8));
     to_bit_interleaving(&x2, U64BIG(*(u64 *)(ISAP_IV_A)));
     x3.o = 0;
     x3.e = 0;
@@ -118,7 +127,7 @@ void isap_mac(
     // Absorb full lanes of AD
     while (adlen >= 8)
     {
-        to_bit_interleaving(&t0, U64BIG(*(u64 *)ad));
+        to_bit_interleaving(&t0, LOADU64BIG(ad));
         x0.e ^= t0.e;
         x0.o ^= t0.o;
         adlen -= ISAP_rH / 8;
@@ -157,7 +166,7 @@ void isap_mac(
     // Absorb full lanes of C
     while (clen >= 8)
     {
-        to_bit_interleaving(&t0, U64BIG(*(u64 *)c));
+        to_bit_interleaving(&t0, LOADU64BIG(c));
         x0.e ^= t0.e;
         x0.o ^= t0.o;
         P_sH_UROL;
@@ -206,9 +215,11 @@ void isap_mac(
     x1.e = ka_star32[3];
     P_sH;
     from_bit_interleaving(&tmp0, x0);
-    *(u64 *)(tag + 0) = U64BIG(tmp0);
+    tmp0 = U64BIG(tmp0);
+    memcpy(tag + 0, &tmp0, 8);
     from_bit_interleaving(&tmp0, x1);
-    *(u64 *)(tag + 8) = U64BIG(tmp0);
+    tmp0 = U64BIG(tmp0);
+    memcpy(tag + 8, &tmp0, 8);
 }
 
 /******************************************************************************/
@@ -236,15 +247,16 @@ void isap_enc(
     x1.e = *(u32 *)(ke + 12);
     x2.o = *(u32 *)(ke + 16);
     x2.e = *(u32 *)(ke + 20);
-    to_bit_interleaving(&x3, U64BIG(*(u64 *)npub));
-    to_bit_interleaving(&x4, U64BIG(*(u64 *)(npub + 8)));
+    to_bit_interleaving(&x3, LOADU64BIG(npub));
+    to_bit_interleaving(&x4, LOADU64BIG(npub + 8));
 
     // Squeeze full lanes
     while (mlen >= 8)
     {
         P_sE_UROL;
         from_bit_interleaving(&tmp0, x0);
-        *(u64 *)c = *(u64 *)m ^ U64BIG(tmp0);
+        tmp0 = U64BIG(tmp0 ^ LOADU64BIG(m));
+        memcpy(c, &tmp0, 8);
         mlen -= 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
-- 
2.43.0

