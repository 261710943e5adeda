From 479cfd3fbc27fd2d73e9bd2ea0c996dfdf307d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 1/6] fix: bi_32_armv7m: move the Ascon state lanes back after
 each round

The round assembly leaves lanes 0..4 in the registers of lanes 2,3,4,0,1,
so every result of this implementation was wrong.
---
 crypto_aead/isapa128av20/bi_32_armv7m/asconp.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h b/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
index 87ab8e8..578d3f3 100644
--- a/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
+++ b/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
@@ -159,6 +159,15 @@ forceinline void ROUND(state_t *s, uint64_t C)
           [tmp1] "=r"(tmp1), [tmp2] "=r"(tmp2)
         : [C_e] "i"((uint32_t)C), [C_o] "i"((uint32_t)(C >> 32))
         :);
+
+    // The round above leaves the lanes renamed: move them back to their place
+    lane_t t0 = s->l[0];
+    lane_t t1 = s->l[1];
+    s->l[0] = s->l[2];
+    s->l[1] = s->l[3];
+    s->l[2] = s->l[4];
+    s->l[3] = t0;
+    s->l[4] = t1;
 }
 
 /* ---------------------------------------------------------------- */
-- 
2.43.0


From 40dc2be652c5015758f8a9760cc0b7c19a9500ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 2/6] fix: isapk opt_64: read only the last 2 bytes of an
 18-byte block

The MAC read 8 bytes for the 16-bit lane, 6 bytes past the end of the input.
---
 crypto_aead/isapk128av20/opt_64/isap.c | 4 ++--
 crypto_aead/isapk128v20/opt_64/isap.c  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crypto_aead/isapk128av20/opt_64/isap.c b/crypto_aead/isapk128av20/opt_64/isap.c
index 8011b82..792def3 100644
--- a/crypto_aead/isapk128av20/opt_64/isap.c
+++ b/crypto_aead/isapk128av20/opt_64/isap.c
@@ -60,14 +60,14 @@ union State {
         if(rem_bytes>ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             idx += ISAP_rH_SZ; \
             rem_bytes -= ISAP_rH_SZ; \
             PermuteRoundsHX; \
         } else if(rem_bytes==ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             PermuteRoundsHX; \
             S.X.Aba ^= 0x80ULL; \
             PermuteRoundsHX; \
diff --git a/crypto_aead/isapk128v20/opt_64/isap.c b/crypto_aead/isapk128v20/opt_64/isap.c
index 60ad9c2..cb9decc 100644
--- a/crypto_aead/isapk128v20/opt_64/isap.c
+++ b/crypto_aead/isapk128v20/opt_64/isap.c
@@ -60,14 +60,14 @@ union State {
         if(rem_bytes>ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             idx += ISAP_rH_SZ; \
             rem_bytes -= ISAP_rH_SZ; \
             PermuteRoundsHX; \
         } else if(rem_bytes==ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             PermuteRoundsHX; \
             S.X.Aba ^= 0x80ULL; \
             PermuteRoundsHX; \
-- 
2.43.0


From fd8a3b161587583dba0199134823c2589f040b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:04 +0000
Subject: [PATCH 3/6] fix: stp variants: keep the tag verification lanes per
 call

They were in global variables, so concurrent decryptions overwrote each
other's lanes and rejected genuine ciphertexts.
---
 .../bi_32_armv6m_stp/crypto_aead.c            |  8 ++++---
 .../isapa128av20/bi_32_armv6m_stp/isap.c      | 21 +++++++++----------
 .../isapa128av20/bi_32_armv6m_stp/isap.h      |  6 ++++--
 .../isapa128av20/bi_32_stp/crypto_aead.c      |  8 ++++---
 crypto_aead/isapa128av20/bi_32_stp/isap.c     | 21 +++++++++----------
 crypto_aead/isapa128av20/bi_32_stp/isap.h     |  6 ++++--
 .../isapa128av20/opt_32_stp/crypto_aead.c     |  8 ++++---
 crypto_aead/isapa128av20/opt_32_stp/isap.c    | 21 +++++++++----------
 crypto_aead/isapa128av20/opt_32_stp/isap.h    |  6 ++++--
 9 files changed, 57 insertions(+), 48 deletions(-)

diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
index e0d533c..409a683 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t pvp_lanes[2];
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, pvp_lanes);
 	return 0;
 }
 
@@ -42,7 +43,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t pvp_lanes[2];
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, pvp_lanes);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -50,7 +52,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, pvp_lanes);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
index 2fa2aed..62ef97a 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,8 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag,
+    uint64_t *pvp_lanes)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +131,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    pvp_lanes[0] = s->x[0];
+    pvp_lanes[1] = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +153,8 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star,
+    const uint64_t *pvp_lanes)
 {
     state_t state;
     state_t *s = &state;
@@ -163,8 +162,8 @@ int pvp(
     // Calculate U
     s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = pvp_lanes[0];
+    s->x[3] = pvp_lanes[1];
     s->x[4] = 0;
     P_PVP;
     uint64_t u0, u1;
@@ -174,8 +173,8 @@ int pvp(
     // Calculate U'
     s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = pvp_lanes[0];
+    s->x[3] = pvp_lanes[1];
     s->x[4] = 0;
     P_PVP;
 
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
index ae37dcd..52a547c 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
@@ -33,11 +33,13 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag,
+	uint64_t *pvp_lanes);
 
 int pvp(
 	const unsigned char *T,
-	const unsigned char *T_star);
+	const unsigned char *T_star,
+	const uint64_t *pvp_lanes);
 
 void isap_enc(
 	const uint8_t *k,
diff --git a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
index e0d533c..409a683 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t pvp_lanes[2];
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, pvp_lanes);
 	return 0;
 }
 
@@ -42,7 +43,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t pvp_lanes[2];
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, pvp_lanes);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -50,7 +52,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, pvp_lanes);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/bi_32_stp/isap.c b/crypto_aead/isapa128av20/bi_32_stp/isap.c
index 2fa2aed..62ef97a 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,8 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag,
+    uint64_t *pvp_lanes)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +131,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    pvp_lanes[0] = s->x[0];
+    pvp_lanes[1] = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +153,8 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star,
+    const uint64_t *pvp_lanes)
 {
     state_t state;
     state_t *s = &state;
@@ -163,8 +162,8 @@ int pvp(
     // Calculate U
     s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = pvp_lanes[0];
+    s->x[3] = pvp_lanes[1];
     s->x[4] = 0;
     P_PVP;
     uint64_t u0, u1;
@@ -174,8 +173,8 @@ int pvp(
     // Calculate U'
     s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = pvp_lanes[0];
+    s->x[3] = pvp_lanes[1];
     s->x[4] = 0;
     P_PVP;
 
diff --git a/crypto_aead/isapa128av20/bi_32_stp/isap.h b/crypto_aead/isapa128av20/bi_32_stp/isap.h
index ae37dcd..52a547c 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/isap.h
+++ b/crypto_aead/isapa128av20/bi_32_stp/isap.h
@@ -33,11 +33,13 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag,
+	uint64_t *pvp_lanes);
 
 int pvp(
 	const unsigned char *T,
-	const unsigned char *T_star);
+	const unsigned char *T_star,
+	const uint64_t *pvp_lanes);
 
 void isap_enc(
 	const uint8_t *k,
diff --git a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
index e0d533c..409a683 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t pvp_lanes[2];
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, pvp_lanes);
 	return 0;
 }
 
@@ -42,7 +43,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t pvp_lanes[2];
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, pvp_lanes);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -50,7 +52,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, pvp_lanes);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/opt_32_stp/isap.c b/crypto_aead/isapa128av20/opt_32_stp/isap.c
index 2fa2aed..62ef97a 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,8 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag,
+    uint64_t *pvp_lanes)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +131,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    pvp_lanes[0] = s->x[0];
+    pvp_lanes[1] = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +153,8 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star,
+    const uint64_t *pvp_lanes)
 {
     state_t state;
     state_t *s = &state;
@@ -163,8 +162,8 @@ int pvp(
     // Calculate U
     s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = pvp_lanes[0];
+    s->x[3] = pvp_lanes[1];
     s->x[4] = 0;
     P_PVP;
     uint64_t u0, u1;
@@ -174,8 +173,8 @@ int pvp(
     // Calculate U'
     s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = pvp_lanes[0];
+    s->x[3] = pvp_lanes[1];
     s->x[4] = 0;
     P_PVP;
 
diff --git a/crypto_aead/isapa128av20/opt_32_stp/isap.h b/crypto_aead/isapa128av20/opt_32_stp/isap.h
index 55464cb..144a29e 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/isap.h
+++ b/crypto_aead/isapa128av20/opt_32_stp/isap.h
@@ -33,11 +33,13 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag,
+	uint64_t *pvp_lanes);
 
 int pvp(
 	const uint8_t *T,
-	const uint8_t *T_star);
+	const uint8_t *T_star,
+	const uint64_t *pvp_lanes);
 
 void isap_enc(
 	const uint8_t *k,
-- 
2.43.0


From 98fbdf3ac3a9dabad033a36c1a54d3ab3cd6e5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:28 +0000
Subject: [PATCH 4/6] fix: reject ciphertexts shorter than the tag

The plaintext length underflowed and decryption read far outside the
ciphertext buffer.
---
 crypto_aead/isapa128av20/avx_512/crypto_aead.c          | 6 ++++++
 crypto_aead/isapa128av20/bi_32/crypto_aead.c            | 6 ++++++
 crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c | 6 ++++++
 crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c        | 6 ++++++
 crypto_aead/isapa128av20/bi_8/crypto_aead.c             | 6 ++++++
 crypto_aead/isapa128av20/opt_32/crypto_aead.c           | 6 ++++++
 crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c       | 6 ++++++
 crypto_aead/isapa128av20/opt_64/crypto_aead.c           | 6 ++++++
 crypto_aead/isapa128av20/opt_8/crypto_aead.c            | 6 ++++++
 crypto_aead/isapa128av20/ref/crypto_aead.c              | 6 ++++++
 crypto_aead/isapa128v20/opt_32/crypto_aead.c            | 6 ++++++
 crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c    | 6 ++++++
 crypto_aead/isapa128v20/opt_64/crypto_aead.c            | 6 ++++++
 crypto_aead/isapa128v20/ref/crypto_aead.c               | 6 ++++++
 crypto_aead/isapk128av20/avx512/crypto_aead.c           | 6 ++++++
 crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c    | 6 ++++++
 crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c    | 6 ++++++
 crypto_aead/isapk128av20/opt_64/crypto_aead.c           | 6 ++++++
 crypto_aead/isapk128av20/ref/crypto_aead.c              | 6 ++++++
 crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c     | 6 ++++++
 crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c     | 6 ++++++
 crypto_aead/isapk128v20/opt_64/crypto_aead.c            | 6 ++++++
 crypto_aead/isapk128v20/ref/crypto_aead.c               | 6 ++++++
 crypto_aead/isapxv20/ref/crypto_aead.c                  | 6 ++++++
 24 files changed, 144 insertions(+)

diff --git a/crypto_aead/isapa128av20/avx_512/crypto_aead.c b/crypto_aead/isapa128av20/avx_512/crypto_aead.c
index 58f7641..457857a 100644
--- a/crypto_aead/isapa128av20/avx_512/crypto_aead.c
+++ b/crypto_aead/isapa128av20/avx_512/crypto_aead.c
@@ -31,6 +31,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32/crypto_aead.c b/crypto_aead/isapa128av20/bi_32/crypto_aead.c
index 4a9bd29..eef04ab 100644
--- a/crypto_aead/isapa128av20/bi_32/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
index 409a683..0d5dcc3 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
@@ -38,6 +38,12 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
index 409a683..0d5dcc3 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
@@ -38,6 +38,12 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_8/crypto_aead.c b/crypto_aead/isapa128av20/bi_8/crypto_aead.c
index 4a9bd29..eef04ab 100644
--- a/crypto_aead/isapa128av20/bi_8/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_8/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_32/crypto_aead.c b/crypto_aead/isapa128av20/opt_32/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapa128av20/opt_32/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
index 409a683..0d5dcc3 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
@@ -38,6 +38,12 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_64/crypto_aead.c b/crypto_aead/isapa128av20/opt_64/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapa128av20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_64/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_8/crypto_aead.c b/crypto_aead/isapa128av20/opt_8/crypto_aead.c
index 4a9bd29..eef04ab 100644
--- a/crypto_aead/isapa128av20/opt_8/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_8/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/ref/crypto_aead.c b/crypto_aead/isapa128av20/ref/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapa128av20/ref/crypto_aead.c
+++ b/crypto_aead/isapa128av20/ref/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_32/crypto_aead.c b/crypto_aead/isapa128v20/opt_32/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapa128v20/opt_32/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_32/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c b/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_64/crypto_aead.c b/crypto_aead/isapa128v20/opt_64/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapa128v20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_64/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/ref/crypto_aead.c b/crypto_aead/isapa128v20/ref/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapa128v20/ref/crypto_aead.c
+++ b/crypto_aead/isapa128v20/ref/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/avx512/crypto_aead.c b/crypto_aead/isapk128av20/avx512/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapk128av20/avx512/crypto_aead.c
+++ b/crypto_aead/isapk128av20/avx512/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c b/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c b/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_64/crypto_aead.c b/crypto_aead/isapk128av20/opt_64/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapk128av20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_64/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/ref/crypto_aead.c b/crypto_aead/isapk128av20/ref/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapk128av20/ref/crypto_aead.c
+++ b/crypto_aead/isapk128av20/ref/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c b/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c b/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_64/crypto_aead.c b/crypto_aead/isapk128v20/opt_64/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapk128v20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_64/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/ref/crypto_aead.c b/crypto_aead/isapk128v20/ref/crypto_aead.c
index 2287e4d..2592f70 100644
--- a/crypto_aead/isapk128v20/ref/crypto_aead.c
+++ b/crypto_aead/isapk128v20/ref/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapxv20/ref/crypto_aead.c b/crypto_aead/isapxv20/ref/crypto_aead.c
index 100427c..3698730 100644
--- a/crypto_aead/isapxv20/ref/crypto_aead.c
+++ b/crypto_aead/isapxv20/ref/crypto_aead.c
@@ -35,6 +35,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext without a complete tag is invalid
+	if (clen < ISAP_TAG_SZ) {
+		*mlen = 0;
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
-- 
2.43.0


From 9cdb008525423b4796db69f5f8cdc3a7313ec1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 5/6] fix: accept caller buffers of any alignment

The isap.c files read and wrote caller buffers (key, nonce, message, associated
data, ciphertext, tag) through pointers to 16-, 32- and 64-bit types. The API
takes byte strings, so those accesses were undefined whenever a buffer was not
aligned, and faulted on ARM (ldrd/ldm). Access them through 1-byte-aligned types
instead.
---
 crypto_aead/isapa128av20/avx_512/isap.c       | 37 +++++++------
 crypto_aead/isapa128av20/bi_32/isap.c         | 28 +++++-----
 .../isapa128av20/bi_32_armv6m_stp/isap.c      | 36 +++++++------
 crypto_aead/isapa128av20/bi_32_stp/isap.c     | 36 +++++++------
 crypto_aead/isapa128av20/bi_8/isap.c          | 28 +++++-----
 crypto_aead/isapa128av20/opt_32/isap.c        | 28 +++++-----
 crypto_aead/isapa128av20/opt_32_stp/isap.c    | 36 +++++++------
 crypto_aead/isapa128av20/opt_32_tiny/isap.c   | 28 +++++-----
 crypto_aead/isapa128av20/opt_64/isap.c        | 28 +++++-----
 crypto_aead/isapa128av20/opt_8/isap.c         | 28 +++++-----
 crypto_aead/isapa128av20/opt_8_tiny/isap.c    | 28 +++++-----
 crypto_aead/isapa128v20/opt_32/isap.c         | 54 ++++++++++---------
 crypto_aead/isapa128v20/opt_32_armv67m/isap.c | 54 ++++++++++---------
 crypto_aead/isapa128v20/opt_64/isap.c         | 27 +++++-----
 crypto_aead/isapk128av20/avx512/isap.c        | 17 +++---
 crypto_aead/isapk128av20/opt_32_armv6m/isap.c | 15 +++---
 crypto_aead/isapk128av20/opt_32_armv7m/isap.c | 15 +++---
 crypto_aead/isapk128av20/opt_64/isap.c        | 42 ++++++++-------
 crypto_aead/isapk128v20/opt_32_armv6m/isap.c  | 15 +++---
 crypto_aead/isapk128v20/opt_32_armv7m/isap.c  | 15 +++---
 crypto_aead/isapk128v20/opt_64/isap.c         | 42 ++++++++-------
 21 files changed, 357 insertions(+), 280 deletions(-)

diff --git a/crypto_aead/isapa128av20/avx_512/isap.c b/crypto_aead/isapa128av20/avx_512/isap.c
index c431075..dbeecb2 100644
--- a/crypto_aead/isapa128av20/avx_512/isap.c
+++ b/crypto_aead/isapa128av20/avx_512/isap.c
@@ -9,6 +9,9 @@ typedef unsigned long long u64;
 typedef unsigned long u32;
 typedef long long i64;
 
+// Caller buffers are byte strings of any alignment
+typedef u64 u64_u __attribute__((aligned(1), may_alias));
+
 const u8 ISAP_IV1[] = {0x01,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const u8 ISAP_IV2[] = {0x02,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const u8 ISAP_IV3[] = {0x03,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
@@ -159,7 +162,7 @@ static const int R[5][2] = {
 
 #define ABSORB_LANES(src, len) ({ \
     u32 rem_bytes = len; \
-    u64 *src64 = (u64 *)src; \
+    u64_u *src64 = (u64_u *)src; \
     u32 idx64 = 0; \
     while(1){ \
         if(rem_bytes>ISAP_rH_SZ){ \
@@ -204,9 +207,9 @@ void isap_rk(
 	u8 *out,
 	const u64 outlen
 ){
-    const u64 *k64 = (u64 *)k;
-    const u64 *iv64 = (u64 *)iv;
-    u64 *out64 = (u64 *)out;
+    const u64_u *k64 = (u64_u *)k;
+    const u64_u *iv64 = (u64_u *)iv;
+    u64_u *out64 = (u64_u *)out;
     u64 x0, x1, x2, x3, x4;
     u64 t0, t1, t2, t3, t4;
 
@@ -250,8 +253,8 @@ void isap_mac(
     u8 *tag
 ){
     u8 state[ISAP_STATE_SZ];
-    const u64 *npub64 = (u64 *)npub;
-    u64 *state64 = (u64 *)state;
+    const u64_u *npub64 = (u64_u *)npub;
+    u64_u *state64 = (u64_u *)state;
     u64 x0, x1, x2, x3, x4;
     u64 t0, t1, t2, t3, t4;
     t0 = t1 = t2 = t3 = t4 = 0;
@@ -259,7 +262,7 @@ void isap_mac(
     // Init state
     x0 = U64BIG(npub64[0]);
     x1 = U64BIG(npub64[1]);
-    x2 = U64BIG(((u64 *)ISAP_IV1)[0]);
+    x2 = U64BIG(((u64_u *)ISAP_IV1)[0]);
     x3 = x4 = 0;
     P12;
 
@@ -289,7 +292,7 @@ void isap_mac(
 
     // Squeeze tag
     P12;
-    unsigned long long *tag64 = (u64 *)tag;
+    u64_u *tag64 = (u64_u *)tag;
     tag64[0] = U64BIG(x0);
     tag64[1] = U64BIG(x1);
 }
@@ -308,8 +311,8 @@ void isap_enc(
     u8 state[ISAP_STATE_SZ];
 
     // Init state
-    u64 *state64 = (u64 *)state;
-    u64 *npub64 = (u64 *)npub;
+    u64_u *state64 = (u64_u *)state;
+    u64_u *npub64 = (u64_u *)npub;
     isap_rk(k,ISAP_IV3,npub,CRYPTO_NPUBBYTES,state,ISAP_STATE_SZ-CRYPTO_NPUBBYTES);
     u64 x0, x1, x2, x3, x4;
     u64 t0, t1, t2, t3, t4;
@@ -323,8 +326,8 @@ void isap_enc(
 
     // Squeeze key stream
     u64 rem_bytes = mlen;
-    u64 *m64 = (u64 *)m;
-    u64 *c64 = (u64 *)c;
+    u64_u *m64 = (u64_u *)m;
+    u64_u *c64 = (u64_u *)c;
     u32 idx64 = 0;
     while(1){
         if(rem_bytes>ISAP_rH_SZ){
@@ -365,8 +368,8 @@ void isap_mac_enc(
     u8 *tag
 ){
     u8 state_mac[ISAP_STATE_SZ];
-    const u64 *npub64 = (u64 *)npub;
-    u64 *state_mac64 = (u64 *)state_mac;
+    const u64_u *npub64 = (u64_u *)npub;
+    u64_u *state_mac64 = (u64_u *)state_mac;
     u64 x0, x1, x2, x3, x4;
     u64 t0, t1, t2, t3, t4;
     __m128i x0a, x1a, x2a, x3a, x4a;
@@ -376,7 +379,7 @@ void isap_mac_enc(
     u8 state_enc[ISAP_STATE_SZ];
 
     // Init state_enc
-    u64 *state_enc64 = (u64 *)state_enc;
+    u64_u *state_enc64 = (u64_u *)state_enc;
     isap_rk(k,ISAP_IV3,npub,CRYPTO_NPUBBYTES,state_enc,ISAP_STATE_SZ-CRYPTO_NPUBBYTES);
     t0 = t1 = t2 = t3 = t4 = 0;
      
@@ -386,7 +389,7 @@ void isap_mac_enc(
     // Init state_mac
     x0 = U64BIG(npub64[0]);
     x1 = U64BIG(npub64[1]);
-    x2 = U64BIG(((u64 *)ISAP_IV1)[0]);
+    x2 = U64BIG(((u64_u *)ISAP_IV1)[0]);
     x3 = x4 = 0;
     P12;
 
@@ -548,7 +551,7 @@ void isap_mac_enc(
 
     // Squeeze tag
     P12;
-    unsigned long long *tag64 = (u64 *)tag;
+    u64_u *tag64 = (u64_u *)tag;
     tag64[0] = U64BIG(x0);
     tag64[1] = U64BIG(x1);
 }
diff --git a/crypto_aead/isapa128av20/bi_32/isap.c b/crypto_aead/isapa128av20/bi_32/isap.c
index d4009e0..64ffe0c 100644
--- a/crypto_aead/isapa128av20/bi_32/isap.c
+++ b/crypto_aead/isapa128av20/bi_32/isap.c
@@ -5,12 +5,16 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller buffers are byte strings of any alignment
+typedef lane_t lane_u __attribute__((aligned(1)));
+typedef uint64_t u64_u __attribute__((aligned(1), may_alias));
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(*(const lane_u *)(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +59,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(k + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(k + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +117,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(npub + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -158,15 +162,15 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[4] = U64TOWORD(*(const lane_u *)(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        *(u64_u *)c = *(u64_u *)m ^ t0.x;
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -199,7 +203,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -213,7 +217,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        *(u64_u *)(out + 8 * i) = t0.x;
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
index 62ef97a..cdab2a5 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
@@ -5,12 +5,16 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller buffers are byte strings of any alignment
+typedef lane_t lane_u __attribute__((aligned(1)));
+typedef uint64_t u64_u __attribute__((aligned(1), may_alias));
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(*(const lane_u *)(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +59,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(k + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(k + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -114,9 +118,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(npub + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -160,8 +164,8 @@ int pvp(
     state_t *s = &state;
 
     // Calculate U
-    s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
+    s->l[0] = U64TOWORD(*(const lane_u *)(T + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(T + 8));
     s->x[2] = pvp_lanes[0];
     s->x[3] = pvp_lanes[1];
     s->x[4] = 0;
@@ -171,8 +175,8 @@ int pvp(
     u1 = s->x[1];
 
     // Calculate U'
-    s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
+    s->l[0] = U64TOWORD(*(const lane_u *)(T_star + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(T_star + 8));
     s->x[2] = pvp_lanes[0];
     s->x[3] = pvp_lanes[1];
     s->x[4] = 0;
@@ -207,15 +211,15 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[4] = U64TOWORD(*(const lane_u *)(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        *(u64_u *)c = *(u64_u *)m ^ t0.x;
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -248,7 +252,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -262,7 +266,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        *(u64_u *)(out + 8 * i) = t0.x;
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/bi_32_stp/isap.c b/crypto_aead/isapa128av20/bi_32_stp/isap.c
index 62ef97a..cdab2a5 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/isap.c
@@ -5,12 +5,16 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller buffers are byte strings of any alignment
+typedef lane_t lane_u __attribute__((aligned(1)));
+typedef uint64_t u64_u __attribute__((aligned(1), may_alias));
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(*(const lane_u *)(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +59,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(k + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(k + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -114,9 +118,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(npub + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -160,8 +164,8 @@ int pvp(
     state_t *s = &state;
 
     // Calculate U
-    s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
+    s->l[0] = U64TOWORD(*(const lane_u *)(T + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(T + 8));
     s->x[2] = pvp_lanes[0];
     s->x[3] = pvp_lanes[1];
     s->x[4] = 0;
@@ -171,8 +175,8 @@ int pvp(
     u1 = s->x[1];
 
     // Calculate U'
-    s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
+    s->l[0] = U64TOWORD(*(const lane_u *)(T_star + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(T_star + 8));
     s->x[2] = pvp_lanes[0];
     s->x[3] = pvp_lanes[1];
     s->x[4] = 0;
@@ -207,15 +211,15 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[4] = U64TOWORD(*(const lane_u *)(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        *(u64_u *)c = *(u64_u *)m ^ t0.x;
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -248,7 +252,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -262,7 +266,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        *(u64_u *)(out + 8 * i) = t0.x;
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/bi_8/isap.c b/crypto_aead/isapa128av20/bi_8/isap.c
index d4009e0..64ffe0c 100644
--- a/crypto_aead/isapa128av20/bi_8/isap.c
+++ b/crypto_aead/isapa128av20/bi_8/isap.c
@@ -5,12 +5,16 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller buffers are byte strings of any alignment
+typedef lane_t lane_u __attribute__((aligned(1)));
+typedef uint64_t u64_u __attribute__((aligned(1), may_alias));
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(*(const lane_u *)(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +59,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(k + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(k + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +117,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(npub + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -158,15 +162,15 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[4] = U64TOWORD(*(const lane_u *)(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        *(u64_u *)c = *(u64_u *)m ^ t0.x;
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -199,7 +203,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -213,7 +217,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        *(u64_u *)(out + 8 * i) = t0.x;
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/opt_32/isap.c b/crypto_aead/isapa128av20/opt_32/isap.c
index d4009e0..64ffe0c 100644
--- a/crypto_aead/isapa128av20/opt_32/isap.c
+++ b/crypto_aead/isapa128av20/opt_32/isap.c
@@ -5,12 +5,16 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller buffers are byte strings of any alignment
+typedef lane_t lane_u __attribute__((aligned(1)));
+typedef uint64_t u64_u __attribute__((aligned(1), may_alias));
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(*(const lane_u *)(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +59,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(k + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(k + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +117,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(npub + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -158,15 +162,15 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[4] = U64TOWORD(*(const lane_u *)(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        *(u64_u *)c = *(u64_u *)m ^ t0.x;
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -199,7 +203,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -213,7 +217,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        *(u64_u *)(out + 8 * i) = t0.x;
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/opt_32_stp/isap.c b/crypto_aead/isapa128av20/opt_32_stp/isap.c
index 62ef97a..cdab2a5 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/isap.c
@@ -5,12 +5,16 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller buffers are byte strings of any alignment
+typedef lane_t lane_u __attribute__((aligned(1)));
+typedef uint64_t u64_u __attribute__((aligned(1), may_alias));
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(*(const lane_u *)(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +59,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(k + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(k + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -114,9 +118,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(npub + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -160,8 +164,8 @@ int pvp(
     state_t *s = &state;
 
     // Calculate U
-    s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
+    s->l[0] = U64TOWORD(*(const lane_u *)(T + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(T + 8));
     s->x[2] = pvp_lanes[0];
     s->x[3] = pvp_lanes[1];
     s->x[4] = 0;
@@ -171,8 +175,8 @@ int pvp(
     u1 = s->x[1];
 
     // Calculate U'
-    s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
+    s->l[0] = U64TOWORD(*(const lane_u *)(T_star + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(T_star + 8));
     s->x[2] = pvp_lanes[0];
     s->x[3] = pvp_lanes[1];
     s->x[4] = 0;
@@ -207,15 +211,15 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[4] = U64TOWORD(*(const lane_u *)(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        *(u64_u *)c = *(u64_u *)m ^ t0.x;
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -248,7 +252,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -262,7 +266,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        *(u64_u *)(out + 8 * i) = t0.x;
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/opt_32_tiny/isap.c b/crypto_aead/isapa128av20/opt_32_tiny/isap.c
index 18bcc4a..bf7297f 100644
--- a/crypto_aead/isapa128av20/opt_32_tiny/isap.c
+++ b/crypto_aead/isapa128av20/opt_32_tiny/isap.c
@@ -5,12 +5,16 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller buffers are byte strings of any alignment
+typedef lane_t lane_u __attribute__((aligned(1)));
+typedef uint64_t u64_u __attribute__((aligned(1), may_alias));
+
 void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(*(const lane_u *)(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +59,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(k + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(k + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +117,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(npub + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -158,15 +162,15 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[4] = U64TOWORD(*(const lane_u *)(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        *(u64_u *)c = *(u64_u *)m ^ t0.x;
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -199,7 +203,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -213,7 +217,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        *(u64_u *)(out + 8 * i) = t0.x;
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/opt_64/isap.c b/crypto_aead/isapa128av20/opt_64/isap.c
index d4009e0..64ffe0c 100644
--- a/crypto_aead/isapa128av20/opt_64/isap.c
+++ b/crypto_aead/isapa128av20/opt_64/isap.c
@@ -5,12 +5,16 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller buffers are byte strings of any alignment
+typedef lane_t lane_u __attribute__((aligned(1)));
+typedef uint64_t u64_u __attribute__((aligned(1), may_alias));
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(*(const lane_u *)(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +59,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(k + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(k + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +117,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(npub + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -158,15 +162,15 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[4] = U64TOWORD(*(const lane_u *)(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        *(u64_u *)c = *(u64_u *)m ^ t0.x;
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -199,7 +203,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -213,7 +217,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        *(u64_u *)(out + 8 * i) = t0.x;
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/opt_8/isap.c b/crypto_aead/isapa128av20/opt_8/isap.c
index d4009e0..64ffe0c 100644
--- a/crypto_aead/isapa128av20/opt_8/isap.c
+++ b/crypto_aead/isapa128av20/opt_8/isap.c
@@ -5,12 +5,16 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller buffers are byte strings of any alignment
+typedef lane_t lane_u __attribute__((aligned(1)));
+typedef uint64_t u64_u __attribute__((aligned(1), may_alias));
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(*(const lane_u *)(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +59,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(k + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(k + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +117,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(npub + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -158,15 +162,15 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[4] = U64TOWORD(*(const lane_u *)(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        *(u64_u *)c = *(u64_u *)m ^ t0.x;
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -199,7 +203,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -213,7 +217,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        *(u64_u *)(out + 8 * i) = t0.x;
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/opt_8_tiny/isap.c b/crypto_aead/isapa128av20/opt_8_tiny/isap.c
index 18bcc4a..bf7297f 100644
--- a/crypto_aead/isapa128av20/opt_8_tiny/isap.c
+++ b/crypto_aead/isapa128av20/opt_8_tiny/isap.c
@@ -5,12 +5,16 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller buffers are byte strings of any alignment
+typedef lane_t lane_u __attribute__((aligned(1)));
+typedef uint64_t u64_u __attribute__((aligned(1), may_alias));
+
 void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(*(const lane_u *)(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +59,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(k + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(k + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +117,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[1] = U64TOWORD(*(const lane_u *)(npub + 8));
+    s->l[2] = U64TOWORD(*(const lane_u *)(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -158,15 +162,15 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(*(const lane_u *)(npub + 0));
+    s->l[4] = U64TOWORD(*(const lane_u *)(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        *(u64_u *)c = *(u64_u *)m ^ t0.x;
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -199,7 +203,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(*(const lane_u *)(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -213,7 +217,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        *(u64_u *)(out + 8 * i) = t0.x;
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128v20/opt_32/isap.c b/crypto_aead/isapa128v20/opt_32/isap.c
index f8dc6f5..b9b7479 100644
--- a/crypto_aead/isapa128v20/opt_32/isap.c
+++ b/crypto_aead/isapa128v20/opt_32/isap.c
@@ -2,6 +2,10 @@
 #include "isap.h"
 #include "asconp.h"
 
+// Caller buffers are byte strings of any alignment
+typedef u32 u32_u __attribute__((aligned(1), may_alias));
+typedef struct { u64 v; } __attribute__((packed, may_alias)) u64_u;
+
 const u8 ISAP_IV_A[] = {0x01, ISAP_K, ISAP_rH, ISAP_rB, ISAP_sH, ISAP_sB, ISAP_sE, ISAP_sK};
 const u8 ISAP_IV_KA[] = {0x02, ISAP_K, ISAP_rH, ISAP_rB, ISAP_sH, ISAP_sB, ISAP_sE, ISAP_sK};
 const u8 ISAP_IV_KE[] = {0x03, ISAP_K, ISAP_rH, ISAP_rB, ISAP_sH, ISAP_sB, ISAP_sE, ISAP_sK};
@@ -26,9 +30,9 @@ void isap_rk(
     u32_2 x0, x1, x2, x3, x4;
 
     // Initialize
-    to_bit_interleaving(&x0, U64BIG(*(u64 *)(k + 0)));
-    to_bit_interleaving(&x1, U64BIG(*(u64 *)(k + 8)));
-    to_bit_interleaving(&x2, U64BIG(*(u64 *)(iv + 0)));
+    to_bit_interleaving(&x0, U64BIG(((u64_u *)(k + 0))->v));
+    to_bit_interleaving(&x1, U64BIG(((u64_u *)(k + 8))->v));
+    to_bit_interleaving(&x2, U64BIG(((u64_u *)(iv + 0))->v));
     x3.o = 0;
     x3.e = 0;
     x4.o = 0;
@@ -48,13 +52,13 @@ void isap_rk(
 
     // Squeeze - Derive K*
     P_sK;
-    *(u32 *)(out + 0) = x0.o;
-    *(u32 *)(out + 4) = x0.e;
-    *(u32 *)(out + 8) = x1.o;
-    *(u32 *)(out + 12) = x1.e;
+    *(u32_u *)(out + 0) = x0.o;
+    *(u32_u *)(out + 4) = x0.e;
+    *(u32_u *)(out + 8) = x1.o;
+    *(u32_u *)(out + 12) = x1.e;
     if (outlen > 16) {
-        *(u32 *)(out + 16) = x2.o;
-        *(u32 *)(out + 20) = x2.e;
+        *(u32_u *)(out + 16) = x2.o;
+        *(u32_u *)(out + 20) = x2.e;
     }
 }
 
@@ -75,9 +79,9 @@ void isap_mac(
     u64 tmp0;
 
     // Initialize
-    to_bit_interleaving(&x0, U64BIG(*(u64 *)npub + 0));
-    to_bit_interleaving(&x1, U64BIG(*(u64 *)(npub + 8)));
-    to_bit_interleaving(&x2, U64BIG(*(u64 *)(ISAP_IV_A)));
+    to_bit_interleaving(&x0, U64BIG(((u64_u *)(npub + 0))->v));
+    to_bit_interleaving(&x1, U64BIG(((u64_u *)(npub + 8))->v));
+    to_bit_interleaving(&x2, U64BIG(((u64_u *)(ISAP_IV_A))->v));
     x3.o = 0;
     x3.e = 0;
     x4.o = 0;
@@ -87,7 +91,7 @@ void isap_mac(
     // Absorb full lanes of AD
     while (adlen >= 8)
     {
-        to_bit_interleaving(&t0, U64BIG(*(u64 *)ad));
+        to_bit_interleaving(&t0, U64BIG(((u64_u *)ad)->v));
         x0.e ^= t0.e;
         x0.o ^= t0.o;
         adlen -= ISAP_rH / 8;
@@ -126,7 +130,7 @@ void isap_mac(
     // Absorb full lanes of C
     while (clen >= 8)
     {
-        to_bit_interleaving(&t0, U64BIG(*(u64 *)c));
+        to_bit_interleaving(&t0, U64BIG(((u64_u *)c)->v));
         x0.e ^= t0.e;
         x0.o ^= t0.o;
         P_sH;
@@ -175,9 +179,9 @@ void isap_mac(
     x1.e = ka_star32[3];
     P_sH;
     from_bit_interleaving(&tmp0, x0);
-    *(u64 *)(tag + 0) = U64BIG(tmp0);
+    ((u64_u *)(tag + 0))->v = U64BIG(tmp0);
     from_bit_interleaving(&tmp0, x1);
-    *(u64 *)(tag + 8) = U64BIG(tmp0);
+    ((u64_u *)(tag + 8))->v = U64BIG(tmp0);
 }
 
 /******************************************************************************/
@@ -199,21 +203,21 @@ void isap_enc(
     u64 tmp0;
 
     // Init State
-    x0.o = *(u32 *)(ke + 0);
-    x0.e = *(u32 *)(ke + 4);
-    x1.o = *(u32 *)(ke + 8);
-    x1.e = *(u32 *)(ke + 12);
-    x2.o = *(u32 *)(ke + 16);
-    x2.e = *(u32 *)(ke + 20);
-    to_bit_interleaving(&x3, U64BIG(*(u64 *)npub));
-    to_bit_interleaving(&x4, U64BIG(*(u64 *)(npub + 8)));
+    x0.o = *(u32_u *)(ke + 0);
+    x0.e = *(u32_u *)(ke + 4);
+    x1.o = *(u32_u *)(ke + 8);
+    x1.e = *(u32_u *)(ke + 12);
+    x2.o = *(u32_u *)(ke + 16);
+    x2.e = *(u32_u *)(ke + 20);
+    to_bit_interleaving(&x3, U64BIG(((u64_u *)npub)->v));
+    to_bit_interleaving(&x4, U64BIG(((u64_u *)(npub + 8))->v));
 
     // Squeeze full lanes
     while (mlen >= 8)
     {
         P_sE;
         from_bit_interleaving(&tmp0, x0);
-        *(u64 *)c = *(u64 *)m ^ U64BIG(tmp0);
+        ((u64_u *)c)->v = ((u64_u *)m)->v ^ U64BIG(tmp0);
         mlen -= 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
diff --git a/crypto_aead/isapa128v20/opt_32_armv67m/isap.c b/crypto_aead/isapa128v20/opt_32_armv67m/isap.c
index 6cd7749..8453d5f 100644
--- a/crypto_aead/isapa128v20/opt_32_armv67m/isap.c
+++ b/crypto_aead/isapa128v20/opt_32_armv67m/isap.c
@@ -2,6 +2,10 @@
 #include "isap.h"
 #include "asconp.h"
 
+// Caller buffers are byte strings of any alignment
+typedef u32 u32_u __attribute__((aligned(1), may_alias));
+typedef struct { u64 v; } __attribute__((packed, may_alias)) u64_u;
+
 const u8 ISAP_IV_A[] = {0x01, ISAP_K, ISAP_rH, ISAP_rB, ISAP_sH, ISAP_sB, ISAP_sE, ISAP_sK};
 const u8 ISAP_IV_KA[] = {0x02, ISAP_K, ISAP_rH, ISAP_rB, ISAP_sH, ISAP_sB, ISAP_sE, ISAP_sK};
 const u8 ISAP_IV_KE[] = {0x03, ISAP_K, ISAP_rH, ISAP_rB, ISAP_sH, ISAP_sB, ISAP_sE, ISAP_sK};
@@ -29,9 +33,9 @@ void isap_rk(
     u32_2 x0, x1, x2, x3, x4;
 
     // Initialize
-    to_bit_interleaving(&x0, U64BIG(*(u64 *)(k + 0)));
-    to_bit_interleaving(&x1, U64BIG(*(u64 *)(k + 8)));
-    to_bit_interleaving(&x2, U64BIG(*(u64 *)(iv + 0)));
+    to_bit_interleaving(&x0, U64BIG(((u64_u *)(k + 0))->v));
+    to_bit_interleaving(&x1, U64BIG(((u64_u *)(k + 8))->v));
+    to_bit_interleaving(&x2, U64BIG(((u64_u *)(iv + 0))->v));
     x3.o = 0;
     x3.e = 0;
     x4.o = 0;
@@ -78,14 +82,14 @@ void isap_rk(
 
     // Squeeze - Derive K*
     P_sK;
-    *(u32 *)(out + 0) = x0.o;
-    *(u32 *)(out + 4) = x0.e;
-    *(u32 *)(out + 8) = x1.o;
-    *(u32 *)(out + 12) = x1.e;
+    *(u32_u *)(out + 0) = x0.o;
+    *(u32_u *)(out + 4) = x0.e;
+    *(u32_u *)(out + 8) = x1.o;
+    *(u32_u *)(out + 12) = x1.e;
     if (outlen > 16)
     {
-        *(u32 *)(out + 16) = x2.o;
-        *(u32 *)(out + 20) = x2.e;
+        *(u32_u *)(out + 16) = x2.o;
+        *(u32_u *)(out + 20) = x2.e;
     }
 }
 
@@ -106,9 +110,9 @@ void isap_mac(
     u64 tmp0;
 
     // Initialize
-    to_bit_interleaving(&x0, U64BIG(*(u64 *)npub + 0));
-    to_bit_interleaving(&x1, U64BIG(*(u64 *)(npub + 8)));
-    to_bit_interleaving(&x2, U64BIG(*(u64 *)(ISAP_IV_A)));
+    to_bit_interleaving(&x0, U64BIG(((u64_u *)(npub + 0))->v));
+    to_bit_interleaving(&x1, U64BIG(((u64_u *)(npub + 8))->v));
+    to_bit_interleaving(&x2, U64BIG(((u64_u *)(ISAP_IV_A))->v));
     x3.o = 0;
     x3.e = 0;
     x4.o = 0;
@@ -118,7 +122,7 @@ void isap_mac(
     // Absorb full lanes of AD
     while (adlen >= 8)
     {
-        to_bit_interleaving(&t0, U64BIG(*(u64 *)ad));
+        to_bit_interleaving(&t0, U64BIG(((u64_u *)ad)->v));
         x0.e ^= t0.e;
         x0.o ^= t0.o;
         adlen -= ISAP_rH / 8;
@@ -157,7 +161,7 @@ void isap_mac(
     // Absorb full lanes of C
     while (clen >= 8)
     {
-        to_bit_interleaving(&t0, U64BIG(*(u64 *)c));
+        to_bit_interleaving(&t0, U64BIG(((u64_u *)c)->v));
         x0.e ^= t0.e;
         x0.o ^= t0.o;
         P_sH_UROL;
@@ -206,9 +210,9 @@ void isap_mac(
     x1.e = ka_star32[3];
     P_sH;
     from_bit_interleaving(&tmp0, x0);
-    *(u64 *)(tag + 0) = U64BIG(tmp0);
+    ((u64_u *)(tag + 0))->v = U64BIG(tmp0);
     from_bit_interleaving(&tmp0, x1);
-    *(u64 *)(tag + 8) = U64BIG(tmp0);
+    ((u64_u *)(tag + 8))->v = U64BIG(tmp0);
 }
 
 /******************************************************************************/
@@ -230,21 +234,21 @@ void isap_enc(
     u64 tmp0;
 
     // Init State
-    x0.o = *(u32 *)(ke + 0);
-    x0.e = *(u32 *)(ke + 4);
-    x1.o = *(u32 *)(ke + 8);
-    x1.e = *(u32 *)(ke + 12);
-    x2.o = *(u32 *)(ke + 16);
-    x2.e = *(u32 *)(ke + 20);
-    to_bit_interleaving(&x3, U64BIG(*(u64 *)npub));
-    to_bit_interleaving(&x4, U64BIG(*(u64 *)(npub + 8)));
+    x0.o = *(u32_u *)(ke + 0);
+    x0.e = *(u32_u *)(ke + 4);
+    x1.o = *(u32_u *)(ke + 8);
+    x1.e = *(u32_u *)(ke + 12);
+    x2.o = *(u32_u *)(ke + 16);
+    x2.e = *(u32_u *)(ke + 20);
+    to_bit_interleaving(&x3, U64BIG(((u64_u *)npub)->v));
+    to_bit_interleaving(&x4, U64BIG(((u64_u *)(npub + 8))->v));
 
     // Squeeze full lanes
     while (mlen >= 8)
     {
         P_sE_UROL;
         from_bit_interleaving(&tmp0, x0);
-        *(u64 *)c = *(u64 *)m ^ U64BIG(tmp0);
+        ((u64_u *)c)->v = ((u64_u *)m)->v ^ U64BIG(tmp0);
         mlen -= 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
diff --git a/crypto_aead/isapa128v20/opt_64/isap.c b/crypto_aead/isapa128v20/opt_64/isap.c
index ca9d9ef..4bef3ac 100644
--- a/crypto_aead/isapa128v20/opt_64/isap.c
+++ b/crypto_aead/isapa128v20/opt_64/isap.c
@@ -8,6 +8,9 @@ typedef unsigned long long u64;
 typedef unsigned long u32;
 typedef long long i64;
 
+// Caller buffers are byte strings of any alignment
+typedef u64 u64_u __attribute__((aligned(1), may_alias));
+
 const u8 ISAP_IV1[] = {0x01,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const u8 ISAP_IV2[] = {0x02,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const u8 ISAP_IV3[] = {0x03,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
@@ -106,7 +109,7 @@ static const int R[5][2] = {
 
 #define ABSORB_MAC(src, len) ({ \
     u32 rem_bytes = len; \
-    u64 *src64 = (u64 *)src; \
+    u64_u *src64 = (u64_u *)src; \
     u32 idx64 = 0; \
     while(1){ \
         if(rem_bytes>ISAP_rH_SZ){ \
@@ -153,9 +156,9 @@ void isap_rk(
 	u8 *out,
 	const u64 outlen
 ){
-    const u64 *k64 = (u64 *)k;
-    const u64 *iv64 = (u64 *)iv;
-    u64 *out64 = (u64 *)out;
+    const u64_u *k64 = (u64_u *)k;
+    const u64_u *iv64 = (u64_u *)iv;
+    u64_u *out64 = (u64_u *)out;
     u64 x0, x1, x2, x3, x4;
     u64 t0, t1, t2, t3, t4;
 
@@ -199,8 +202,8 @@ void isap_mac(
     u8 *tag
 ){
     u8 state[ISAP_STATE_SZ];
-    const u64 *npub64 = (u64 *)npub;
-    u64 *state64 = (u64 *)state;
+    const u64_u *npub64 = (u64_u *)npub;
+    u64_u *state64 = (u64_u *)state;
     u64 x0, x1, x2, x3, x4;
     u64 t0, t1, t2, t3, t4;
     t0 = t1 = t2 = t3 = t4 = 0;
@@ -208,7 +211,7 @@ void isap_mac(
     // Init state
     x0 = U64BIG(npub64[0]);
     x1 = U64BIG(npub64[1]);
-    x2 = U64BIG(((u64 *)ISAP_IV1)[0]);
+    x2 = U64BIG(((u64_u *)ISAP_IV1)[0]);
     x3 = x4 = 0;
     P12;
 
@@ -236,7 +239,7 @@ void isap_mac(
 
     // Squeeze tag
     P12;
-    unsigned long long *tag64 = (u64 *)tag;
+    u64_u *tag64 = (u64_u *)tag;
     tag64[0] = U64BIG(x0);
     tag64[1] = U64BIG(x1);
 }
@@ -255,8 +258,8 @@ void isap_enc(
     u8 state[ISAP_STATE_SZ];
 
     // Init state
-    u64 *state64 = (u64 *)state;
-    u64 *npub64 = (u64 *)npub;
+    u64_u *state64 = (u64_u *)state;
+    u64_u *npub64 = (u64_u *)npub;
     isap_rk(k,ISAP_IV3,npub,CRYPTO_NPUBBYTES,state,ISAP_STATE_SZ-CRYPTO_NPUBBYTES);
     u64 x0, x1, x2, x3, x4;
     u64 t0, t1, t2, t3, t4;
@@ -270,8 +273,8 @@ void isap_enc(
 
     // Squeeze key stream
     u64 rem_bytes = mlen;
-    u64 *m64 = (u64 *)m;
-    u64 *c64 = (u64 *)c;
+    u64_u *m64 = (u64_u *)m;
+    u64_u *c64 = (u64_u *)c;
     u32 idx64 = 0;
     while(1){
         if(rem_bytes>ISAP_rH_SZ){
diff --git a/crypto_aead/isapk128av20/avx512/isap.c b/crypto_aead/isapk128av20/avx512/isap.c
index 9498841..7fcc420 100644
--- a/crypto_aead/isapk128av20/avx512/isap.c
+++ b/crypto_aead/isapk128av20/avx512/isap.c
@@ -6,6 +6,9 @@
 #include "KeccakP-400-64.macros"
 #include "KeccakP-400-unrolling.macros"
 
+// Caller buffers are byte strings of any alignment
+typedef UINT16 UINT16_U __attribute__((aligned(1), may_alias));
+
 const UINT8 ISAP_IV1[] = {0x01,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const UINT8 ISAP_IV2[] = {0x02,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const UINT8 ISAP_IV3[] = {0x03,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
@@ -97,9 +100,9 @@ void isap_rk(
 	UINT8 *out,
 	const UINT64 outlen
 ){
-    const UINT16 *k16 = (UINT16 *)k;
-    const UINT16 *iv16 = (UINT16 *)iv;
-    UINT16 *out16 = (UINT16 *)out;
+    const UINT16_U *k16 = (UINT16_U *)k;
+    const UINT16_U *iv16 = (UINT16_U *)iv;
+    UINT16_U *out16 = (UINT16_U *)out;
 
     // Init state
     declareABCDEX
@@ -161,7 +164,7 @@ void isap_mac(
     const UINT8 *c, const UINT64 clen,
     UINT8 *tag
 ){
-    const UINT16 *npub16 = (UINT16 *)npub;
+    const UINT16_U *npub16 = (UINT16_U *)npub;
 
     // Init state
     declareABCDEX
@@ -210,7 +213,7 @@ void isap_mac(
     // Squeeze tag
     PermuteRoundsHX;
 
-    UINT16 *tag16 = (UINT16 *)tag;
+    UINT16_U *tag16 = (UINT16_U *)tag;
     _mm512_mask_storeu_epi16 (tag16, 0xff, S.S);
 }
 
@@ -228,8 +231,8 @@ void isap_enc(
     // Derive session key
     UINT8 state[ISAP_STATE_SZ];
     isap_rk(k,ISAP_IV3,npub,CRYPTO_NPUBBYTES,state,ISAP_STATE_SZ-CRYPTO_NPUBBYTES);
-    UINT16 *state16 = (UINT16 *)state;
-    UINT16 *npub16 = (UINT16 *)npub;
+    UINT16_U *state16 = (UINT16_U *)state;
+    UINT16_U *npub16 = (UINT16_U *)npub;
 
     // Init state
     declareABCDEX
diff --git a/crypto_aead/isapk128av20/opt_32_armv6m/isap.c b/crypto_aead/isapk128av20/opt_32_armv6m/isap.c
index 5d62474..1be834d 100644
--- a/crypto_aead/isapk128av20/opt_32_armv6m/isap.c
+++ b/crypto_aead/isapk128av20/opt_32_armv6m/isap.c
@@ -3,6 +3,9 @@
 #include "inttypes.h"
 #include "KeccakP-400-SnP.h"
 
+// Caller buffers are byte strings of any alignment
+typedef uint16_t u16_u __attribute__((aligned(1), may_alias));
+
 const unsigned char ISAP_IV1[] = {0x01,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const unsigned char ISAP_IV2[] = {0x02,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const unsigned char ISAP_IV3[] = {0x03,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
@@ -55,9 +58,9 @@ void isap_mac(
 ){
 	// Init State
 	unsigned char state[ISAP_STATE_SZ] __attribute__ ((aligned(4)));
-	uint16_t *state16 = (uint16_t *)state;
-	uint16_t *ad16 = (uint16_t *)ad;
-	uint16_t *c16 = (uint16_t *)c;
+	u16_u *state16 = (u16_u *)state;
+	u16_u *ad16 = (u16_u *)ad;
+	u16_u *c16 = (u16_u *)c;
 
 	KeccakP400_Initialize(state);
 	KeccakP400_AddBytes(state,npub,0,CRYPTO_NPUBBYTES);
@@ -138,9 +141,9 @@ void isap_enc(
 	unsigned char *c
 ){
 	uint8_t state[ISAP_STATE_SZ] __attribute__((aligned(4)));
-	uint16_t *state16 = (uint16_t *)state;
-	uint16_t *c16 = (uint16_t *)c;
-	uint16_t *m16 = (uint16_t *)m;
+	u16_u *state16 = (u16_u *)state;
+	u16_u *c16 = (u16_u *)c;
+	u16_u *m16 = (u16_u *)m;
 
 	isap_rk(k,ISAP_IV3,npub,CRYPTO_NPUBBYTES,(unsigned char *)state,ISAP_STATE_SZ-CRYPTO_NPUBBYTES);
 	KeccakP400_OverwriteBytes(state,npub,ISAP_STATE_SZ-CRYPTO_NPUBBYTES,CRYPTO_NPUBBYTES);
diff --git a/crypto_aead/isapk128av20/opt_32_armv7m/isap.c b/crypto_aead/isapk128av20/opt_32_armv7m/isap.c
index 5d62474..1be834d 100644
--- a/crypto_aead/isapk128av20/opt_32_armv7m/isap.c
+++ b/crypto_aead/isapk128av20/opt_32_armv7m/isap.c
@@ -3,6 +3,9 @@
 #include "inttypes.h"
 #include "KeccakP-400-SnP.h"
 
+// Caller buffers are byte strings of any alignment
+typedef uint16_t u16_u __attribute__((aligned(1), may_alias));
+
 const unsigned char ISAP_IV1[] = {0x01,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const unsigned char ISAP_IV2[] = {0x02,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const unsigned char ISAP_IV3[] = {0x03,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
@@ -55,9 +58,9 @@ void isap_mac(
 ){
 	// Init State
 	unsigned char state[ISAP_STATE_SZ] __attribute__ ((aligned(4)));
-	uint16_t *state16 = (uint16_t *)state;
-	uint16_t *ad16 = (uint16_t *)ad;
-	uint16_t *c16 = (uint16_t *)c;
+	u16_u *state16 = (u16_u *)state;
+	u16_u *ad16 = (u16_u *)ad;
+	u16_u *c16 = (u16_u *)c;
 
 	KeccakP400_Initialize(state);
 	KeccakP400_AddBytes(state,npub,0,CRYPTO_NPUBBYTES);
@@ -138,9 +141,9 @@ void isap_enc(
 	unsigned char *c
 ){
 	uint8_t state[ISAP_STATE_SZ] __attribute__((aligned(4)));
-	uint16_t *state16 = (uint16_t *)state;
-	uint16_t *c16 = (uint16_t *)c;
-	uint16_t *m16 = (uint16_t *)m;
+	u16_u *state16 = (u16_u *)state;
+	u16_u *c16 = (u16_u *)c;
+	u16_u *m16 = (u16_u *)m;
 
 	isap_rk(k,ISAP_IV3,npub,CRYPTO_NPUBBYTES,(unsigned char *)state,ISAP_STATE_SZ-CRYPTO_NPUBBYTES);
 	KeccakP400_OverwriteBytes(state,npub,ISAP_STATE_SZ-CRYPTO_NPUBBYTES,CRYPTO_NPUBBYTES);
diff --git a/crypto_aead/isapk128av20/opt_64/isap.c b/crypto_aead/isapk128av20/opt_64/isap.c
index 792def3..71f38a5 100644
--- a/crypto_aead/isapk128av20/opt_64/isap.c
+++ b/crypto_aead/isapk128av20/opt_64/isap.c
@@ -5,6 +5,10 @@
 #include "KeccakP-400-64.macros"
 #include "KeccakP-400-unrolling.macros"
 
+// Caller buffers are byte strings of any alignment
+typedef UINT16 UINT16_U __attribute__((aligned(1), may_alias));
+typedef UINT64 UINT64_U __attribute__((aligned(1), may_alias));
+
 const UINT8 ISAP_IV1[] = {0x01,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const UINT8 ISAP_IV2[] = {0x02,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const UINT8 ISAP_IV3[] = {0x03,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
@@ -58,16 +62,16 @@ union State {
     size_t idx = 0; \
     while(1){ \
         if(rem_bytes>ISAP_rH_SZ){ \
-            S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
-            S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
+            S.l64[0] ^= *((UINT64_U *)(src+idx+0)); \
+            S.l64[1] ^= *((UINT64_U *)(src+idx+8)); \
+            S.l16[8] ^= *((UINT16_U *)(src+idx+16)); \
             idx += ISAP_rH_SZ; \
             rem_bytes -= ISAP_rH_SZ; \
             PermuteRoundsHX; \
         } else if(rem_bytes==ISAP_rH_SZ){ \
-            S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
-            S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
+            S.l64[0] ^= *((UINT64_U *)(src+idx+0)); \
+            S.l64[1] ^= *((UINT64_U *)(src+idx+8)); \
+            S.l16[8] ^= *((UINT16_U *)(src+idx+16)); \
             PermuteRoundsHX; \
             S.X.Aba ^= 0x80ULL; \
             PermuteRoundsHX; \
@@ -99,9 +103,9 @@ void isap_rk(
 	UINT8 *out,
 	const UINT64 outlen
 ){
-    const UINT16 *k16 = (UINT16 *)k;
-    const UINT16 *iv16 = (UINT16 *)iv;
-    UINT16 *out16 = (UINT16 *)out;
+    const UINT16_U *k16 = (UINT16_U *)k;
+    const UINT16_U *iv16 = (UINT16_U *)iv;
+    UINT16_U *out16 = (UINT16_U *)out;
 
     // Init state
     declareABCDEX
@@ -177,7 +181,7 @@ void isap_mac(
     const UINT8 *c, const UINT64 clen,
     UINT8 *tag
 ){
-    const UINT16 *npub16 = (UINT16 *)npub;
+    const UINT16_U *npub16 = (UINT16_U *)npub;
 
     // Init state
     declareABCDEX
@@ -240,7 +244,7 @@ void isap_mac(
     // Squeeze tag
     PermuteRoundsHX;
 
-    UINT16 *tag16 = (UINT16 *)tag;
+    UINT16_U *tag16 = (UINT16_U *)tag;
     tag16[0] = S.X.Aba;
     tag16[1] = S.X.Abe;
     tag16[2] = S.X.Abi;
@@ -265,8 +269,8 @@ void isap_enc(
     // Derive session key
     UINT8 state[ISAP_STATE_SZ];
     isap_rk(k,ISAP_IV3,npub,CRYPTO_NPUBBYTES,state,ISAP_STATE_SZ-CRYPTO_NPUBBYTES);
-    UINT16 *state16 = (UINT16 *)state;
-    UINT16 *npub16 = (UINT16 *)npub;
+    UINT16_U *state16 = (UINT16_U *)state;
+    UINT16_U *npub16 = (UINT16_U *)npub;
 
     // Init state
     declareABCDEX
@@ -304,9 +308,9 @@ void isap_enc(
         if(rem_bytes>ISAP_rH_SZ){
             // Squeeze full lane and continue
             union Lane lane;
-            lane.l64[0] = S.l64[0] ^ *((UINT64 *)(m+idx+0));
-            lane.l64[1] = S.l64[1] ^ *((UINT64 *)(m+idx+8));
-            lane.l16[8] = S.l16[8] ^ *((UINT16 *)(m+idx+16));
+            lane.l64[0] = S.l64[0] ^ *((UINT64_U *)(m+idx+0));
+            lane.l64[1] = S.l64[1] ^ *((UINT64_U *)(m+idx+8));
+            lane.l16[8] = S.l16[8] ^ *((UINT16_U *)(m+idx+16));
             memcpy(c+idx, &lane, ISAP_rH_SZ);
             idx += ISAP_rH_SZ;
             rem_bytes -= ISAP_rH_SZ;
@@ -314,9 +318,9 @@ void isap_enc(
         } else if(rem_bytes==ISAP_rH_SZ){
             // Squeeze full lane and stop
             union Lane lane;
-            lane.l64[0] = S.l64[0] ^ *((UINT64 *)(m+idx+0));
-            lane.l64[1] = S.l64[1] ^ *((UINT64 *)(m+idx+8));
-            lane.l16[8] = S.l16[8] ^ *((UINT16 *)(m+idx+16));
+            lane.l64[0] = S.l64[0] ^ *((UINT64_U *)(m+idx+0));
+            lane.l64[1] = S.l64[1] ^ *((UINT64_U *)(m+idx+8));
+            lane.l16[8] = S.l16[8] ^ *((UINT16_U *)(m+idx+16));
             memcpy(c+idx, &lane, ISAP_rH_SZ);
             break;
         } else {
diff --git a/crypto_aead/isapk128v20/opt_32_armv6m/isap.c b/crypto_aead/isapk128v20/opt_32_armv6m/isap.c
index 5d62474..1be834d 100644
--- a/crypto_aead/isapk128v20/opt_32_armv6m/isap.c
+++ b/crypto_aead/isapk128v20/opt_32_armv6m/isap.c
@@ -3,6 +3,9 @@
 #include "inttypes.h"
 #include "KeccakP-400-SnP.h"
 
+// Caller buffers are byte strings of any alignment
+typedef uint16_t u16_u __attribute__((aligned(1), may_alias));
+
 const unsigned char ISAP_IV1[] = {0x01,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const unsigned char ISAP_IV2[] = {0x02,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const unsigned char ISAP_IV3[] = {0x03,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
@@ -55,9 +58,9 @@ void isap_mac(
 ){
 	// Init State
 	unsigned char state[ISAP_STATE_SZ] __attribute__ ((aligned(4)));
-	uint16_t *state16 = (uint16_t *)state;
-	uint16_t *ad16 = (uint16_t *)ad;
-	uint16_t *c16 = (uint16_t *)c;
+	u16_u *state16 = (u16_u *)state;
+	u16_u *ad16 = (u16_u *)ad;
+	u16_u *c16 = (u16_u *)c;
 
 	KeccakP400_Initialize(state);
 	KeccakP400_AddBytes(state,npub,0,CRYPTO_NPUBBYTES);
@@ -138,9 +141,9 @@ void isap_enc(
 	unsigned char *c
 ){
 	uint8_t state[ISAP_STATE_SZ] __attribute__((aligned(4)));
-	uint16_t *state16 = (uint16_t *)state;
-	uint16_t *c16 = (uint16_t *)c;
-	uint16_t *m16 = (uint16_t *)m;
+	u16_u *state16 = (u16_u *)state;
+	u16_u *c16 = (u16_u *)c;
+	u16_u *m16 = (u16_u *)m;
 
 	isap_rk(k,ISAP_IV3,npub,CRYPTO_NPUBBYTES,(unsigned char *)state,ISAP_STATE_SZ-CRYPTO_NPUBBYTES);
 	KeccakP400_OverwriteBytes(state,npub,ISAP_STATE_SZ-CRYPTO_NPUBBYTES,CRYPTO_NPUBBYTES);
diff --git a/crypto_aead/isapk128v20/opt_32_armv7m/isap.c b/crypto_aead/isapk128v20/opt_32_armv7m/isap.c
index 5d62474..1be834d 100644
--- a/crypto_aead/isapk128v20/opt_32_armv7m/isap.c
+++ b/crypto_aead/isapk128v20/opt_32_armv7m/isap.c
@@ -3,6 +3,9 @@
 #include "inttypes.h"
 #include "KeccakP-400-SnP.h"
 
+// Caller buffers are byte strings of any alignment
+typedef uint16_t u16_u __attribute__((aligned(1), may_alias));
+
 const unsigned char ISAP_IV1[] = {0x01,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const unsigned char ISAP_IV2[] = {0x02,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const unsigned char ISAP_IV3[] = {0x03,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
@@ -55,9 +58,9 @@ void isap_mac(
 ){
 	// Init State
 	unsigned char state[ISAP_STATE_SZ] __attribute__ ((aligned(4)));
-	uint16_t *state16 = (uint16_t *)state;
-	uint16_t *ad16 = (uint16_t *)ad;
-	uint16_t *c16 = (uint16_t *)c;
+	u16_u *state16 = (u16_u *)state;
+	u16_u *ad16 = (u16_u *)ad;
+	u16_u *c16 = (u16_u *)c;
 
 	KeccakP400_Initialize(state);
 	KeccakP400_AddBytes(state,npub,0,CRYPTO_NPUBBYTES);
@@ -138,9 +141,9 @@ void isap_enc(
 	unsigned char *c
 ){
 	uint8_t state[ISAP_STATE_SZ] __attribute__((aligned(4)));
-	uint16_t *state16 = (uint16_t *)state;
-	uint16_t *c16 = (uint16_t *)c;
-	uint16_t *m16 = (uint16_t *)m;
+	u16_u *state16 = (u16_u *)state;
+	u16_u *c16 = (u16_u *)c;
+	u16_u *m16 = (u16_u *)m;
 
 	isap_rk(k,ISAP_IV3,npub,CRYPTO_NPUBBYTES,(unsigned char *)state,ISAP_STATE_SZ-CRYPTO_NPUBBYTES);
 	KeccakP400_OverwriteBytes(state,npub,ISAP_STATE_SZ-CRYPTO_NPUBBYTES,CRYPTO_NPUBBYTES);
diff --git a/crypto_aead/isapk128v20/opt_64/isap.c b/crypto_aead/isapk128v20/opt_64/isap.c
index cb9decc..39a107c 100644
--- a/crypto_aead/isapk128v20/opt_64/isap.c
+++ b/crypto_aead/isapk128v20/opt_64/isap.c
@@ -5,6 +5,10 @@
 #include "KeccakP-400-64.macros"
 #include "KeccakP-400-unrolling.macros"
 
+// Caller buffers are byte strings of any alignment
+typedef UINT16 UINT16_U __attribute__((aligned(1), may_alias));
+typedef UINT64 UINT64_U __attribute__((aligned(1), may_alias));
+
 const UINT8 ISAP_IV1[] = {0x01,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const UINT8 ISAP_IV2[] = {0x02,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const UINT8 ISAP_IV3[] = {0x03,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
@@ -58,16 +62,16 @@ union State {
     size_t idx = 0; \
     while(1){ \
         if(rem_bytes>ISAP_rH_SZ){ \
-            S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
-            S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
+            S.l64[0] ^= *((UINT64_U *)(src+idx+0)); \
+            S.l64[1] ^= *((UINT64_U *)(src+idx+8)); \
+            S.l16[8] ^= *((UINT16_U *)(src+idx+16)); \
             idx += ISAP_rH_SZ; \
             rem_bytes -= ISAP_rH_SZ; \
             PermuteRoundsHX; \
         } else if(rem_bytes==ISAP_rH_SZ){ \
-            S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
-            S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
+            S.l64[0] ^= *((UINT64_U *)(src+idx+0)); \
+            S.l64[1] ^= *((UINT64_U *)(src+idx+8)); \
+            S.l16[8] ^= *((UINT16_U *)(src+idx+16)); \
             PermuteRoundsHX; \
             S.X.Aba ^= 0x80ULL; \
             PermuteRoundsHX; \
@@ -99,9 +103,9 @@ void isap_rk(
 	UINT8 *out,
 	const UINT64 outlen
 ){
-    const UINT16 *k16 = (UINT16 *)k;
-    const UINT16 *iv16 = (UINT16 *)iv;
-    UINT16 *out16 = (UINT16 *)out;
+    const UINT16_U *k16 = (UINT16_U *)k;
+    const UINT16_U *iv16 = (UINT16_U *)iv;
+    UINT16_U *out16 = (UINT16_U *)out;
 
     // Init state
     declareABCDEX
@@ -177,7 +181,7 @@ void isap_mac(
     const UINT8 *c, const UINT64 clen,
     UINT8 *tag
 ){
-    const UINT16 *npub16 = (UINT16 *)npub;
+    const UINT16_U *npub16 = (UINT16_U *)npub;
 
     // Init state
     declareABCDEX
@@ -240,7 +244,7 @@ void isap_mac(
     // Squeeze tag
     PermuteRoundsHX;
 
-    UINT16 *tag16 = (UINT16 *)tag;
+    UINT16_U *tag16 = (UINT16_U *)tag;
     tag16[0] = S.X.Aba;
     tag16[1] = S.X.Abe;
     tag16[2] = S.X.Abi;
@@ -265,8 +269,8 @@ void isap_enc(
     // Derive session key
     UINT8 state[ISAP_STATE_SZ];
     isap_rk(k,ISAP_IV3,npub,CRYPTO_NPUBBYTES,state,ISAP_STATE_SZ-CRYPTO_NPUBBYTES);
-    UINT16 *state16 = (UINT16 *)state;
-    UINT16 *npub16 = (UINT16 *)npub;
+    UINT16_U *state16 = (UINT16_U *)state;
+    UINT16_U *npub16 = (UINT16_U *)npub;
 
     // Init state
     declareABCDEX
@@ -304,9 +308,9 @@ void isap_enc(
         if(rem_bytes>ISAP_rH_SZ){
             // Squeeze full lane and continue
             union Lane lane;
-            lane.l64[0] = S.l64[0] ^ *((UINT64 *)(m+idx+0));
-            lane.l64[1] = S.l64[1] ^ *((UINT64 *)(m+idx+8));
-            lane.l16[8] = S.l16[8] ^ *((UINT16 *)(m+idx+16));
+            lane.l64[0] = S.l64[0] ^ *((UINT64_U *)(m+idx+0));
+            lane.l64[1] = S.l64[1] ^ *((UINT64_U *)(m+idx+8));
+            lane.l16[8] = S.l16[8] ^ *((UINT16_U *)(m+idx+16));
             memcpy(c+idx, &lane, ISAP_rH_SZ);
             idx += ISAP_rH_SZ;
             rem_bytes -= ISAP_rH_SZ;
@@ -314,9 +318,9 @@ void isap_enc(
         } else if(rem_bytes==ISAP_rH_SZ){
             // Squeeze full lane and stop
             union Lane lane;
-            lane.l64[0] = S.l64[0] ^ *((UINT64 *)(m+idx+0));
-            lane.l64[1] = S.l64[1] ^ *((UINT64 *)(m+idx+8));
-            lane.l16[8] = S.l16[8] ^ *((UINT16 *)(m+idx+16));
+            lane.l64[0] = S.l64[0] ^ *((UINT64_U *)(m+idx+0));
+            lane.l64[1] = S.l64[1] ^ *((UINT64_U *)(m+idx+8));
+            lane.l16[8] = S.l16[8] ^ *((UINT16_U *)(m+idx+16));
             memcpy(c+idx, &lane, ISAP_rH_SZ);
             break;
         } else {
-- 
2.43.0


From e1df1baa3de618d5fdab8262b56412743f6f7c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 6/6] fix: armv6m rounds: mark the scratch registers
 early-clobber

ROUND() writes tmp0..tmp2 before it reads the round constant operands. When the
constant is passed in a register (no optimisation, ARM mode) it could share one
of them, and every result was wrong.
---
 crypto_aead/isapa128av20/bi_32_armv6m/asconp.h         | 2 +-
 crypto_aead/isapa128av20/bi_32_armv6m_compact/asconp.h | 2 +-
 crypto_aead/isapa128av20/bi_32_armv6m_stp/asconp.h     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypto_aead/isapa128av20/bi_32_armv6m/asconp.h b/crypto_aead/isapa128av20/bi_32_armv6m/asconp.h
index 0e9b69b..ff413ec 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m/asconp.h
+++ b/crypto_aead/isapa128av20/bi_32_armv6m/asconp.h
@@ -238,7 +238,7 @@ forceinline void ROUND(state_t *s, uint64_t C)
           [x4_e] "+l"(s->w[4][0]), [x0_o] "+r"(s->w[0][1]),
           [x1_o] "+r"(s->w[1][1]), [x2_o] "+r"(s->w[2][1]),
           [x3_o] "+r"(s->w[3][1]), [x4_o] "+r"(s->w[4][1]),
-          [tmp0] "=l"(tmp0), [tmp1] "=l"(tmp1), [tmp2] "=l"(tmp2)
+          [tmp0] "=&l"(tmp0), [tmp1] "=&l"(tmp1), [tmp2] "=&l"(tmp2)
         : [C_e] "ri"((uint32_t)C), [C_o] "ri"((uint32_t)(C >> 32))
         :);
 }
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_compact/asconp.h b/crypto_aead/isapa128av20/bi_32_armv6m_compact/asconp.h
index f94d080..097cff5 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_compact/asconp.h
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_compact/asconp.h
@@ -238,7 +238,7 @@ forceinline void ROUND(state_t *s, uint64_t C)
           [x4_e] "+l"(s->w[4][0]), [x0_o] "+r"(s->w[0][1]),
           [x1_o] "+r"(s->w[1][1]), [x2_o] "+r"(s->w[2][1]),
           [x3_o] "+r"(s->w[3][1]), [x4_o] "+r"(s->w[4][1]),
-          [tmp0] "=l"(tmp0), [tmp1] "=l"(tmp1), [tmp2] "=l"(tmp2)
+          [tmp0] "=&l"(tmp0), [tmp1] "=&l"(tmp1), [tmp2] "=&l"(tmp2)
         : [C_e] "ri"((uint32_t)C), [C_o] "ri"((uint32_t)(C >> 32))
         :);
 }
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/asconp.h b/crypto_aead/isapa128av20/bi_32_armv6m_stp/asconp.h
index a78e026..254da72 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/asconp.h
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/asconp.h
@@ -239,7 +239,7 @@ forceinline void ROUND(state_t *s, uint64_t C)
           [x4_e] "+l"(s->w[4][0]), [x0_o] "+r"(s->w[0][1]),
           [x1_o] "+r"(s->w[1][1]), [x2_o] "+r"(s->w[2][1]),
           [x3_o] "+r"(s->w[3][1]), [x4_o] "+r"(s->w[4][1]),
-          [tmp0] "=l"(tmp0), [tmp1] "=l"(tmp1), [tmp2] "=l"(tmp2)
+          [tmp0] "=&l"(tmp0), [tmp1] "=&l"(tmp1), [tmp2] "=&l"(tmp2)
         : [C_e] "ri"((uint32_t)C), [C_o] "ri"((uint32_t)(C >> 32))
         :);
 }
-- 
2.43.0

