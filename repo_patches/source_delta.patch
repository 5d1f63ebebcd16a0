From 07a3317aa231a5ee8792761da396de78a0e9c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:40 +0000
Subject: [PATCH 01/37] fix: block recreate with another round count read the
 descriptor of the destroyed object

X_recreate() wiped and freed the object and then passed s->desc, read from
the freed memory, to X_create(). Remember the descriptor first.
---
 lib/block/anubis.c    | 4 +++-
 lib/block/aria.c      | 4 +++-
 lib/block/blowfish.c  | 4 +++-
 lib/block/gost.c      | 4 +++-
 lib/block/idea.c      | 4 +++-
 lib/block/khazad.c    | 4 +++-
 lib/block/lea.c       | 4 +++-
 lib/block/rc5.c       | 4 +++-
 lib/block/rc6.c       | 4 +++-
 lib/block/rectangle.c | 4 +++-
 lib/block/rijndael.c  | 8 ++++++--
 lib/block/safer.c     | 8 ++++++--
 lib/block/saferpp.c   | 4 +++-
 lib/block/seed.c      | 4 +++-
 lib/block/serpent.c   | 4 +++-
 lib/block/shacal2.c   | 4 +++-
 lib/block/simon128.c  | 4 +++-
 lib/block/simon32.c   | 4 +++-
 lib/block/simon64.c   | 4 +++-
 lib/block/sm4.c       | 4 +++-
 lib/block/speck128.c  | 4 +++-
 lib/block/speck32.c   | 4 +++-
 lib/block/speck64.c   | 4 +++-
 lib/block/trax_l.c    | 4 +++-
 lib/block/trax_m.c    | 4 +++-
 lib/block/twofish.c   | 4 +++-
 lib/block/xtea.c      | 4 +++-
 27 files changed, 87 insertions(+), 29 deletions(-)

diff --git a/lib/block/anubis.c b/lib/block/anubis.c
index 78dd58b..65fbbe6 100644
--- a/lib/block/anubis.c
+++ b/lib/block/anubis.c
@@ -770,8 +770,10 @@ static kripto_block *anubis_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		anubis_destroy(s);
-		s = anubis_create(s->desc, r, key, key_len);
+		s = anubis_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/aria.c b/lib/block/aria.c
index fd6c724..31906a0 100644
--- a/lib/block/aria.c
+++ b/lib/block/aria.c
@@ -705,8 +705,10 @@ static kripto_block *aria_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		aria_destroy(s);
-		s = aria_create(s->desc, r, key, key_len);
+		s = aria_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/blowfish.c b/lib/block/blowfish.c
index 3a8f000..6af09a1 100644
--- a/lib/block/blowfish.c
+++ b/lib/block/blowfish.c
@@ -519,8 +519,10 @@ static kripto_block *blowfish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		blowfish_destroy(s);
-		s = blowfish_create(s->desc, r, key, key_len);
+		s = blowfish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/gost.c b/lib/block/gost.c
index 6e172dc..dfe907d 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -190,8 +190,10 @@ static kripto_block *gost_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		gost_destroy(s);
-		s = gost_create(s->desc, r, key, key_len);
+		s = gost_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/idea.c b/lib/block/idea.c
index bea4387..1b0b6c5 100644
--- a/lib/block/idea.c
+++ b/lib/block/idea.c
@@ -212,8 +212,10 @@ static kripto_block *idea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		idea_destroy(s);
-		s = idea_create(s->desc, r, key, key_len);
+		s = idea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/khazad.c b/lib/block/khazad.c
index 52cc321..46d9c06 100644
--- a/lib/block/khazad.c
+++ b/lib/block/khazad.c
@@ -747,8 +747,10 @@ static kripto_block *khazad_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		khazad_destroy(s);
-		s = khazad_create(s->desc, r, key, key_len);
+		s = khazad_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/lea.c b/lib/block/lea.c
index 7c5ce68..8c8047a 100644
--- a/lib/block/lea.c
+++ b/lib/block/lea.c
@@ -249,8 +249,10 @@ static kripto_block *lea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		lea_destroy(s);
-		s = lea_create(s->desc, r, key, key_len);
+		s = lea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc5.c b/lib/block/rc5.c
index 650ab37..54bfb87 100644
--- a/lib/block/rc5.c
+++ b/lib/block/rc5.c
@@ -156,8 +156,10 @@ static kripto_block *rc5_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		rc5_destroy(s);
-		s = rc5_create(s->desc, r, key, key_len);
+		s = rc5_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc6.c b/lib/block/rc6.c
index dccc223..632d873 100644
--- a/lib/block/rc6.c
+++ b/lib/block/rc6.c
@@ -197,8 +197,10 @@ static kripto_block *rc6_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		rc6_destroy(s);
-		s = rc6_create(s->desc, r, key, key_len);
+		s = rc6_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rectangle.c b/lib/block/rectangle.c
index 03eb04f..0f02889 100644
--- a/lib/block/rectangle.c
+++ b/lib/block/rectangle.c
@@ -286,8 +286,10 @@ static kripto_block *rectangle_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		rectangle_destroy(s);
-		s = rectangle_create(s->desc, r, key, key_len);
+		s = rectangle_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 4e0e8e6..8192a15 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -934,8 +934,10 @@ static kripto_block *rijndael128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		rijndael128_destroy(s);
-		s = rijndael128_create(s->desc, r, key, key_len);
+		s = rijndael128_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -1167,8 +1169,10 @@ static kripto_block *rijndael256_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		rijndael256_destroy(s);
-		s = rijndael256_create(s->desc, r, key, key_len);
+		s = rijndael256_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/safer.c b/lib/block/safer.c
index 9ab2013..04d0fd7 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -348,8 +348,10 @@ static kripto_block *safer_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		safer_destroy(s);
-		s = safer_create(s->desc, r, key, key_len);
+		s = safer_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -401,8 +403,10 @@ static kripto_block *safer_sk_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		safer_destroy(s);
-		s = safer_sk_create(s->desc, r, key, key_len);
+		s = safer_sk_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index 86d6978..bfa367a 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -410,8 +410,10 @@ static kripto_block *saferpp_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		saferpp_destroy(s);
-		s = saferpp_create(s->desc, r, key, key_len);
+		s = saferpp_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/seed.c b/lib/block/seed.c
index 91f0c23..6ee5e34 100644
--- a/lib/block/seed.c
+++ b/lib/block/seed.c
@@ -457,8 +457,10 @@ static kripto_block *seed_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		seed_destroy(s);
-		s = seed_create(s->desc, r, key, key_len);
+		s = seed_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/serpent.c b/lib/block/serpent.c
index 9e1396d..6a00416 100644
--- a/lib/block/serpent.c
+++ b/lib/block/serpent.c
@@ -707,8 +707,10 @@ static kripto_block *serpent_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		serpent_destroy(s);
-		s = serpent_create(s->desc, r, key, key_len);
+		s = serpent_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/shacal2.c b/lib/block/shacal2.c
index 9d436de..3ee9f92 100644
--- a/lib/block/shacal2.c
+++ b/lib/block/shacal2.c
@@ -234,8 +234,10 @@ static kripto_block *shacal2_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		shacal2_destroy(s);
-		s = shacal2_create(s->desc, r, key, key_len);
+		s = shacal2_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon128.c b/lib/block/simon128.c
index 8259e95..63c5ba6 100644
--- a/lib/block/simon128.c
+++ b/lib/block/simon128.c
@@ -182,8 +182,10 @@ static kripto_block *simon128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		simon128_destroy(s);
-		s = simon128_create(s->desc, r, key, key_len);
+		s = simon128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon32.c b/lib/block/simon32.c
index 94d071f..fb7f4e8 100644
--- a/lib/block/simon32.c
+++ b/lib/block/simon32.c
@@ -154,8 +154,10 @@ static kripto_block *simon32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		simon32_destroy(s);
-		s = simon32_create(s->desc, r, key, key_len);
+		s = simon32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon64.c b/lib/block/simon64.c
index 0caf667..b0f6839 100644
--- a/lib/block/simon64.c
+++ b/lib/block/simon64.c
@@ -165,8 +165,10 @@ static kripto_block *simon64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		simon64_destroy(s);
-		s = simon64_create(s->desc, r, key, key_len);
+		s = simon64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/sm4.c b/lib/block/sm4.c
index 142173a..7810104 100644
--- a/lib/block/sm4.c
+++ b/lib/block/sm4.c
@@ -222,8 +222,10 @@ static kripto_block *sm4_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		sm4_destroy(s);
-		s = sm4_create(s->desc, r, key, key_len);
+		s = sm4_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 1dfaf86..290b17d 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -144,8 +144,10 @@ static kripto_block *speck128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		speck128_destroy(s);
-		s = speck128_create(s->desc, r, key, key_len);
+		s = speck128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index e85af4d..0af5a29 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -144,8 +144,10 @@ static kripto_block *speck32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		speck32_destroy(s);
-		s = speck32_create(s->desc, r, key, key_len);
+		s = speck32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index f495424..9347fb2 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -144,8 +144,10 @@ static kripto_block *speck64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		speck64_destroy(s);
-		s = speck64_create(s->desc, r, key, key_len);
+		s = speck64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_l.c b/lib/block/trax_l.c
index d447c42..70ca1e4 100644
--- a/lib/block/trax_l.c
+++ b/lib/block/trax_l.c
@@ -287,8 +287,10 @@ static kripto_block *trax_l_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		trax_l_destroy(s);
-		s = trax_l_create(s->desc, r, key, key_len);
+		s = trax_l_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_m.c b/lib/block/trax_m.c
index 1611466..5c807f5 100644
--- a/lib/block/trax_m.c
+++ b/lib/block/trax_m.c
@@ -219,8 +219,10 @@ static kripto_block *trax_m_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		trax_m_destroy(s);
-		s = trax_m_create(s->desc, r, key, key_len);
+		s = trax_m_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/twofish.c b/lib/block/twofish.c
index 676aa5f..32b0bfe 100644
--- a/lib/block/twofish.c
+++ b/lib/block/twofish.c
@@ -1224,8 +1224,10 @@ static kripto_block *twofish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		twofish_destroy(s);
-		s = twofish_create(s->desc, r, key, key_len);
+		s = twofish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/xtea.c b/lib/block/xtea.c
index b050337..44d19b9 100644
--- a/lib/block/xtea.c
+++ b/lib/block/xtea.c
@@ -142,8 +142,10 @@ static kripto_block *xtea_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		xtea_destroy(s);
-		s = xtea_create(s->desc, r, key, key_len);
+		s = xtea_create(desc, r, key, key_len);
 	}
 	else
 	{
-- 
2.43.0


From 533f937e1e04918a9c5c6a5d4f5389e24f12f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:03 +0000
Subject: [PATCH 02/37] fix: rijndael key setup read past the round constant
 table

Keys of one or two words, or many rounds, need more than the 51 constants
of the table. Compute them as needed.
---
 lib/block/rijndael.c | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 8192a15..f7e2029 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -662,23 +662,6 @@ static const uint8_t td4[256] =
 	0xE1, 0x69, 0x14, 0x63, 0x55, 0x21, 0x0C, 0x7D
 };
 
-static const uint32_t rcon[52] =
-{
-	0x01000000, 0x02000000, 0x04000000, 0x08000000,
-	0x10000000, 0x20000000, 0x40000000, 0x80000000,
-	0x1B000000, 0x36000000, 0x6C000000, 0xD8000000,
-	0xAB000000, 0x4D000000, 0x9A000000, 0x2F000000,
-	0x5E000000, 0xBC000000, 0x63000000, 0xC6000000,
-	0x97000000, 0x35000000, 0x6A000000, 0xD4000000,
-	0xB3000000, 0x7D000000, 0xFA000000, 0xEF000000,
-	0xC5000000, 0x91000000, 0x39000000, 0x72000000,
-	0xE4000000, 0xD3000000, 0xBD000000, 0x61000000,
-	0xC2000000, 0x9F000000, 0x25000000, 0x4A000000,
-	0x94000000, 0x33000000, 0x66000000, 0xCC000000,
-	0x83000000, 0x1D000000, 0x3A000000, 0x74000000,
-	0xE8000000, 0xCB000000, 0x8D000000
-};
-
 #define E(X0, X1, X2, X3)		\
 (					\
 	te0[(X0) >> 24] ^		\
@@ -724,6 +707,7 @@ static void rijndael_setup
 	unsigned int x;
 	unsigned int len;
 	uint32_t t;
+	uint8_t rcon = 1;
 	const unsigned int n = ((key_len + 3) >> 2);
 
 	bs >>= 2;
@@ -732,14 +716,15 @@ static void rijndael_setup
 	for(i = 0; i < n; i++) s->k[i] = 0;
 	LOAD32B_ARRAY(key, s->k, key_len);
 
-	for(j = n, x = 0; j < len; j += n)
+	for(j = n; j < len; j += n)
 	{
 		t = s->k[j - 1];
 		s->k[j] = s->k[j - n] ^
 			((te4[(t >> 16) & 0xFF] << 24) |
 			(te4[(t >> 8) & 0xFF] << 16) |
 			(te4[t & 0xFF] << 8) |
-			te4[t >> 24]) ^ rcon[x++];
+			te4[t >> 24]) ^ ((uint32_t)rcon << 24);
+		rcon = (uint8_t)((rcon << 1) ^ ((rcon >> 7) * 0x1B));
 
 		if(n <= 6)
 		{
-- 
2.43.0


From 3ebe2882e6f29bbf77fbe2a52c31395eacca6e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:22 +0000
Subject: [PATCH 03/37] fix: safer and safer++ read past keys shorter than a
 half key

Zero pad the key, like the other ciphers do.
---
 lib/block/safer.c   | 11 ++++++++---
 lib/block/saferpp.c | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/block/safer.c b/lib/block/safer.c
index 04d0fd7..a1fd851 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -262,15 +262,19 @@ static void safer_setup
 	uint8_t *k = s->k;
 	uint8_t ka[9];
 	uint8_t kb[9];
+	uint8_t kp[16] = {0};
 
 	kb[8] = ka[8] = 0;
 
-	if(len > 8) key2 = key + 8; /* 128-bit */
-	else key2 = key; /* 64-bit */
+	/* zero padded key */
+	memcpy(kp, key, len);
+
+	if(len > 8) key2 = kp + 8; /* 128-bit */
+	else key2 = kp; /* 64-bit */
 
 	for(unsigned int i = 0; i < 8; i++)
 	{
-		ka[8] ^= ka[i] = ROL8_5(key[i]);
+		ka[8] ^= ka[i] = ROL8_5(kp[i]);
 		kb[8] ^= kb[i] = *k++ = key2[i];
 	}
 
@@ -297,6 +301,7 @@ static void safer_setup
 
 	kripto_memory_wipe(ka, 9);
 	kripto_memory_wipe(kb, 9);
+	kripto_memory_wipe(kp, 16);
 }
 
 static void safer_destroy(kripto_block *s)
diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index bfa367a..1bee3a2 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -311,16 +311,20 @@ static void saferpp_setup
 	uint8_t *k = s->k;
 	uint8_t ka[17];
 	uint8_t kb[17];
+	uint8_t kp[32] = {0};
 
 	kb[16] = ka[16] = 0;
 
-	if(len > 16) key2 = key + 16; /* 256-bit */
-	else key2 = key; /* 128-bit */
+	/* zero padded key */
+	memcpy(kp, key, len);
+
+	if(len > 16) key2 = kp + 16; /* 256-bit */
+	else key2 = kp; /* 128-bit */
 
 	for(unsigned int i = 0; i < 16; i++)
 	{
 		ka[16] ^= ka[i] = ROL8_5(key2[i]);
-		kb[16] ^= kb[i] = *k++ = key[i];
+		kb[16] ^= kb[i] = *k++ = kp[i];
 	}
 
 	for(unsigned int i = 2; i <= s->rounds << 1; i += 2)
@@ -358,6 +362,7 @@ static void saferpp_setup
 
 	kripto_memory_wipe(ka, 17);
 	kripto_memory_wipe(kb, 17);
+	kripto_memory_wipe(kp, 32);
 }
 
 static void saferpp_destroy(kripto_block *s)
-- 
2.43.0


From 370e294aeb0dc071dce7a7b82833bdd16e424004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:35 +0000
Subject: [PATCH 04/37] fix: 3way decryption with fewer than 11 rounds

The decryption round constants are used from the end.
---
 lib/block/3way.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/block/3way.c b/lib/block/3way.c
index ce3159d..02531b4 100644
--- a/lib/block/3way.c
+++ b/lib/block/3way.c
@@ -147,6 +147,7 @@ static void threeway_decrypt
 {
 	uint32_t x[3];
 	unsigned int i;
+	const uint16_t *const rc = rc_d + (11 - s->r);
 
 	x[0] = LOAD32L(CU8(ct));
 	x[1] = LOAD32L(CU8(ct) + 4);
@@ -155,15 +156,15 @@ static void threeway_decrypt
 	MU(x);
 	for(i = 0; i < s->r; i++)
 	{
-		x[0] ^= s->dk[0] ^ (rc_d[i] << 16);
+		x[0] ^= s->dk[0] ^ (rc[i] << 16);
 		x[1] ^= s->dk[1];
-		x[2] ^= s->dk[2] ^ rc_d[i];
+		x[2] ^= s->dk[2] ^ rc[i];
 		THETA(x);
 		PI_GAMMA_PI(x);
 	}
-	x[0] ^= s->dk[0] ^ (rc_d[i] << 16);
+	x[0] ^= s->dk[0] ^ (rc[i] << 16);
 	x[1] ^= s->dk[1];
-	x[2] ^= s->dk[2] ^ rc_d[i];
+	x[2] ^= s->dk[2] ^ rc[i];
 	THETA(x);
 	MU(x);
 
-- 
2.43.0


From 327ab54d33b72fc16f635441a036ca3d2e98df37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:35 +0000
Subject: [PATCH 05/37] fix: speck key setup divided by zero for keys of a
 single word

Such a key is a zero padded two word key.
---
 lib/block/speck128.c | 2 ++
 lib/block/speck32.c  | 2 ++
 lib/block/speck64.c  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 290b17d..407e426 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -90,6 +90,8 @@ static void speck128_setup
 
 	LOAD64L_ARRAY(key, k, len);
 
+	if(!m) m = 1; /* zero padded key */
+
 	s->k[0] = k[0];
 
 	for(unsigned int i = 0; i < s->rounds - 1;)
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index 0af5a29..c03ddca 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -90,6 +90,8 @@ static void speck32_setup
 
 	LOAD16L_ARRAY(key, k, len);
 
+	if(!m) m = 1; /* zero padded key */
+
 	s->k[0] = k[0];
 
 	for(unsigned int i = 0; i < s->rounds - 1;)
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index 9347fb2..fa4696e 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -90,6 +90,8 @@ static void speck64_setup
 
 	LOAD32L_ARRAY(key, k, len);
 
+	if(!m) m = 1; /* zero padded key */
+
 	s->k[0] = k[0];
 
 	for(unsigned int i = 0; i < s->rounds - 1;)
-- 
2.43.0


From 45cd3f36ea46699f9a7d3d7026f09a3a103f0099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:10 +0000
Subject: [PATCH 06/37] fix: gost descriptor written without checking its
 allocation

---
 lib/block/gost.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/block/gost.c b/lib/block/gost.c
index dfe907d..f86125e 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -206,6 +206,7 @@ static kripto_block *gost_recreate
 kripto_desc_block *kripto_block_gost(const unsigned char (*sboxes)[16])
 {
 	kripto_desc_block *desc = (kripto_desc_block *)malloc(sizeof(kripto_desc_block) + sizeof(struct gost));
+	if(!desc) return 0;
 
 	desc->create = &gost_create;
 	desc->recreate = &gost_recreate;
-- 
2.43.0


From b0ed742220a5654ca84e2a53f3a9285920bb1c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:25 +0000
Subject: [PATCH 07/37] fix: skein hash of full blocks, of salted and of long
 outputs

---
 lib/hash/skein1024.c | 32 +++++++++++++++++++++-----------
 lib/hash/skein256.c  | 32 +++++++++++++++++++++-----------
 lib/hash/skein512.c  | 32 +++++++++++++++++++++-----------
 3 files changed, 63 insertions(+), 33 deletions(-)

diff --git a/lib/hash/skein1024.c b/lib/hash/skein1024.c
index 25708cd..fbd4a18 100644
--- a/lib/hash/skein1024.c
+++ b/lib/hash/skein1024.c
@@ -91,7 +91,7 @@ static kripto_hash *skein1024_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,7 +117,8 @@ static kripto_hash *skein1024_recreate
 		unsigned int len = salt_len > 128 ? 128 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 128 - len);
+		memset(s->buf + len, 0, 128 - len);
+		salt = CU8(salt) + len;
 
 		POS_ADD(s->tweak, len);
 		salt_len -= len;
@@ -145,8 +146,7 @@ static void skein1024_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* the last block is processed with the final flag */
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -154,6 +154,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
@@ -170,23 +172,31 @@ static void skein1024_output(kripto_hash *s, void *out, size_t len)
 		memset(s->buf, 0, 128);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 128);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 128)
 		{
-			s->out_len -= 128;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein1024_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 128);
+			kripto_block_encrypt(s->block, s->buf, s->h);
+			for(s->i = 0; s->i < 128; s->i++)
+				s->h[s->i] ^= s->buf[s->i];
+
+			if(!++s->buf[0])
+			if(!++s->buf[1])
+			if(!++s->buf[2])
+			if(!++s->buf[3])
+				s->buf[4]++;
+
 			s->i = 0;
 		}
-		
+
 		U8(out)[i] = s->h[s->i++];
 	}
 }
diff --git a/lib/hash/skein256.c b/lib/hash/skein256.c
index de6f2dd..72ddc22 100644
--- a/lib/hash/skein256.c
+++ b/lib/hash/skein256.c
@@ -91,7 +91,7 @@ static kripto_hash *skein256_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,7 +117,8 @@ static kripto_hash *skein256_recreate
 		unsigned int len = salt_len > 32 ? 32 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 32 - len);
+		memset(s->buf + len, 0, 32 - len);
+		salt = CU8(salt) + len;
 
 		POS_ADD(s->tweak, len);
 		salt_len -= len;
@@ -145,8 +146,7 @@ static void skein256_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* the last block is processed with the final flag */
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -154,6 +154,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
@@ -170,23 +172,31 @@ static void skein256_output(kripto_hash *s, void *out, size_t len)
 		memset(s->buf, 0, 32);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 32);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 32)
 		{
-			s->out_len -= 32;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein256_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 32);
+			kripto_block_encrypt(s->block, s->buf, s->h);
+			for(s->i = 0; s->i < 32; s->i++)
+				s->h[s->i] ^= s->buf[s->i];
+
+			if(!++s->buf[0])
+			if(!++s->buf[1])
+			if(!++s->buf[2])
+			if(!++s->buf[3])
+				s->buf[4]++;
+
 			s->i = 0;
 		}
-		
+
 		U8(out)[i] = s->h[s->i++];
 	}
 }
diff --git a/lib/hash/skein512.c b/lib/hash/skein512.c
index e0fbeaa..2acf915 100644
--- a/lib/hash/skein512.c
+++ b/lib/hash/skein512.c
@@ -91,7 +91,7 @@ static kripto_hash *skein512_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,7 +117,8 @@ static kripto_hash *skein512_recreate
 		unsigned int len = salt_len > 64 ? 64 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 64 - len);
+		memset(s->buf + len, 0, 64 - len);
+		salt = CU8(salt) + len;
 
 		POS_ADD(s->tweak, len);
 		salt_len -= len;
@@ -145,8 +146,7 @@ static void skein512_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* the last block is processed with the final flag */
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -154,6 +154,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
@@ -170,23 +172,31 @@ static void skein512_output(kripto_hash *s, void *out, size_t len)
 		memset(s->buf, 0, 64);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 64);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 64)
 		{
-			s->out_len -= 64;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein512_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 64);
+			kripto_block_encrypt(s->block, s->buf, s->h);
+			for(s->i = 0; s->i < 64; s->i++)
+				s->h[s->i] ^= s->buf[s->i];
+
+			if(!++s->buf[0])
+			if(!++s->buf[1])
+			if(!++s->buf[2])
+			if(!++s->buf[3])
+				s->buf[4]++;
+
 			s->i = 0;
 		}
-		
+
 		U8(out)[i] = s->h[s->i++];
 	}
 }
-- 
2.43.0


From f7725711b94eae3921958130ab8c5d794ebf8341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:25 +0000
Subject: [PATCH 08/37] fix: skein MAC of full blocks and of keys other than
 one full block

---
 lib/mac/skein1024.c | 11 +++++++----
 lib/mac/skein256.c  | 11 +++++++----
 lib/mac/skein512.c  | 11 +++++++----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/lib/mac/skein1024.c b/lib/mac/skein1024.c
index 405ae55..c8f84f6 100644
--- a/lib/mac/skein1024.c
+++ b/lib/mac/skein1024.c
@@ -90,7 +90,7 @@ static kripto_mac *skein1024_recreate
 	memset(s->h, 0, 128);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,7 +101,8 @@ static kripto_mac *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(s->tweak, block);
 
@@ -125,6 +126,7 @@ static kripto_mac *skein1024_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 112);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein1024_process(s);
@@ -147,8 +149,7 @@ static void skein1024_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* the last block is processed with the final flag */
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -156,6 +157,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein256.c b/lib/mac/skein256.c
index ea4b813..423816f 100644
--- a/lib/mac/skein256.c
+++ b/lib/mac/skein256.c
@@ -90,7 +90,7 @@ static kripto_mac *skein256_recreate
 	memset(s->h, 0, 32);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,7 +101,8 @@ static kripto_mac *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(s->tweak, block);
 
@@ -125,6 +126,7 @@ static kripto_mac *skein256_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 16);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein256_process(s);
@@ -147,8 +149,7 @@ static void skein256_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* the last block is processed with the final flag */
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -156,6 +157,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein512.c b/lib/mac/skein512.c
index ae114ac..59e3d65 100644
--- a/lib/mac/skein512.c
+++ b/lib/mac/skein512.c
@@ -90,7 +90,7 @@ static kripto_mac *skein512_recreate
 	memset(s->h, 0, 64);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,7 +101,8 @@ static kripto_mac *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(s->tweak, block);
 
@@ -125,6 +126,7 @@ static kripto_mac *skein512_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 48);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein512_process(s);
@@ -147,8 +149,7 @@ static void skein512_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* the last block is processed with the final flag */
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -156,6 +157,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
-- 
2.43.0


From 748d3339798fca9f73ffa96433208148e0d1677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:25 +0000
Subject: [PATCH 09/37] fix: skein stream used the key setup block as its first
 keystream

---
 lib/stream/skein1024.c | 8 +++++---
 lib/stream/skein256.c  | 8 +++++---
 lib/stream/skein512.c  | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/stream/skein1024.c b/lib/stream/skein1024.c
index f722ae9..fd576a5 100644
--- a/lib/stream/skein1024.c
+++ b/lib/stream/skein1024.c
@@ -76,7 +76,7 @@ static kripto_stream *skein1024_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 128; /* no keystream yet */
 	memset(k, 0, 128);
 	memset(s->ctr, 0, 128);
 
@@ -90,7 +90,8 @@ static kripto_stream *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(tweak, block);
 
@@ -138,7 +139,8 @@ static kripto_stream *skein1024_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
+		iv = CU8(iv) + block;
 
 		POS_ADD(tweak, block);
 
diff --git a/lib/stream/skein256.c b/lib/stream/skein256.c
index 847ec10..6a27b19 100644
--- a/lib/stream/skein256.c
+++ b/lib/stream/skein256.c
@@ -76,7 +76,7 @@ static kripto_stream *skein256_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 32; /* no keystream yet */
 	memset(k, 0, 32);
 	memset(s->ctr, 0, 32);
 
@@ -90,7 +90,8 @@ static kripto_stream *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(tweak, block);
 
@@ -138,7 +139,8 @@ static kripto_stream *skein256_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
+		iv = CU8(iv) + block;
 
 		POS_ADD(tweak, block);
 
diff --git a/lib/stream/skein512.c b/lib/stream/skein512.c
index 231a56d..1e7e14d 100644
--- a/lib/stream/skein512.c
+++ b/lib/stream/skein512.c
@@ -76,7 +76,7 @@ static kripto_stream *skein512_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 64; /* no keystream yet */
 	memset(k, 0, 64);
 	memset(s->ctr, 0, 64);
 
@@ -90,7 +90,8 @@ static kripto_stream *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(tweak, block);
 
@@ -138,7 +139,8 @@ static kripto_stream *skein512_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
+		iv = CU8(iv) + block;
 
 		POS_ADD(tweak, block);
 
-- 
2.43.0


From 6fd361600ff84a3eb0426e51bf42052618fbadd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:25 +0000
Subject: [PATCH 10/37] fix: blake2 processed a full last block without the
 final flag

---
 lib/hash/blake2b.c | 5 +++--
 lib/hash/blake2s.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/hash/blake2b.c b/lib/hash/blake2b.c
index 8451628..067ae5c 100644
--- a/lib/hash/blake2b.c
+++ b/lib/hash/blake2b.c
@@ -177,8 +177,7 @@ static void blake2b_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* the last block is processed with the final flag */
 		if(s->i == 128)
 		{
 			s->len[0] += 128;
@@ -191,6 +190,8 @@ static void blake2b_input
 			blake2b_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/hash/blake2s.c b/lib/hash/blake2s.c
index 881bac0..2f57dfd 100644
--- a/lib/hash/blake2s.c
+++ b/lib/hash/blake2s.c
@@ -175,8 +175,7 @@ static void blake2s_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* the last block is processed with the final flag */
 		if(s->i == 64)
 		{
 			s->len[0] += 64;
@@ -189,6 +188,8 @@ static void blake2s_input
 			blake2s_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
-- 
2.43.0


From 03f4a5466caf084c8fd3d65573a25b0af32d26e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:25 +0000
Subject: [PATCH 11/37] fix: blake counter must be zero for a padding block
 without message

---
 lib/hash/blake256.c | 5 ++++-
 lib/hash/blake512.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/hash/blake256.c b/lib/hash/blake256.c
index ded9fe2..88bb88e 100644
--- a/lib/hash/blake256.c
+++ b/lib/hash/blake256.c
@@ -212,6 +212,8 @@ static void blake256_input
 
 static void blake256_finish(kripto_hash *s)
 {
+	int empty = !s->i; /* no message in the last block */
+
 	s->len[0] += s->i << 3;
 	if(s->len[0] < (s->i << 3))
 	{
@@ -227,6 +229,7 @@ static void blake256_finish(kripto_hash *s)
 		while(s->i < 64) s->buf[s->i++] = 0;
 		blake256_process(s, s->buf);
 		s->i = 0;
+		empty = 1;
 	}
 
 	while(s->i < 56) s->buf[s->i++] = 0;
@@ -237,7 +240,7 @@ static void blake256_finish(kripto_hash *s)
 	STORE32B(s->len[1], s->buf + 56);
 	STORE32B(s->len[0], s->buf + 60);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	if(empty) s->len[0] = s->len[1] = 0;
 
 	blake256_process(s, s->buf);
 
diff --git a/lib/hash/blake512.c b/lib/hash/blake512.c
index 0c64c32..c0631ae 100644
--- a/lib/hash/blake512.c
+++ b/lib/hash/blake512.c
@@ -217,6 +217,8 @@ static void blake512_input
 
 static void blake512_finish(kripto_hash *s)
 {
+	int empty = !s->i; /* no message in the last block */
+
 	s->len[0] += s->i << 3;
 	if(s->len[0] < (s->i << 3))
 	{
@@ -232,6 +234,7 @@ static void blake512_finish(kripto_hash *s)
 		while(s->i < 128) s->buf[s->i++] = 0;
 		blake512_process(s, s->buf);
 		s->i = 0;
+		empty = 1;
 	}
 
 	while(s->i < 112) s->buf[s->i++] = 0;
@@ -242,7 +245,7 @@ static void blake512_finish(kripto_hash *s)
 	STORE64B(s->len[1], s->buf + 112);
 	STORE64B(s->len[0], s->buf + 120);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	if(empty) s->len[0] = s->len[1] = 0;
 
 	blake512_process(s, s->buf);
 
-- 
2.43.0


From f2ad076dacb598ab5a7bb28fde845a66510a477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:25 +0000
Subject: [PATCH 12/37] fix: keccak800 round constants and default round count

---
 lib/hash/keccak800.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index 8b9ce0d..bd7978e 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -39,16 +39,16 @@ struct kripto_hash
 
 static const uint32_t rc[40] = 
 {
-	0x00000001, 0x00008082, 0x8000808A, 0x00008000,
-	0x0000808B, 0x80000001, 0x00008081, 0x80008009,
+	0x00000001, 0x00008082, 0x0000808A, 0x80008000,
+	0x0000808B, 0x80000001, 0x80008081, 0x00008009,
 	0x0000008A, 0x00000088, 0x80008009, 0x8000000A,
-	0x8000808B, 0x8000008B, 0x80008089, 0x80008003,
-	0x80008002, 0x80000080, 0x0000800A, 0x0000000A,
-	0x00008081, 0x80008080, 0x80000001, 0x00008008,
-	0x00008082, 0x0000800A, 0x80000003, 0x00000009,
-	0x80008082, 0x00008009, 0x80000080, 0x00008083,
-	0x80000081, 0x00000001, 0x0000800B, 0x00008001,
-	0x00000080, 0x80008000, 0x00008001, 0x00000009
+	0x8000808B, 0x0000008B, 0x00008089, 0x00008003,
+	0x00008002, 0x00000080, 0x0000800A, 0x8000000A,
+	0x80008081, 0x00008080, 0x80000001, 0x80008008,
+	0x80008082, 0x8000800A, 0x00000003, 0x80000009,
+	0x00008082, 0x00008009, 0x00000080, 0x00008083,
+	0x00000081, 0x00000001, 0x0000800B, 0x80008001,
+	0x00000080, 0x00008000, 0x80008001, 0x00000009
 };
 
 static void keccak800_F(kripto_hash *s)
@@ -287,7 +287,7 @@ static kripto_hash *keccak800_recreate
 	s->o = s->i = 0;
 
 	s->r = r;
-	if(!s->r) s->r = 20;
+	if(!s->r) s->r = 22;
 
 	s->rate = 100 - (out_len << 1);
 
-- 
2.43.0


From ff372ae34ca2f60b38d0134d91839ec7c990d062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:25 +0000
Subject: [PATCH 13/37] fix: whirlpool refused its own number of rounds

---
 lib/hash/whirlpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hash/whirlpool.c b/lib/hash/whirlpool.c
index 59a412e..162852e 100644
--- a/lib/hash/whirlpool.c
+++ b/lib/hash/whirlpool.c
@@ -897,7 +897,7 @@ static kripto_hash *whirlpool_recreate
 	unsigned int out_len
 )
 {
-	assert(r < 10);
+	assert(r <= 10);
 	(void)salt;
 	(void)salt_len;
 	(void)out_len;
-- 
2.43.0


From d6a594803ebf7fe7564705334328b8edb3b9a5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:43 +0000
Subject: [PATCH 14/37] fix: cfb decryption wrote keystream blocks into the
 caller's buffer

---
 lib/stream/cfb.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/stream/cfb.c b/lib/stream/cfb.c
index 373ec5e..c88f8ff 100644
--- a/lib/stream/cfb.c
+++ b/lib/stream/cfb.c
@@ -66,17 +66,19 @@ static void cfb_decrypt
 )
 {
 	size_t i;
+	uint8_t c;
 
 	for(i = 0; i < len; i++)
 	{
 		if(s->used == s->blocksize)
 		{
-			kripto_block_encrypt(s->block, s->prev, pt);
+			kripto_block_encrypt(s->block, s->prev, s->prev);
 			s->used = 0;
 		}
 
-		U8(pt)[i] ^= CU8(ct)[i];
-		s->prev[s->used++] = CU8(ct)[i];
+		c = CU8(ct)[i];
+		U8(pt)[i] = c ^ s->prev[s->used];
+		s->prev[s->used++] = c;
 	}
 }
 
-- 
2.43.0


From 1437e782f51b7599515d227fcca1ce35a5672c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:44 +0000
Subject: [PATCH 15/37] fix: ctr counter did not carry into its first byte

---
 lib/stream/ctr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/stream/ctr.c b/lib/stream/ctr.c
index d3a833c..137ca9f 100644
--- a/lib/stream/ctr.c
+++ b/lib/stream/ctr.c
@@ -54,8 +54,8 @@ static void ctr_crypt
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize - 1; n; n--)
-				if(++s->x[n]) break;
+			for(n = s->blocksize; n; n--)
+				if(++s->x[n - 1]) break;
 		}
 
 		U8(out)[i] = CU8(in)[i] ^ s->buf[s->used++];
@@ -79,8 +79,8 @@ static void ctr_prng
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize - 1; n; n--)
-				if(++s->x[n]) break;
+			for(n = s->blocksize; n; n--)
+				if(++s->x[n - 1]) break;
 		}
 
 		U8(out)[i] = s->buf[s->used++];
-- 
2.43.0


From 597783801f6041f9b91224a282c6b3e998935a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:51 +0000
Subject: [PATCH 16/37] fix: shacal2 key schedule overflowed its block for
 fewer than 16 rounds

---
 lib/block/shacal2.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/block/shacal2.c b/lib/block/shacal2.c
index 3ee9f92..7bbc4eb 100644
--- a/lib/block/shacal2.c
+++ b/lib/block/shacal2.c
@@ -170,6 +170,9 @@ static void shacal2_decrypt
 	STORE32B(h, U8(pt) + 28);
 }
 
+/* the key itself takes 16 words */
+#define SCHEDULE_SIZE(R) (((R) > 16 ? (R) : 16) << 2)
+
 static void shacal2_setup
 (
 	kripto_block *s,
@@ -203,7 +206,7 @@ static kripto_block *shacal2_create
 
 	if(!r) r = 64;
 
-	kripto_block *s = (kripto_block *)malloc(sizeof(kripto_block) + (r << 2));
+	kripto_block *s = (kripto_block *)malloc(sizeof(kripto_block) + SCHEDULE_SIZE(r));
 	if(!s) return 0;
 
 	s->desc = desc;
@@ -216,7 +219,7 @@ static kripto_block *shacal2_create
 
 static void shacal2_destroy(kripto_block *s)
 {
-	kripto_memory_wipe(s, sizeof(kripto_block) + (s->r << 2));
+	kripto_memory_wipe(s, sizeof(kripto_block) + SCHEDULE_SIZE(s->r));
 	free(s);
 }
 
-- 
2.43.0


From 81d4b4ad8f6802acbb68b0f8378766010cd3a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:33 +0000
Subject: [PATCH 17/37] fix: hmac with a tag shorter than the one it was
 created for, and with keys hashed to more than a block

---
 lib/mac/hmac.c | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/lib/mac/hmac.c b/lib/mac/hmac.c
index 5bd432e..9bf13f7 100644
--- a/lib/mac/hmac.c
+++ b/lib/mac/hmac.c
@@ -32,7 +32,9 @@ struct kripto_mac
 	size_t size;
 	unsigned int r;
 	unsigned int blocksize;
+	unsigned int tag_len;
 	uint8_t *key;
+	uint8_t *digest; /* inner */
 };
 
 static int hmac_init
@@ -40,16 +42,15 @@ static int hmac_init
 	kripto_mac *s,
 	const kripto_desc_hash *hash,
 	const void *key,
-	unsigned int key_len,
-	unsigned int tag_len
+	unsigned int key_len
 )
 {
 	unsigned int i;
 
-	s->blocksize = kripto_hash_blocksize(hash);
-
 	if(key_len > s->blocksize)
 	{
+		i = s->tag_len < s->blocksize ? s->tag_len : s->blocksize;
+
 		if(kripto_hash_all(
 			hash,
 			s->r,
@@ -58,10 +59,8 @@ static int hmac_init
 			key,
 			key_len,
 			s->key,
-			tag_len)
+			i)
 		) return -1;
-
-		i = tag_len;
 	}
 	else
 	{
@@ -90,11 +89,11 @@ static void hmac_tag(kripto_mac *s, void *tag, unsigned int len)
 	for(i = 0; i < s->blocksize; i++)
 		s->key[i] ^= 0x6A; /* 0x5C ^ 0x36 */
 
-	kripto_hash_output(s->hash, tag, len);
+	kripto_hash_output(s->hash, s->digest, s->tag_len);
 
-	kripto_hash_recreate(s->hash, s->r, 0, 0, len);
+	kripto_hash_recreate(s->hash, s->r, 0, 0, s->tag_len);
 	kripto_hash_input(s->hash, s->key, i);
-	kripto_hash_input(s->hash, tag, len);
+	kripto_hash_input(s->hash, s->digest, s->tag_len);
 	kripto_hash_output(s->hash, tag, len);
 }
 
@@ -123,14 +122,20 @@ static kripto_mac *hmac_create
 	unsigned int tag_len
 )
 {
-	kripto_mac *s = (kripto_mac *)malloc(sizeof(kripto_mac) + kripto_hash_blocksize(EXT(desc)->hash));
+	const unsigned int blocksize = kripto_hash_blocksize(EXT(desc)->hash);
+	const size_t size = sizeof(kripto_mac) + blocksize + tag_len;
+
+	kripto_mac *s = (kripto_mac *)malloc(size);
 	if(!s) return 0;
 
 	s->key = (uint8_t *)s + sizeof(kripto_mac);
+	s->digest = s->key + blocksize;
 
 	s->desc = desc;
-	s->size = sizeof(kripto_mac) + kripto_hash_blocksize(EXT(desc)->hash);
+	s->size = size;
 	s->r = r;
+	s->blocksize = blocksize;
+	s->tag_len = tag_len;
 	s->hash = kripto_hash_create(EXT(desc)->hash, r, 0, 0, tag_len);
 	if(!s->hash)
 	{
@@ -138,7 +143,7 @@ static kripto_mac *hmac_create
 		return 0;
 	}
 
-	if(hmac_init(s, EXT(desc)->hash, key, key_len, tag_len))
+	if(hmac_init(s, EXT(desc)->hash, key, key_len))
 	{
 		hmac_destroy(s);
 		return 0;
@@ -156,6 +161,14 @@ static kripto_mac *hmac_recreate
 	unsigned int tag_len
 )
 {
+	if(tag_len != s->tag_len)
+	{
+		const kripto_desc_mac *const desc = s->desc;
+
+		hmac_destroy(s);
+		return hmac_create(desc, r, key, key_len, tag_len);
+	}
+
 	s->hash = kripto_hash_recreate(s->hash, r, 0, 0, tag_len);
 	if(!s->hash)
 	{
@@ -166,7 +179,7 @@ static kripto_mac *hmac_recreate
 
 	s->r = r;
 
-	if(hmac_init(s, EXT(s->desc)->hash, key, key_len, tag_len))
+	if(hmac_init(s, EXT(s->desc)->hash, key, key_len))
 	{
 		hmac_destroy(s);
 		return 0;
-- 
2.43.0


From 08cf7b961bdd59f6539d29adb195403884501a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:33 +0000
Subject: [PATCH 18/37] fix: pbkdf2 changed the MAC's tag length for short
 outputs and used a failed MAC

---
 lib/pbkdf2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/pbkdf2.c b/lib/pbkdf2.c
index c456fb0..9c06cdb 100644
--- a/lib/pbkdf2.c
+++ b/lib/pbkdf2.c
@@ -49,7 +49,7 @@ int kripto_pbkdf2
 	assert(iter);
 
 	x = kripto_mac_maxtag(mac);
-	if(out_len < x) x = out_len;
+	if(!x) x = out_len; /* no maximum */
 
 	buf0 = (uint8_t *)malloc(x << 1);
 	if(!buf0) return -1;
@@ -75,7 +75,7 @@ int kripto_pbkdf2
 		for(i = 1; i < iter; i++)
 		{
 			m = kripto_mac_recreate(m, mac_rounds, pass, pass_len, x);
-			if(!mac) goto err;
+			if(!m) goto err;
 
 			kripto_mac_input(m, buf0, x);
 			kripto_mac_tag(m, buf0, x);
-- 
2.43.0


From 9186d54d325b92a6073b80d1efc8f6904a441a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:48 +0000
Subject: [PATCH 19/37] fix: scrypt work area overlapped and its size
 overflowed

---
 lib/scrypt.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/scrypt.c b/lib/scrypt.c
index 71541c8..ec6e624 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -16,6 +16,7 @@
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
+#include <limits.h>
 #include <assert.h>
 
 #include <kripto/memory.h>
@@ -217,13 +218,21 @@ int kripto_scrypt
 	uint32_t *t1;
 	uint32_t *t2;
 	uint32_t i;
+	const size_t block = (size_t)r << 7;
+	size_t size;
 
-	b = (uint8_t *)malloc((r << 7) * p + (r << 7) * n + (r << 8));
+	/* the salt of the last step and the work area must be expressible */
+	if(r > UINT_MAX >> 7 || (p && block > UINT_MAX / p)) return -1;
+	size = block * (p + (size_t)2);
+	if(block && n > (SIZE_MAX - size) / block) return -1;
+	size += block * n;
+
+	b = (uint8_t *)malloc(size);
 	if(!b) return -1;
 
-	t0 = (uint32_t *)(void *)(b + (r << 7) * p);
-	t1 = t0 + (r << 5);
-	t2 = t1 + (r << 5);
+	t0 = (uint32_t *)(void *)(b + block * p);
+	t1 = t0 + (block >> 2) * n;
+	t2 = t1 + (block >> 2);
 
 	if(kripto_pbkdf2
 	(
@@ -235,11 +244,11 @@ int kripto_scrypt
 		salt,
 		salt_len,
 		b,
-		p * (r << 7)
+		p * block
 	)) goto err;
 
 	for(i = 0; i < p; i++)
-		smix(b + (r << 7) * i, r, n, t0, t1, t2);
+		smix(b + block * i, r, n, t0, t1, t2);
 
 	if(kripto_pbkdf2
 	(
@@ -249,18 +258,18 @@ int kripto_scrypt
 		pass,
 		pass_len,
 		b,
-		p * (r << 7),
+		p * block,
 		out,
 		out_len
 	)) goto err;
 
-	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + (r << 8));
+	kripto_memory_wipe(b, size);
 	free(b);
 
 	return 0;
 
 err:
-	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + (r << 8));
+	kripto_memory_wipe(b, size);
 	free(b);
 
 	return -1;
-- 
2.43.0


From 8ad351d4db5010f3797cb8793cd839c11fa727f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:06 +0000
Subject: [PATCH 20/37] fix: eax with IVs or tags shorter than a block, and
 after a failed recreate

---
 lib/ae/eax.c | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/lib/ae/eax.c b/lib/ae/eax.c
index a03af41..8fc204d 100644
--- a/lib/ae/eax.c
+++ b/lib/ae/eax.c
@@ -96,9 +96,10 @@ static void eax_tag
 
 static void eax_destroy(kripto_ae *s)
 {
-	kripto_stream_destroy(s->ctr);
-	kripto_mac_destroy(s->omac);
-	kripto_mac_destroy(s->header);
+	/* any of these can be missing after a failed recreate */
+	if(s->ctr) kripto_stream_destroy(s->ctr);
+	if(s->omac) kripto_mac_destroy(s->omac);
+	if(s->header) kripto_mac_destroy(s->header);
 
 	kripto_memory_wipe(s->iv, s->len);
 
@@ -159,7 +160,7 @@ static kripto_ae *eax_create
 	memset(buf, 0, len);
 	kripto_mac_input(s->omac, buf, len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, len);
@@ -168,7 +169,7 @@ static kripto_ae *eax_create
 	kripto_mac_input(s->omac, buf, len);
 
 	/* create CTR */
-	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, iv_len);
+	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, len);
 	if(!s->ctr) goto err6;
 
 	/* create OMAC for header */
@@ -215,7 +216,7 @@ static kripto_ae *eax_recreate
 	memset(buf, 0, s->len);
 	kripto_mac_input(s->omac, buf, s->len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, s->len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, s->len);
@@ -224,12 +225,12 @@ static kripto_ae *eax_recreate
 	kripto_mac_input(s->omac, buf, s->len);
 
 	/* recreate CTR */
-	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, iv_len);
-	if(!s->ctr) goto err2;
+	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, s->len);
+	if(!s->ctr) goto err1;
 
 	/* recreate OMAC for header */
 	s->header = kripto_mac_recreate(s->header, rounds, key, key_len, s->len);
-	if(!s->header) goto err3;
+	if(!s->header) goto err1;
 	buf[s->len - 1] = 1;
 	kripto_mac_input(s->header, buf, s->len);
 
@@ -237,14 +238,8 @@ static kripto_ae *eax_recreate
 
 	return s;
 
-err3: kripto_stream_destroy(s->ctr);
-err2: kripto_mac_destroy(s->omac);
 err1: free(buf);
-err0:
-	free(s->ctr_desc);
-	free(s->omac_desc);
-	kripto_memory_wipe(s->iv, s->len);
-	free(s);
+err0: eax_destroy(s);
 	return 0;
 }
 
-- 
2.43.0


From 623c76d7c893a28a86b2d8ae6356b60139f90bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:06 +0000
Subject: [PATCH 21/37] fix: eax2 key split, stream IV length, and after a
 failed recreate

---
 lib/ae/eax2.c | 58 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 16ddbe0..e22a9ef 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <string.h>
 #include <stdlib.h>
@@ -91,9 +92,10 @@ static void eax2_tag
 
 static void eax2_destroy(kripto_ae *s)
 {
-	kripto_stream_destroy(s->stream);
-	kripto_mac_destroy(s->mac);
-	kripto_mac_destroy(s->header);
+	/* any of these can be missing after a failed recreate */
+	if(s->stream) kripto_stream_destroy(s->stream);
+	if(s->mac) kripto_mac_destroy(s->mac);
+	if(s->header) kripto_mac_destroy(s->header);
 
 	kripto_memory_wipe(s->iv, s->len);
 
@@ -109,6 +111,29 @@ struct ext
 
 #define EXT(X) ((const struct ext *)(X))
 
+/* length of the second part of the key (K2) */
+static unsigned int stream_keylen(const kripto_desc_ae *desc, unsigned int len)
+{
+	const unsigned int maxmac = kripto_mac_maxkey(EXT(desc)->mac);
+	unsigned int n = (len + 1) >> 1;
+
+	if(n > kripto_stream_maxkey(EXT(desc)->stream))
+		n = kripto_stream_maxkey(EXT(desc)->stream);
+
+	/* no more for the MAC than it can take */
+	if(len - n > maxmac) n = len - maxmac;
+
+	return n;
+}
+
+/* how much of the tag of the nonce is IV for the stream cipher */
+static unsigned int stream_ivlen(const kripto_desc_ae *desc, unsigned int len)
+{
+	const unsigned int maxiv = kripto_stream_maxiv(EXT(desc)->stream);
+
+	return len < maxiv ? len : maxiv;
+}
+
 static kripto_ae *eax2_create
 (
 	const kripto_desc_ae *desc,
@@ -136,9 +161,7 @@ static kripto_ae *eax2_create
 	s->len = tag_len;
 
 	/* split key */
-	stream_key = (key_len + 1) >> 1;
-	if(stream_key > kripto_stream_maxkey(EXT(desc)->stream))
-		stream_key = kripto_stream_maxkey(EXT(desc)->stream);
+	stream_key = stream_keylen(desc, key_len);
 	mac_key = key_len - stream_key;
 
 	/* MAC IV */
@@ -147,7 +170,7 @@ static kripto_ae *eax2_create
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, tag_len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
@@ -160,7 +183,7 @@ static kripto_ae *eax2_create
 	(
 		EXT(desc)->stream, rounds,
 		(const uint8_t *)key + mac_key, stream_key,
-		s->iv, iv_len
+		s->iv, stream_ivlen(desc, tag_len)
 	);
 	if(!s->stream) goto err4;
 
@@ -216,9 +239,7 @@ static kripto_ae *eax2_recreate
 	if(!buf) goto err0;
 
 	/* split key */
-	stream_key = (key_len + 1) >> 1;
-	if(stream_key > kripto_stream_maxkey(EXT(s->desc)->stream))
-		stream_key = kripto_stream_maxkey(EXT(s->desc)->stream);
+	stream_key = stream_keylen(s->desc, key_len);
 	mac_key = key_len - stream_key;
 
 	/* MAC IV */
@@ -227,7 +248,7 @@ static kripto_ae *eax2_recreate
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, tag_len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
@@ -240,15 +261,15 @@ static kripto_ae *eax2_recreate
 	(
 		s->stream, rounds,
 		(const uint8_t *)key + mac_key, stream_key,
-		s->iv, iv_len
+		s->iv, stream_ivlen(s->desc, tag_len)
 	);
-	if(!s->stream) goto err2;
+	if(!s->stream) goto err1;
 
 	s->multof = kripto_stream_multof(s->stream);
 
 	/* recreate MAC for header */
 	s->header = kripto_mac_recreate(s->header, rounds, key, mac_key, tag_len);
-	if(!s->header) goto err3;
+	if(!s->header) goto err1;
 	buf[s->len - 1] = 1;
 	kripto_mac_input(s->header, buf, tag_len);
 
@@ -256,12 +277,8 @@ static kripto_ae *eax2_recreate
 
 	return s;
 
-err3: kripto_stream_destroy(s->stream);
-err2: kripto_mac_destroy(s->mac);
 err1: free(buf);
-err0:
-	kripto_memory_wipe(s->iv, tag_len);
-	free(s);
+err0: eax2_destroy(s);
 	return 0;
 }
 
@@ -285,6 +302,7 @@ kripto_desc_ae *kripto_ae_eax2
 	s->desc.tag = &eax2_tag;
 	s->desc.destroy = &eax2_destroy;
 	s->desc.maxkey = kripto_stream_maxkey(stream) + kripto_mac_maxkey(mac);
+	if(s->desc.maxkey < kripto_mac_maxkey(mac)) s->desc.maxkey = UINT_MAX;
 	s->desc.maxiv = kripto_stream_maxiv(stream);
 	s->desc.maxtag = kripto_mac_maxtag(mac);
 
-- 
2.43.0


From def55ee6353c5d7be03c77495381a6bc1c63e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:28 +0000
Subject: [PATCH 22/37] fix: ae refused every tag length for MACs without a
 maximum

---
 lib/ae.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/ae.c b/lib/ae.c
index f2ba46a..8edacf4 100644
--- a/lib/ae.c
+++ b/lib/ae.c
@@ -44,7 +44,7 @@ kripto_ae *kripto_ae_create
 	assert(key_len <= kripto_ae_maxkey(desc));
 	assert(iv_len <= kripto_ae_maxiv(desc));
 	if(iv_len) assert(iv);
-	assert(tag_len <= kripto_ae_maxtag(desc));
+	assert(!kripto_ae_maxtag(desc) || tag_len <= kripto_ae_maxtag(desc)); /* 0: no maximum */
 
 	return desc->create(desc, rounds, key, key_len, iv, iv_len, tag_len);
 }
@@ -69,7 +69,7 @@ kripto_ae *kripto_ae_recreate
 	assert(key_len <= kripto_ae_maxkey(s->desc));
 	assert(iv_len <= kripto_ae_maxiv(s->desc));
 	if(iv_len) assert(iv);
-	assert(tag_len <= kripto_ae_maxtag(s->desc));
+	assert(!kripto_ae_maxtag(s->desc) || tag_len <= kripto_ae_maxtag(s->desc)); /* 0: no maximum */
 
 	return s->desc->recreate(s, rounds, key, key_len, iv, iv_len, tag_len);
 }
-- 
2.43.0


From 0f2966a4004e652a11f3942ef3832736ea09071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:28 +0000
Subject: [PATCH 23/37] fix: xcbc released key material without wiping it

---
 lib/mac/xcbc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mac/xcbc.c b/lib/mac/xcbc.c
index f421b13..aec7a58 100644
--- a/lib/mac/xcbc.c
+++ b/lib/mac/xcbc.c
@@ -160,6 +160,7 @@ static kripto_mac *xcbc_create
 
 	if(xcbc_init(s, r))
 	{
+		kripto_memory_wipe(s, sizeof(kripto_mac) + s->len * 3);
 		free(s);
 		return 0;
 	}
-- 
2.43.0


From e7c44118552112be9b6e5db8cc30b8aea38499ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:28 +0000
Subject: [PATCH 24/37] fix: pkcs7 padding to lengths that are no power of two,
 of empty messages, and malformed

---
 lib/pkcs7.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/pkcs7.c b/lib/pkcs7.c
index f615557..6d293a4 100644
--- a/lib/pkcs7.c
+++ b/lib/pkcs7.c
@@ -30,7 +30,7 @@ size_t kripto_pkcs7_add
 {
 	unsigned int i;
 
-	pad = pad - (len & (pad - 1));
+	pad = pad - len % pad;
 
 	if(pad + len > maxlen) return 0;
 
@@ -42,8 +42,17 @@ size_t kripto_pkcs7_add
 
 size_t kripto_pkcs7_rem(void *buf, size_t len)
 {
-	if(U8(buf)[len - 1] < len)
-		return (len - U8(buf)[len - 1]);
-	else
-		return len;
+	unsigned int pad;
+	unsigned int i;
+
+	if(!len) return 0;
+
+	pad = U8(buf)[len - 1];
+	if(!pad || pad > len) return len;
+
+	/* all of it must be padding */
+	for(i = 2; i <= pad; i++)
+		if(U8(buf)[len - i] != pad) return len;
+
+	return len - pad;
 }
-- 
2.43.0


From 6b2af6c8f31472522b4f0e4f81759a726fb46255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:28 +0000
Subject: [PATCH 25/37] fix: random self-test rejected every healthy source

---
 lib/random.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 49f750b..7ccf123 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -416,8 +416,8 @@ int kripto_random_test(kripto_random *s)
 
 		/* distances */
 		if(prev == sample[i]) dist_zero++;
-		dist[sample[i]] += 4096 - dist_prev[sample[i]];
-		dist_prev[sample[i]] = 4096;
+		dist[sample[i]] += i - dist_prev[sample[i]];
+		dist_prev[sample[i]] = i;
 
 		/* serial correlation */
 		corr1 += prev * sample[i];
@@ -430,7 +430,7 @@ int kripto_random_test(kripto_random *s)
 	for(i = 0; i < 256; i++)
 	{
 		/* chi square */
-		t = count[i] - 16;
+		t = (double)count[i] - 16.0;
 		chi += t * t;
 
 		/* entropy */
@@ -445,6 +445,7 @@ int kripto_random_test(kripto_random *s)
 	}
 	chi /= 16;
 	avg /= 4096;
+	avg_null /= 256;
 
 	/* serial correlation */
 	corr2 = corr2 * corr2;
-- 
2.43.0


From 57594beeaafdb0bee9790857ab8e83c0b454e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:28 +0000
Subject: [PATCH 26/37] fix: random fallback leaked on reseed and freed itself
 when a reseed failed

---
 lib/random.c | 69 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 7ccf123..2aede4a 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -74,7 +74,6 @@ struct kripto_random
 struct kripto_random
 {
 	kripto_stream *stream;
-	kripto_desc_mac *mac;
 	time_t time;
 	size_t output;
 };
@@ -103,8 +102,8 @@ static int seed(kripto_random *s, uint8_t *out, unsigned int len)
 		uint8_t unassigned[4];
 	} entropy;
 
-	s->mac = kripto_mac_hmac(kripto_hash_blake2s);
-	if(!s->mac) return -1;
+	kripto_desc_mac *mac = kripto_mac_hmac(kripto_hash_blake2s);
+	if(!mac) return -1;
 
 	#if defined(KRIPTO_UNIX)
 	entropy.pid = getpid();
@@ -117,12 +116,12 @@ static int seed(kripto_random *s, uint8_t *out, unsigned int len)
 
 	if(kripto_scrypt
 	(
-		s->mac, 0,
+		mac, 0,
 		1048576, 8, 1,
 		&entropy, sizeof(entropy),
 		0, 0,
 		out, len
-	)) return -1;
+	)) goto err;
 
 	memcpy(entropy.unassigned, &s, 4);
 
@@ -136,19 +135,25 @@ static int seed(kripto_random *s, uint8_t *out, unsigned int len)
 
 	if(kripto_scrypt
 	(
-		s->mac, 0,
+		mac, 0,
 		1048576, 8, 1,
 		&entropy, sizeof(entropy),
 		out, len,
 		out, len
-	)) return -1;
+	)) goto err;
 
 	kripto_memory_wipe(&entropy, sizeof(entropy));
+	free(mac);
 
 	s->output = 0;
 	s->time = time(NULL);
 
 	return 0;
+
+err:
+	kripto_memory_wipe(&entropy, sizeof(entropy));
+	free(mac);
+	return -1;
 }
 
 static kripto_random *create(void)
@@ -267,38 +272,45 @@ size_t kripto_random_gen(kripto_random *s, void *out, size_t len)
 	#else
 
 	uint8_t buf[32];
-	uint8_t iv[8];
-
-	s->output += len;
+	uint8_t iv[8] = {0, 0, 0, 0, 0, 0, 0, 0};
 
 	if /* reseed */
 	(
-		s->output > KRIPTO_RESEED_OUTPUT ||
+		!s->stream ||
+		len > KRIPTO_RESEED_OUTPUT ||
+		s->output > KRIPTO_RESEED_OUTPUT - len ||
 		time(NULL) - s->time > KRIPTO_RESEED_TIME
 	)
 	{
-		kripto_stream_prng(s->stream, iv, 8);
-
-		if(seed(s, buf, 32)) goto err;
-
-		s->stream = kripto_stream_recreate
-		(
-			s->stream, 0,
-			buf, 32,
-			iv, 8
-		);
-		if(!s->stream) goto err;
+		if(s->stream) kripto_stream_prng(s->stream, iv, 8);
+
+		if(seed(s, buf, 32)) return 0;
+
+		if(s->stream)
+			s->stream = kripto_stream_recreate
+			(
+				s->stream, 0,
+				buf, 32,
+				iv, 8
+			);
+		else
+			s->stream = kripto_stream_create
+			(
+				kripto_stream_chacha, 0,
+				buf, 32,
+				iv, 8
+			);
+
+		kripto_memory_wipe(buf, 32);
+		if(!s->stream) return 0; /* created by the next reseed */
 	}
 
+	s->output += len;
+
 	kripto_stream_prng(s->stream, out, len);
 
 	return len;
 
-err:
-	kripto_memory_wipe(s, sizeof(kripto_random));
-	free(s);
-	return 0;
-
 	#endif
 }
 
@@ -321,8 +333,7 @@ void kripto_random_destroy(kripto_random *s)
 
 	#else
 
-	kripto_stream_destroy(s->stream);
-	free(s->mac);
+	if(s->stream) kripto_stream_destroy(s->stream);
 
 	kripto_memory_wipe(s, sizeof(kripto_random));
 	free(s);
-- 
2.43.0


From 59754016112a67117fd1e6bb629123b0bd0699b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:23 +0000
Subject: [PATCH 27/37] fix: xtea decryption with an odd number of rounds read
 far outside the key schedule

---
 lib/block/xtea.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/block/xtea.c b/lib/block/xtea.c
index 44d19b9..d1683cd 100644
--- a/lib/block/xtea.c
+++ b/lib/block/xtea.c
@@ -87,12 +87,12 @@ static void xtea_decrypt(const kripto_block *s, const void *ct, void *pt)
 	uint32_t x1 = LOAD32B(CU8(ct) + 4);
 	unsigned int i = s->rounds;
 
+	/* an odd number of rounds ends with half a cycle */
+	if(i & 1) x0 -= F(x1) ^ s->k[--i];
+
 	while(i)
 	{
 		x1 -= F(x0) ^ s->k[--i];
-
-		if(i == UINT_MAX) break;
-
 		x0 -= F(x1) ^ s->k[--i];
 	}
 
-- 
2.43.0


From 4b0f3e0d7a0243cf7ec203d7e7a7cb4bc3fd26d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:12 +0000
Subject: [PATCH 28/37] fix: omac placed the upper reduction polynomial bytes
 at the wrong offsets

---
 lib/mac/omac.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/mac/omac.c b/lib/mac/omac.c
index 5ed42fd..6bbc77f 100644
--- a/lib/mac/omac.c
+++ b/lib/mac/omac.c
@@ -323,9 +323,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu[s->len - 4] ^= poly[s->len][0];
-			s->lu[s->len - 3] ^= poly[s->len][1];
-			s->lu[s->len - 2] ^= poly[s->len][2];
+			s->lu[s->len - 6] ^= poly[s->len][0];
+			s->lu[s->len - 5] ^= poly[s->len][1];
+			s->lu[s->len - 4] ^= poly[s->len][2];
 			s->lu[s->len - 3] ^= poly[s->len][3];
 			s->lu[s->len - 2] ^= poly[s->len][4];
 		}
@@ -346,9 +346,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu2[s->len - 4] ^= poly[s->len][0];
-			s->lu2[s->len - 3] ^= poly[s->len][1];
-			s->lu2[s->len - 2] ^= poly[s->len][2];
+			s->lu2[s->len - 6] ^= poly[s->len][0];
+			s->lu2[s->len - 5] ^= poly[s->len][1];
+			s->lu2[s->len - 4] ^= poly[s->len][2];
 			s->lu2[s->len - 3] ^= poly[s->len][3];
 			s->lu2[s->len - 2] ^= poly[s->len][4];
 		}
-- 
2.43.0


From 262f2e357dde9ba01393fafbf44f325f23a961fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:12 +0000
Subject: [PATCH 29/37] fix: omac used reducible polynomials for blocks of 33
 and 207 bytes

---
 lib/mac/omac.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mac/omac.c b/lib/mac/omac.c
index 6bbc77f..1a5532f 100644
--- a/lib/mac/omac.c
+++ b/lib/mac/omac.c
@@ -78,7 +78,7 @@ static const uint8_t poly[256][6] =
 	{0x00, 0x00, 0x00, 0x00, 0x01, 0x29}, /*  30 */
 	{0x00, 0x00, 0x00, 0x00, 0xC4, 0x01}, /*  31 */
 	{0x00, 0x00, 0x00, 0x00, 0x04, 0x25}, /*  32 */
-	{0x00, 0x00, 0x00, 0x00, 0x09, 0x45}, /*  33 */
+	{0x00, 0x00, 0x00, 0x00, 0x02, 0x45}, /*  33 */
 	{0x00, 0x00, 0x00, 0x00, 0x02, 0x0D}, /*  34 */
 	{0x00, 0x00, 0x00, 0x00, 0x02, 0x25}, /*  35 */
 	{0x00, 0x00, 0x00, 0x00, 0x0C, 0x03}, /*  36 */
@@ -252,7 +252,7 @@ static const uint8_t poly[256][6] =
 	{0x00, 0x00, 0x00, 0x02, 0x80, 0x09}, /* 204 */
 	{0x00, 0x00, 0x00, 0x00, 0x00, 0xA3}, /* 205 */
 	{0x00, 0x00, 0x00, 0x04, 0x20, 0x03}, /* 206 */
-	{0x00, 0x00, 0x00, 0x08, 0x81, 0x01}, /* 207 */
+	{0x00, 0x00, 0x00, 0x08, 0x84, 0x01}, /* 207 */
 	{0x00, 0x00, 0x00, 0x02, 0x02, 0x41}, /* 208 */
 	{0x00, 0x00, 0x00, 0x00, 0x00, 0x39}, /* 209 */
 	{0x00, 0x00, 0x00, 0x00, 0x08, 0x45}, /* 210 */
-- 
2.43.0


From 6af86bf2c70eb04e7642cb0608a1715919f7409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:07 +0000
Subject: [PATCH 30/37] fix: hmac kept using a hash object that rekeying had
 replaced

---
 lib/mac/hmac.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mac/hmac.c b/lib/mac/hmac.c
index 9bf13f7..d957378 100644
--- a/lib/mac/hmac.c
+++ b/lib/mac/hmac.c
@@ -91,7 +91,7 @@ static void hmac_tag(kripto_mac *s, void *tag, unsigned int len)
 
 	kripto_hash_output(s->hash, s->digest, s->tag_len);
 
-	kripto_hash_recreate(s->hash, s->r, 0, 0, s->tag_len);
+	s->hash = kripto_hash_recreate(s->hash, s->r, 0, 0, s->tag_len);
 	kripto_hash_input(s->hash, s->key, i);
 	kripto_hash_input(s->hash, s->digest, s->tag_len);
 	kripto_hash_output(s->hash, tag, len);
-- 
2.43.0


From de48cfcab07cce50965a7c7e14b77ef4a68ee203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 31/37] fix: keccak lost its rate for outputs of half the state
 or more

A hash with an unlimited output length may be asked for 100 (keccak800: 50)
bytes or more, and HMAC, PBKDF2 and scrypt over it ask for as much as they
produce. The rate then became zero or wrapped around and input was absorbed
past the end of the state.
---
 lib/hash/keccak1600.c | 3 +++
 lib/hash/keccak800.c  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/hash/keccak1600.c b/lib/hash/keccak1600.c
index 0a95af7..b70f85f 100644
--- a/lib/hash/keccak1600.c
+++ b/lib/hash/keccak1600.c
@@ -304,6 +304,9 @@ static kripto_hash *keccak1600_recreate
 	s->r = r;
 	if(!s->r) s->r = 24;
 
+	/* longer outputs get the greatest capacity */
+	if(out_len > 99) out_len = 99;
+
 	s->rate = 200 - (out_len << 1);
 
 	memset(s->s, 0, 200);
diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index bd7978e..9f05ce3 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -289,6 +289,9 @@ static kripto_hash *keccak800_recreate
 	s->r = r;
 	if(!s->r) s->r = 22;
 
+	/* longer outputs get the greatest capacity */
+	if(out_len > 49) out_len = 49;
+
 	s->rate = 100 - (out_len << 1);
 
 	memset(s->s, 0, 100);
-- 
2.43.0


From f2eaebd4c13c5f5bac0d3cb200d978e522c0bacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:53 +0000
Subject: [PATCH 32/37] fix: pbkdf2 overflowed its buffer for 2 GiB and more
 with a MAC without a maximum

---
 lib/pbkdf2.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/pbkdf2.c b/lib/pbkdf2.c
index 9c06cdb..d4b9ae7 100644
--- a/lib/pbkdf2.c
+++ b/lib/pbkdf2.c
@@ -16,6 +16,7 @@
 #include <stdint.h>
 #include <string.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <assert.h>
 
 #include <kripto/cast.h>
@@ -49,9 +50,13 @@ int kripto_pbkdf2
 	assert(iter);
 
 	x = kripto_mac_maxtag(mac);
-	if(!x) x = out_len; /* no maximum */
+	if(!x) /* no maximum */
+	{
+		if(out_len > UINT_MAX) return -1;
+		x = out_len;
+	}
 
-	buf0 = (uint8_t *)malloc(x << 1);
+	buf0 = (uint8_t *)malloc((size_t)x << 1);
 	if(!buf0) return -1;
 
 	buf1 = buf0 + x;
-- 
2.43.0


From 29b9ba9ce9900c3f3d1ede0a4f8c6387fb8f5591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:43 +0000
Subject: [PATCH 33/37] fix: one-shot keccak and skein hashes truncated output
 lengths of 4 GiB and more

---
 lib/hash/keccak1600.c |  3 ++-
 lib/hash/keccak800.c  |  3 ++-
 lib/hash/skein1024.c  | 20 ++++++++++++++++----
 lib/hash/skein256.c   | 20 ++++++++++++++++----
 lib/hash/skein512.c   | 20 ++++++++++++++++----
 5 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/lib/hash/keccak1600.c b/lib/hash/keccak1600.c
index b70f85f..5743ee6 100644
--- a/lib/hash/keccak1600.c
+++ b/lib/hash/keccak1600.c
@@ -408,7 +408,8 @@ static int keccak1600_hash
 	kripto_hash s;
 	(void)desc;
 
-	(void)keccak1600_recreate(&s, r, salt, salt_len, out_len);
+	/* longer outputs get the greatest capacity */
+	(void)keccak1600_recreate(&s, r, salt, salt_len, out_len > 99 ? 99 : out_len);
 	keccak1600_input(&s, in, in_len);
 	keccak1600_output(&s, out, out_len);
 
diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index 9f05ce3..63a071a 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -388,7 +388,8 @@ static int keccak800_hash
 	kripto_hash s;
 	(void)desc;
 
-	(void)keccak800_recreate(&s, r, salt, salt_len, out_len);
+	/* longer outputs get the greatest capacity */
+	(void)keccak800_recreate(&s, r, salt, salt_len, out_len > 49 ? 49 : out_len);
 	keccak800_input(&s, in, in_len);
 	keccak800_output(&s, out, out_len);
 
diff --git a/lib/hash/skein1024.c b/lib/hash/skein1024.c
index fbd4a18..f4158af 100644
--- a/lib/hash/skein1024.c
+++ b/lib/hash/skein1024.c
@@ -35,7 +35,7 @@ struct kripto_hash
 	kripto_block *block;
 	unsigned int r;
 	unsigned int i;
-	unsigned int out_len;
+	size_t out_len;
 	int f;
 	uint8_t h[128];
 	uint8_t buf[128];
@@ -73,13 +73,13 @@ static void skein1024_process(kripto_hash *s)
 	for(i = 0; i < 128; i++) s->h[i] ^= s->buf[i];
 }
 
-static kripto_hash *skein1024_recreate
+static kripto_hash *skein1024_init
 (
 	kripto_hash *s,
 	unsigned int r,
 	const void *salt,
 	unsigned int salt_len,
-	unsigned int out_len
+	size_t out_len
 )
 {
 	uint64_t t;
@@ -137,6 +137,18 @@ static kripto_hash *skein1024_recreate
 	return s;
 }
 
+static kripto_hash *skein1024_recreate
+(
+	kripto_hash *s,
+	unsigned int r,
+	const void *salt,
+	unsigned int salt_len,
+	unsigned int out_len
+)
+{
+	return skein1024_init(s, r, salt, salt_len, out_len);
+}
+
 static void skein1024_input
 (
 	kripto_hash *s,
@@ -250,7 +262,7 @@ static int skein1024_hash
 	s.block = kripto_block_create(kripto_block_threefish1024, r, "", 1);
 	if(!s.block) return -1;
 
-	(void)skein1024_recreate(&s, r, salt, salt_len, out_len);
+	(void)skein1024_init(&s, r, salt, salt_len, out_len);
 	skein1024_input(&s, in, in_len);
 	skein1024_output(&s, out, out_len);
 
diff --git a/lib/hash/skein256.c b/lib/hash/skein256.c
index 72ddc22..9fa718d 100644
--- a/lib/hash/skein256.c
+++ b/lib/hash/skein256.c
@@ -35,7 +35,7 @@ struct kripto_hash
 	kripto_block *block;
 	unsigned int r;
 	unsigned int i;
-	unsigned int out_len;
+	size_t out_len;
 	int f;
 	uint8_t h[32];
 	uint8_t buf[32];
@@ -73,13 +73,13 @@ static void skein256_process(kripto_hash *s)
 	for(i = 0; i < 32; i++) s->h[i] ^= s->buf[i];
 }
 
-static kripto_hash *skein256_recreate
+static kripto_hash *skein256_init
 (
 	kripto_hash *s,
 	unsigned int r,
 	const void *salt,
 	unsigned int salt_len,
-	unsigned int out_len
+	size_t out_len
 )
 {
 	uint64_t t;
@@ -137,6 +137,18 @@ static kripto_hash *skein256_recreate
 	return s;
 }
 
+static kripto_hash *skein256_recreate
+(
+	kripto_hash *s,
+	unsigned int r,
+	const void *salt,
+	unsigned int salt_len,
+	unsigned int out_len
+)
+{
+	return skein256_init(s, r, salt, salt_len, out_len);
+}
+
 static void skein256_input
 (
 	kripto_hash *s,
@@ -250,7 +262,7 @@ static int skein256_hash
 	s.block = kripto_block_create(kripto_block_threefish256, r, "", 1);
 	if(!s.block) return -1;
 
-	(void)skein256_recreate(&s, r, salt, salt_len, out_len);
+	(void)skein256_init(&s, r, salt, salt_len, out_len);
 	skein256_input(&s, in, in_len);
 	skein256_output(&s, out, out_len);
 
diff --git a/lib/hash/skein512.c b/lib/hash/skein512.c
index 2acf915..4299ba5 100644
--- a/lib/hash/skein512.c
+++ b/lib/hash/skein512.c
@@ -35,7 +35,7 @@ struct kripto_hash
 	kripto_block *block;
 	unsigned int r;
 	unsigned int i;
-	unsigned int out_len;
+	size_t out_len;
 	int f;
 	uint8_t h[64];
 	uint8_t buf[64];
@@ -73,13 +73,13 @@ static void skein512_process(kripto_hash *s)
 	for(i = 0; i < 64; i++) s->h[i] ^= s->buf[i];
 }
 
-static kripto_hash *skein512_recreate
+static kripto_hash *skein512_init
 (
 	kripto_hash *s,
 	unsigned int r,
 	const void *salt,
 	unsigned int salt_len,
-	unsigned int out_len
+	size_t out_len
 )
 {
 	uint64_t t;
@@ -137,6 +137,18 @@ static kripto_hash *skein512_recreate
 	return s;
 }
 
+static kripto_hash *skein512_recreate
+(
+	kripto_hash *s,
+	unsigned int r,
+	const void *salt,
+	unsigned int salt_len,
+	unsigned int out_len
+)
+{
+	return skein512_init(s, r, salt, salt_len, out_len);
+}
+
 static void skein512_input
 (
 	kripto_hash *s,
@@ -250,7 +262,7 @@ static int skein512_hash
 	s.block = kripto_block_create(kripto_block_threefish512, r, "", 1);
 	if(!s.block) return -1;
 
-	(void)skein512_recreate(&s, r, salt, salt_len, out_len);
+	(void)skein512_init(&s, r, salt, salt_len, out_len);
 	skein512_input(&s, in, in_len);
 	skein512_output(&s, out, out_len);
 
-- 
2.43.0


From c0e65f4538e91bd74667c728ed672ce842dc47aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:37 +0000
Subject: [PATCH 34/37] fix: random.c does not compile for CryptGenRandom

---
 lib/random.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 2aede4a..35da4bb 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -226,10 +226,6 @@ kripto_random *kripto_random_create(void)
 	return s;
 
 	#elif defined(KRIPTO_CRYPTGENRANDOM)
-	#if sizeof(kripto_random *) < sizeof(HCRYPTPROV)
-	#error sizeof(kripto_random *) < sizeof(HCRYPTPROV)
-	#endif
-
 	HCRYPTPROV prov = 0;
 
 	if(!CryptAcquireContext
-- 
2.43.0


From 886180805f7d103a6e9b67092c15ecefac5f45fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:07 +0000
Subject: [PATCH 35/37] fix: result of RtlGenRandom is a BOOLEAN, the rest of
 the register is undefined

---
 lib/random.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 35da4bb..4c83bf1 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -38,7 +38,7 @@
 struct kripto_random
 {
 	HMODULE lib;
-	FARPROC rtlgenrandom;
+	BOOLEAN (APIENTRY *rtlgenrandom)(void *, ULONG);
 };
 #elif defined(KRIPTO_CRYPTGENRANDOM)
 #include <wincrypt.h>
@@ -215,7 +215,8 @@ kripto_random *kripto_random_create(void)
 		return 0;
 	}
 
-	s->rtlgenrandom = GetProcAddress(s->lib, "SystemFunction036");
+	s->rtlgenrandom = (BOOLEAN (APIENTRY *)(void *, ULONG))
+		GetProcAddress(s->lib, "SystemFunction036");
 	if(!s->rtlgenrandom)
 	{
 		FreeLibrary(s->lib);
@@ -257,7 +258,7 @@ size_t kripto_random_gen(kripto_random *s, void *out, size_t len)
 	#elif defined(KRIPTO_RTLGENRANDOM)
 
 	assert(s->rtlgenrandom);
-	if(s->rtlgenrandom(out, len) == TRUE) return len;
+	if(s->rtlgenrandom(out, len)) return len;
 	return 0;
 	
 	#elif defined(KRIPTO_CRYPTGENRANDOM)
-- 
2.43.0


From 370cb7173971ec8a8aa188a519114bb755eb6b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:07 +0000
Subject: [PATCH 36/37] fix: random source using RtlGenRandom is not freed when
 destroyed

---
 lib/random.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/random.c b/lib/random.c
index 4c83bf1..9d778fb 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -323,6 +323,7 @@ void kripto_random_destroy(kripto_random *s)
 
 	assert(s->lib);
 	FreeLibrary(s->lib);
+	free(s);
 
 	#elif defined(KRIPTO_CRYPTGENRANDOM)
 
-- 
2.43.0


From 865bee4556f1269efc8de972fc2049c6b6232678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:34 +0000
Subject: [PATCH 37/37] fix: reads of 4 GiB and more from the Windows
 generators report bytes never written

---
 lib/random.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 9d778fb..138b8f6 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -33,6 +33,8 @@
 
 #include <windows.h>
 
+#define MAX_REQUEST 0x40000000 /* lengths are 32 bit */
+
 #if defined(KRIPTO_RTLGENRANDOM)
 #include <stdlib.h>
 struct kripto_random
@@ -257,14 +259,33 @@ size_t kripto_random_gen(kripto_random *s, void *out, size_t len)
 
 	#elif defined(KRIPTO_RTLGENRANDOM)
 
+	size_t i = 0;
+	ULONG n;
+
 	assert(s->rtlgenrandom);
-	if(s->rtlgenrandom(out, len)) return len;
-	return 0;
-	
+
+	while(i < len)
+	{
+		n = len - i < MAX_REQUEST ? (ULONG)(len - i) : MAX_REQUEST;
+		if(!s->rtlgenrandom((BYTE *)out + i, n)) break;
+		i += n;
+	}
+
+	return i;
+
 	#elif defined(KRIPTO_CRYPTGENRANDOM)
 
-	if(CryptGenRandom((HCRYPTPROV)s, len, out)) return len;
-	return 0;
+	size_t i = 0;
+	DWORD n;
+
+	while(i < len)
+	{
+		n = len - i < MAX_REQUEST ? (DWORD)(len - i) : MAX_REQUEST;
+		if(!CryptGenRandom((HCRYPTPROV)s, n, (BYTE *)out + i)) break;
+		i += n;
+	}
+
+	return i;
 
 	#else
 
-- 
2.43.0

