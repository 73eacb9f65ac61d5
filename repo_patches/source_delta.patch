From fc3a9f12ce4877ff9cf2bdf52808e4da5c87ed1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:46 +0000
Subject: [PATCH 01/34] fix: scrypt: place the working block after the whole V
 array

---
 lib/scrypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scrypt.c b/lib/scrypt.c
index 71541c8..c920d67 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -222,7 +222,7 @@ int kripto_scrypt
 	if(!b) return -1;
 
 	t0 = (uint32_t *)(void *)(b + (r << 7) * p);
-	t1 = t0 + (r << 5);
+	t1 = t0 + (r << 5) * n;
 	t2 = t1 + (r << 5);
 
 	if(kripto_pbkdf2
-- 
2.43.0


From 14a4d1b15e053adde4472eae7c18113bd3cfada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:46 +0000
Subject: [PATCH 02/34] fix: cfb: decrypt through the feedback register, not
 the output buffer

---
 lib/stream/cfb.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/stream/cfb.c b/lib/stream/cfb.c
index 373ec5e..ff9dbcf 100644
--- a/lib/stream/cfb.c
+++ b/lib/stream/cfb.c
@@ -66,17 +66,19 @@ static void cfb_decrypt
 )
 {
 	size_t i;
+	uint8_t c;
 
 	for(i = 0; i < len; i++)
 	{
 		if(s->used == s->blocksize)
 		{
-			kripto_block_encrypt(s->block, s->prev, pt);
+			kripto_block_encrypt(s->block, s->prev, s->prev);
 			s->used = 0;
 		}
 
-		U8(pt)[i] ^= CU8(ct)[i];
-		s->prev[s->used++] = CU8(ct)[i];
+		c = CU8(ct)[i];
+		U8(pt)[i] = s->prev[s->used] ^ c;
+		s->prev[s->used++] = c;
 	}
 }
 
-- 
2.43.0


From cce86487a0fead673e8428bf7bfff101829c1c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:46 +0000
Subject: [PATCH 03/34] fix: ctr: let the counter carry into its first byte

---
 lib/stream/ctr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/stream/ctr.c b/lib/stream/ctr.c
index d3a833c..137ca9f 100644
--- a/lib/stream/ctr.c
+++ b/lib/stream/ctr.c
@@ -54,8 +54,8 @@ static void ctr_crypt
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize - 1; n; n--)
-				if(++s->x[n]) break;
+			for(n = s->blocksize; n; n--)
+				if(++s->x[n - 1]) break;
 		}
 
 		U8(out)[i] = CU8(in)[i] ^ s->buf[s->used++];
@@ -79,8 +79,8 @@ static void ctr_prng
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize - 1; n; n--)
-				if(++s->x[n]) break;
+			for(n = s->blocksize; n; n--)
+				if(++s->x[n - 1]) break;
 		}
 
 		U8(out)[i] = s->buf[s->used++];
-- 
2.43.0


From bc9d398588fd6d742302c16bf0c0ee4697a4ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:46 +0000
Subject: [PATCH 04/34] fix: skein: absorb long and short keys, nonces and
 salts correctly

---
 lib/hash/skein1024.c   | 3 ++-
 lib/hash/skein256.c    | 3 ++-
 lib/hash/skein512.c    | 3 ++-
 lib/mac/skein1024.c    | 4 +++-
 lib/mac/skein256.c     | 4 +++-
 lib/mac/skein512.c     | 4 +++-
 lib/stream/skein1024.c | 6 ++++--
 lib/stream/skein256.c  | 6 ++++--
 lib/stream/skein512.c  | 6 ++++--
 9 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/lib/hash/skein1024.c b/lib/hash/skein1024.c
index 25708cd..2ed04e6 100644
--- a/lib/hash/skein1024.c
+++ b/lib/hash/skein1024.c
@@ -117,7 +117,8 @@ static kripto_hash *skein1024_recreate
 		unsigned int len = salt_len > 128 ? 128 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 128 - len);
+		memset(s->buf + len, 0, 128 - len);
+		salt = CU8(salt) + len;
 
 		POS_ADD(s->tweak, len);
 		salt_len -= len;
diff --git a/lib/hash/skein256.c b/lib/hash/skein256.c
index de6f2dd..ac6961a 100644
--- a/lib/hash/skein256.c
+++ b/lib/hash/skein256.c
@@ -117,7 +117,8 @@ static kripto_hash *skein256_recreate
 		unsigned int len = salt_len > 32 ? 32 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 32 - len);
+		memset(s->buf + len, 0, 32 - len);
+		salt = CU8(salt) + len;
 
 		POS_ADD(s->tweak, len);
 		salt_len -= len;
diff --git a/lib/hash/skein512.c b/lib/hash/skein512.c
index e0fbeaa..906b683 100644
--- a/lib/hash/skein512.c
+++ b/lib/hash/skein512.c
@@ -117,7 +117,8 @@ static kripto_hash *skein512_recreate
 		unsigned int len = salt_len > 64 ? 64 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 64 - len);
+		memset(s->buf + len, 0, 64 - len);
+		salt = CU8(salt) + len;
 
 		POS_ADD(s->tweak, len);
 		salt_len -= len;
diff --git a/lib/mac/skein1024.c b/lib/mac/skein1024.c
index 405ae55..0c174de 100644
--- a/lib/mac/skein1024.c
+++ b/lib/mac/skein1024.c
@@ -101,7 +101,8 @@ static kripto_mac *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(s->tweak, block);
 
@@ -125,6 +126,7 @@ static kripto_mac *skein1024_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 112);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein1024_process(s);
diff --git a/lib/mac/skein256.c b/lib/mac/skein256.c
index ea4b813..be7b3d0 100644
--- a/lib/mac/skein256.c
+++ b/lib/mac/skein256.c
@@ -101,7 +101,8 @@ static kripto_mac *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(s->tweak, block);
 
@@ -125,6 +126,7 @@ static kripto_mac *skein256_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 16);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein256_process(s);
diff --git a/lib/mac/skein512.c b/lib/mac/skein512.c
index ae114ac..1a4e7d2 100644
--- a/lib/mac/skein512.c
+++ b/lib/mac/skein512.c
@@ -101,7 +101,8 @@ static kripto_mac *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(s->tweak, block);
 
@@ -125,6 +126,7 @@ static kripto_mac *skein512_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 48);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein512_process(s);
diff --git a/lib/stream/skein1024.c b/lib/stream/skein1024.c
index f722ae9..ac0ad50 100644
--- a/lib/stream/skein1024.c
+++ b/lib/stream/skein1024.c
@@ -90,7 +90,8 @@ static kripto_stream *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(tweak, block);
 
@@ -138,7 +139,8 @@ static kripto_stream *skein1024_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
+		iv = CU8(iv) + block;
 
 		POS_ADD(tweak, block);
 
diff --git a/lib/stream/skein256.c b/lib/stream/skein256.c
index 847ec10..0530293 100644
--- a/lib/stream/skein256.c
+++ b/lib/stream/skein256.c
@@ -90,7 +90,8 @@ static kripto_stream *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(tweak, block);
 
@@ -138,7 +139,8 @@ static kripto_stream *skein256_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
+		iv = CU8(iv) + block;
 
 		POS_ADD(tweak, block);
 
diff --git a/lib/stream/skein512.c b/lib/stream/skein512.c
index 231a56d..efb0ea3 100644
--- a/lib/stream/skein512.c
+++ b/lib/stream/skein512.c
@@ -90,7 +90,8 @@ static kripto_stream *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
+		key = CU8(key) + block;
 
 		POS_ADD(tweak, block);
 
@@ -138,7 +139,8 @@ static kripto_stream *skein512_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
+		iv = CU8(iv) + block;
 
 		POS_ADD(tweak, block);
 
-- 
2.43.0


From 55e69100c848191cb48e4923888f1d6461bace9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:46 +0000
Subject: [PATCH 05/34] fix: skein streams: start with an empty keystream
 buffer

---
 lib/stream/skein1024.c | 2 +-
 lib/stream/skein256.c  | 2 +-
 lib/stream/skein512.c  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/stream/skein1024.c b/lib/stream/skein1024.c
index ac0ad50..341bd1b 100644
--- a/lib/stream/skein1024.c
+++ b/lib/stream/skein1024.c
@@ -76,7 +76,7 @@ static kripto_stream *skein1024_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 128; /* keystream buffer empty */
 	memset(k, 0, 128);
 	memset(s->ctr, 0, 128);
 
diff --git a/lib/stream/skein256.c b/lib/stream/skein256.c
index 0530293..493ac71 100644
--- a/lib/stream/skein256.c
+++ b/lib/stream/skein256.c
@@ -76,7 +76,7 @@ static kripto_stream *skein256_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 32; /* keystream buffer empty */
 	memset(k, 0, 32);
 	memset(s->ctr, 0, 32);
 
diff --git a/lib/stream/skein512.c b/lib/stream/skein512.c
index efb0ea3..7b93a44 100644
--- a/lib/stream/skein512.c
+++ b/lib/stream/skein512.c
@@ -76,7 +76,7 @@ static kripto_stream *skein512_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 64; /* keystream buffer empty */
 	memset(k, 0, 64);
 	memset(s->ctr, 0, 64);
 
-- 
2.43.0


From e39996abd86aa900c174fc6be97a25f99af32af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:46 +0000
Subject: [PATCH 06/34] fix: skein hash and mac: keep the last full block for
 finalisation

---
 lib/hash/skein1024.c | 4 ++--
 lib/hash/skein256.c  | 4 ++--
 lib/hash/skein512.c  | 4 ++--
 lib/mac/skein1024.c  | 4 ++--
 lib/mac/skein256.c   | 4 ++--
 lib/mac/skein512.c   | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/hash/skein1024.c b/lib/hash/skein1024.c
index 2ed04e6..851d61f 100644
--- a/lib/hash/skein1024.c
+++ b/lib/hash/skein1024.c
@@ -146,8 +146,6 @@ static void skein1024_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -155,6 +153,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/hash/skein256.c b/lib/hash/skein256.c
index ac6961a..f38adbe 100644
--- a/lib/hash/skein256.c
+++ b/lib/hash/skein256.c
@@ -146,8 +146,6 @@ static void skein256_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -155,6 +153,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/hash/skein512.c b/lib/hash/skein512.c
index 906b683..6757241 100644
--- a/lib/hash/skein512.c
+++ b/lib/hash/skein512.c
@@ -146,8 +146,6 @@ static void skein512_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -155,6 +153,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein1024.c b/lib/mac/skein1024.c
index 0c174de..bb5f85c 100644
--- a/lib/mac/skein1024.c
+++ b/lib/mac/skein1024.c
@@ -149,8 +149,6 @@ static void skein1024_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -158,6 +156,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein256.c b/lib/mac/skein256.c
index be7b3d0..2cf09ab 100644
--- a/lib/mac/skein256.c
+++ b/lib/mac/skein256.c
@@ -149,8 +149,6 @@ static void skein256_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -158,6 +156,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein512.c b/lib/mac/skein512.c
index 1a4e7d2..4e0ec46 100644
--- a/lib/mac/skein512.c
+++ b/lib/mac/skein512.c
@@ -149,8 +149,6 @@ static void skein512_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -158,6 +156,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
-- 
2.43.0


From 5e0e43270222a7ca84f8631fc5cc115495b87ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:46 +0000
Subject: [PATCH 07/34] fix: skein hash: output blocks are a function of the
 counter

---
 lib/hash/skein1024.c | 27 ++++++++++++++++++---------
 lib/hash/skein256.c  | 27 ++++++++++++++++++---------
 lib/hash/skein512.c  | 27 ++++++++++++++++++---------
 3 files changed, 54 insertions(+), 27 deletions(-)

diff --git a/lib/hash/skein1024.c b/lib/hash/skein1024.c
index 851d61f..40013b0 100644
--- a/lib/hash/skein1024.c
+++ b/lib/hash/skein1024.c
@@ -40,6 +40,7 @@ struct kripto_hash
 	uint8_t h[128];
 	uint8_t buf[128];
 	uint8_t tweak[16];
+	uint8_t ctr[8];
 };
 
 #define POS_ADD(TWEAK, ADD)		\
@@ -168,27 +169,35 @@ static void skein1024_output(kripto_hash *s, void *out, size_t len)
 		skein1024_process(s);
 		s->f = -1;
 		s->i = 128;
-		memset(s->buf, 0, 128);
+		memset(s->ctr, 0, 8);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 128);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 128)
 		{
-			s->out_len -= 128;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein1024_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 128);
+			/* output block is function of counter */
+			memset(s->buf, 0, 128);
+			memcpy(s->buf, s->ctr, 8);
+			kripto_block_encrypt(s->block, s->buf, s->buf);
+			for(s->i = 0; s->i < 8; s->i++)
+				s->buf[s->i] ^= s->ctr[s->i];
+
+			for(s->i = 0; s->i < 8; s->i++)
+				if(++s->ctr[s->i]) break;
+
 			s->i = 0;
 		}
-		
-		U8(out)[i] = s->h[s->i++];
+
+		U8(out)[i] = s->buf[s->i++];
 	}
 }
 
diff --git a/lib/hash/skein256.c b/lib/hash/skein256.c
index f38adbe..89fce90 100644
--- a/lib/hash/skein256.c
+++ b/lib/hash/skein256.c
@@ -40,6 +40,7 @@ struct kripto_hash
 	uint8_t h[32];
 	uint8_t buf[32];
 	uint8_t tweak[16];
+	uint8_t ctr[8];
 };
 
 #define POS_ADD(TWEAK, ADD)		\
@@ -168,27 +169,35 @@ static void skein256_output(kripto_hash *s, void *out, size_t len)
 		skein256_process(s);
 		s->f = -1;
 		s->i = 32;
-		memset(s->buf, 0, 32);
+		memset(s->ctr, 0, 8);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 32);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 32)
 		{
-			s->out_len -= 32;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein256_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 32);
+			/* output block is function of counter */
+			memset(s->buf, 0, 32);
+			memcpy(s->buf, s->ctr, 8);
+			kripto_block_encrypt(s->block, s->buf, s->buf);
+			for(s->i = 0; s->i < 8; s->i++)
+				s->buf[s->i] ^= s->ctr[s->i];
+
+			for(s->i = 0; s->i < 8; s->i++)
+				if(++s->ctr[s->i]) break;
+
 			s->i = 0;
 		}
-		
-		U8(out)[i] = s->h[s->i++];
+
+		U8(out)[i] = s->buf[s->i++];
 	}
 }
 
diff --git a/lib/hash/skein512.c b/lib/hash/skein512.c
index 6757241..8b66092 100644
--- a/lib/hash/skein512.c
+++ b/lib/hash/skein512.c
@@ -40,6 +40,7 @@ struct kripto_hash
 	uint8_t h[64];
 	uint8_t buf[64];
 	uint8_t tweak[16];
+	uint8_t ctr[8];
 };
 
 #define POS_ADD(TWEAK, ADD)		\
@@ -168,27 +169,35 @@ static void skein512_output(kripto_hash *s, void *out, size_t len)
 		skein512_process(s);
 		s->f = -1;
 		s->i = 64;
-		memset(s->buf, 0, 64);
+		memset(s->ctr, 0, 8);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 64);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 64)
 		{
-			s->out_len -= 64;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein512_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 64);
+			/* output block is function of counter */
+			memset(s->buf, 0, 64);
+			memcpy(s->buf, s->ctr, 8);
+			kripto_block_encrypt(s->block, s->buf, s->buf);
+			for(s->i = 0; s->i < 8; s->i++)
+				s->buf[s->i] ^= s->ctr[s->i];
+
+			for(s->i = 0; s->i < 8; s->i++)
+				if(++s->ctr[s->i]) break;
+
 			s->i = 0;
 		}
-		
-		U8(out)[i] = s->h[s->i++];
+
+		U8(out)[i] = s->buf[s->i++];
 	}
 }
 
-- 
2.43.0


From bfb2ec64f5b0b6101a5d26ccf3f8b647ae8c4053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 08/34] fix: blake: zero counter for a final block without
 message bits

---
 lib/hash/blake256.c | 8 +++++++-
 lib/hash/blake512.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/hash/blake256.c b/lib/hash/blake256.c
index ded9fe2..8654cd3 100644
--- a/lib/hash/blake256.c
+++ b/lib/hash/blake256.c
@@ -212,6 +212,8 @@ static void blake256_input
 
 static void blake256_finish(kripto_hash *s)
 {
+	int z = 0;
+
 	s->len[0] += s->i << 3;
 	if(s->len[0] < (s->i << 3))
 	{
@@ -219,6 +221,9 @@ static void blake256_finish(kripto_hash *s)
 		assert(s->len[1]);
 	}
 
+	/* last block has no message bits */
+	if(!s->i) z = 1;
+
 	/* pad */
 	s->buf[s->i++] = 0x80;
 
@@ -227,6 +232,7 @@ static void blake256_finish(kripto_hash *s)
 		while(s->i < 64) s->buf[s->i++] = 0;
 		blake256_process(s, s->buf);
 		s->i = 0;
+		z = 1;
 	}
 
 	while(s->i < 56) s->buf[s->i++] = 0;
@@ -237,7 +243,7 @@ static void blake256_finish(kripto_hash *s)
 	STORE32B(s->len[1], s->buf + 56);
 	STORE32B(s->len[0], s->buf + 60);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	if(z) s->len[0] = s->len[1] = 0;
 
 	blake256_process(s, s->buf);
 
diff --git a/lib/hash/blake512.c b/lib/hash/blake512.c
index 0c64c32..b7caab0 100644
--- a/lib/hash/blake512.c
+++ b/lib/hash/blake512.c
@@ -217,6 +217,8 @@ static void blake512_input
 
 static void blake512_finish(kripto_hash *s)
 {
+	int z = 0;
+
 	s->len[0] += s->i << 3;
 	if(s->len[0] < (s->i << 3))
 	{
@@ -224,6 +226,9 @@ static void blake512_finish(kripto_hash *s)
 		assert(s->len[1]);
 	}
 
+	/* last block has no message bits */
+	if(!s->i) z = 1;
+
 	/* pad */
 	s->buf[s->i++] = 0x80;
 
@@ -232,6 +237,7 @@ static void blake512_finish(kripto_hash *s)
 		while(s->i < 128) s->buf[s->i++] = 0;
 		blake512_process(s, s->buf);
 		s->i = 0;
+		z = 1;
 	}
 
 	while(s->i < 112) s->buf[s->i++] = 0;
@@ -242,7 +248,7 @@ static void blake512_finish(kripto_hash *s)
 	STORE64B(s->len[1], s->buf + 112);
 	STORE64B(s->len[0], s->buf + 120);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	if(z) s->len[0] = s->len[1] = 0;
 
 	blake512_process(s, s->buf);
 
-- 
2.43.0


From 5a1de5a33b02f6fac4be26c065c0c09c34695eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 09/34] fix: blake2: keep the last full block for finalisation

---
 lib/hash/blake2b.c | 4 ++--
 lib/hash/blake2s.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/hash/blake2b.c b/lib/hash/blake2b.c
index 8451628..6a4ab46 100644
--- a/lib/hash/blake2b.c
+++ b/lib/hash/blake2b.c
@@ -177,8 +177,6 @@ static void blake2b_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 128)
 		{
 			s->len[0] += 128;
@@ -191,6 +189,8 @@ static void blake2b_input
 			blake2b_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/hash/blake2s.c b/lib/hash/blake2s.c
index 881bac0..7988125 100644
--- a/lib/hash/blake2s.c
+++ b/lib/hash/blake2s.c
@@ -175,8 +175,6 @@ static void blake2s_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 64)
 		{
 			s->len[0] += 64;
@@ -189,6 +187,8 @@ static void blake2s_input
 			blake2s_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
-- 
2.43.0


From b818ed3024f35168abc89694a37ce1ab9534b8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 10/34] fix: pbkdf2: check the recreated MAC for failure

---
 lib/pbkdf2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pbkdf2.c b/lib/pbkdf2.c
index c456fb0..8c3ed56 100644
--- a/lib/pbkdf2.c
+++ b/lib/pbkdf2.c
@@ -75,7 +75,7 @@ int kripto_pbkdf2
 		for(i = 1; i < iter; i++)
 		{
 			m = kripto_mac_recreate(m, mac_rounds, pass, pass_len, x);
-			if(!mac) goto err;
+			if(!m) goto err;
 
 			kripto_mac_input(m, buf0, x);
 			kripto_mac_tag(m, buf0, x);
-- 
2.43.0


From 2f0071397633fed83b665830129d5dc98c01c0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 11/34] fix: pbkdf2: short outputs truncate the PRF, unlimited
 MACs terminate

---
 lib/pbkdf2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pbkdf2.c b/lib/pbkdf2.c
index 8c3ed56..9c3eaae 100644
--- a/lib/pbkdf2.c
+++ b/lib/pbkdf2.c
@@ -49,7 +49,7 @@ int kripto_pbkdf2
 	assert(iter);
 
 	x = kripto_mac_maxtag(mac);
-	if(out_len < x) x = out_len;
+	if(!x) x = out_len; /* unlimited */
 
 	buf0 = (uint8_t *)malloc(x << 1);
 	if(!buf0) return -1;
-- 
2.43.0


From cd971648b8f99311e2103b50d53cb95bb84538c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 12/34] fix: pkcs7: any block size; remove a whole block of
 padding

---
 lib/pkcs7.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/pkcs7.c b/lib/pkcs7.c
index f615557..ba3192f 100644
--- a/lib/pkcs7.c
+++ b/lib/pkcs7.c
@@ -30,7 +30,7 @@ size_t kripto_pkcs7_add
 {
 	unsigned int i;
 
-	pad = pad - (len & (pad - 1));
+	pad = pad - len % pad;
 
 	if(pad + len > maxlen) return 0;
 
@@ -42,7 +42,7 @@ size_t kripto_pkcs7_add
 
 size_t kripto_pkcs7_rem(void *buf, size_t len)
 {
-	if(U8(buf)[len - 1] < len)
+	if(U8(buf)[len - 1] <= len)
 		return (len - U8(buf)[len - 1]);
 	else
 		return len;
-- 
2.43.0


From a450787fa5b006a65488876e8d1e2ede1a6a3c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 13/34] fix: eax: use the whole nonce OMAC whatever the nonce
 length

---
 lib/ae/eax.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/ae/eax.c b/lib/ae/eax.c
index a03af41..6d3a870 100644
--- a/lib/ae/eax.c
+++ b/lib/ae/eax.c
@@ -159,7 +159,7 @@ static kripto_ae *eax_create
 	memset(buf, 0, len);
 	kripto_mac_input(s->omac, buf, len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, len);
@@ -168,7 +168,7 @@ static kripto_ae *eax_create
 	kripto_mac_input(s->omac, buf, len);
 
 	/* create CTR */
-	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, iv_len);
+	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, len);
 	if(!s->ctr) goto err6;
 
 	/* create OMAC for header */
@@ -215,7 +215,7 @@ static kripto_ae *eax_recreate
 	memset(buf, 0, s->len);
 	kripto_mac_input(s->omac, buf, s->len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, s->len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, s->len);
@@ -224,7 +224,7 @@ static kripto_ae *eax_recreate
 	kripto_mac_input(s->omac, buf, s->len);
 
 	/* recreate CTR */
-	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, iv_len);
+	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, s->len);
 	if(!s->ctr) goto err2;
 
 	/* recreate OMAC for header */
-- 
2.43.0


From 07acdb8cf5a6abe33a2924979d89ebf5e18a3a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 14/34] fix: keccak: reject output lengths without a positive
 rate

---
 lib/hash/keccak1600.c | 2 ++
 lib/hash/keccak800.c  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/hash/keccak1600.c b/lib/hash/keccak1600.c
index 0a95af7..b3110bd 100644
--- a/lib/hash/keccak1600.c
+++ b/lib/hash/keccak1600.c
@@ -14,6 +14,7 @@
  */
 
 #include <stdint.h>
+#include <assert.h>
 #include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
@@ -304,6 +305,7 @@ static kripto_hash *keccak1600_recreate
 	s->r = r;
 	if(!s->r) s->r = 24;
 
+	assert(out_len < 100);
 	s->rate = 200 - (out_len << 1);
 
 	memset(s->s, 0, 200);
diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index 8b9ce0d..6640716 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -14,6 +14,7 @@
  */
 
 #include <stdint.h>
+#include <assert.h>
 #include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
@@ -289,6 +290,7 @@ static kripto_hash *keccak800_recreate
 	s->r = r;
 	if(!s->r) s->r = 20;
 
+	assert(out_len < 50);
 	s->rate = 100 - (out_len << 1);
 
 	memset(s->s, 0, 100);
-- 
2.43.0


From 5627003be28f01be966c3a1fffecf3b3c4b96db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 15/34] fix: whirlpool: accept all its 10 rounds explicitly

---
 lib/hash/whirlpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hash/whirlpool.c b/lib/hash/whirlpool.c
index 59a412e..162852e 100644
--- a/lib/hash/whirlpool.c
+++ b/lib/hash/whirlpool.c
@@ -897,7 +897,7 @@ static kripto_hash *whirlpool_recreate
 	unsigned int out_len
 )
 {
-	assert(r < 10);
+	assert(r <= 10);
 	(void)salt;
 	(void)salt_len;
 	(void)out_len;
-- 
2.43.0


From a3bc6dce054532c0541d3216d7392b58f874f76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 16/34] fix: xcbc: wipe derived keys when creation fails

---
 lib/mac/xcbc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mac/xcbc.c b/lib/mac/xcbc.c
index f421b13..aec7a58 100644
--- a/lib/mac/xcbc.c
+++ b/lib/mac/xcbc.c
@@ -160,6 +160,7 @@ static kripto_mac *xcbc_create
 
 	if(xcbc_init(s, r))
 	{
+		kripto_memory_wipe(s, sizeof(kripto_mac) + s->len * 3);
 		free(s);
 		return 0;
 	}
-- 
2.43.0


From f0ca9b1fb684988a22327b8f77cdfb4c24dae731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:46 +0000
Subject: [PATCH 17/34] fix: block ciphers: do not read the destroyed object
 when re-keying with other rounds

---
 lib/block/anubis.c    | 4 +++-
 lib/block/aria.c      | 4 +++-
 lib/block/blowfish.c  | 4 +++-
 lib/block/gost.c      | 4 +++-
 lib/block/idea.c      | 4 +++-
 lib/block/khazad.c    | 4 +++-
 lib/block/lea.c       | 4 +++-
 lib/block/rc5.c       | 4 +++-
 lib/block/rc6.c       | 4 +++-
 lib/block/rectangle.c | 4 +++-
 lib/block/rijndael.c  | 8 ++++++--
 lib/block/safer.c     | 8 ++++++--
 lib/block/saferpp.c   | 4 +++-
 lib/block/seed.c      | 4 +++-
 lib/block/serpent.c   | 4 +++-
 lib/block/shacal2.c   | 4 +++-
 lib/block/simon128.c  | 4 +++-
 lib/block/simon32.c   | 4 +++-
 lib/block/simon64.c   | 4 +++-
 lib/block/sm4.c       | 4 +++-
 lib/block/speck128.c  | 4 +++-
 lib/block/speck32.c   | 4 +++-
 lib/block/speck64.c   | 4 +++-
 lib/block/trax_l.c    | 4 +++-
 lib/block/trax_m.c    | 4 +++-
 lib/block/twofish.c   | 4 +++-
 lib/block/xtea.c      | 4 +++-
 27 files changed, 87 insertions(+), 29 deletions(-)

diff --git a/lib/block/anubis.c b/lib/block/anubis.c
index 78dd58b..79a37a9 100644
--- a/lib/block/anubis.c
+++ b/lib/block/anubis.c
@@ -770,8 +770,10 @@ static kripto_block *anubis_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		anubis_destroy(s);
-		s = anubis_create(s->desc, r, key, key_len);
+		s = anubis_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/aria.c b/lib/block/aria.c
index fd6c724..b735d98 100644
--- a/lib/block/aria.c
+++ b/lib/block/aria.c
@@ -705,8 +705,10 @@ static kripto_block *aria_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		aria_destroy(s);
-		s = aria_create(s->desc, r, key, key_len);
+		s = aria_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/blowfish.c b/lib/block/blowfish.c
index 3a8f000..9c280ee 100644
--- a/lib/block/blowfish.c
+++ b/lib/block/blowfish.c
@@ -519,8 +519,10 @@ static kripto_block *blowfish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		blowfish_destroy(s);
-		s = blowfish_create(s->desc, r, key, key_len);
+		s = blowfish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/gost.c b/lib/block/gost.c
index 6e172dc..00c1be2 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -190,8 +190,10 @@ static kripto_block *gost_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		gost_destroy(s);
-		s = gost_create(s->desc, r, key, key_len);
+		s = gost_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/idea.c b/lib/block/idea.c
index bea4387..e33ea90 100644
--- a/lib/block/idea.c
+++ b/lib/block/idea.c
@@ -212,8 +212,10 @@ static kripto_block *idea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		idea_destroy(s);
-		s = idea_create(s->desc, r, key, key_len);
+		s = idea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/khazad.c b/lib/block/khazad.c
index 52cc321..5189f88 100644
--- a/lib/block/khazad.c
+++ b/lib/block/khazad.c
@@ -747,8 +747,10 @@ static kripto_block *khazad_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		khazad_destroy(s);
-		s = khazad_create(s->desc, r, key, key_len);
+		s = khazad_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/lea.c b/lib/block/lea.c
index 7c5ce68..ebb0ef3 100644
--- a/lib/block/lea.c
+++ b/lib/block/lea.c
@@ -249,8 +249,10 @@ static kripto_block *lea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		lea_destroy(s);
-		s = lea_create(s->desc, r, key, key_len);
+		s = lea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc5.c b/lib/block/rc5.c
index 650ab37..cd1d4ca 100644
--- a/lib/block/rc5.c
+++ b/lib/block/rc5.c
@@ -156,8 +156,10 @@ static kripto_block *rc5_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rc5_destroy(s);
-		s = rc5_create(s->desc, r, key, key_len);
+		s = rc5_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc6.c b/lib/block/rc6.c
index dccc223..8920a8e 100644
--- a/lib/block/rc6.c
+++ b/lib/block/rc6.c
@@ -197,8 +197,10 @@ static kripto_block *rc6_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rc6_destroy(s);
-		s = rc6_create(s->desc, r, key, key_len);
+		s = rc6_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rectangle.c b/lib/block/rectangle.c
index 03eb04f..821d437 100644
--- a/lib/block/rectangle.c
+++ b/lib/block/rectangle.c
@@ -286,8 +286,10 @@ static kripto_block *rectangle_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rectangle_destroy(s);
-		s = rectangle_create(s->desc, r, key, key_len);
+		s = rectangle_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 4e0e8e6..70aea61 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -934,8 +934,10 @@ static kripto_block *rijndael128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rijndael128_destroy(s);
-		s = rijndael128_create(s->desc, r, key, key_len);
+		s = rijndael128_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -1167,8 +1169,10 @@ static kripto_block *rijndael256_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rijndael256_destroy(s);
-		s = rijndael256_create(s->desc, r, key, key_len);
+		s = rijndael256_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/safer.c b/lib/block/safer.c
index 9ab2013..f47ba54 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -348,8 +348,10 @@ static kripto_block *safer_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		safer_destroy(s);
-		s = safer_create(s->desc, r, key, key_len);
+		s = safer_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -401,8 +403,10 @@ static kripto_block *safer_sk_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		safer_destroy(s);
-		s = safer_sk_create(s->desc, r, key, key_len);
+		s = safer_sk_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index 86d6978..a8825a0 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -410,8 +410,10 @@ static kripto_block *saferpp_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		saferpp_destroy(s);
-		s = saferpp_create(s->desc, r, key, key_len);
+		s = saferpp_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/seed.c b/lib/block/seed.c
index 91f0c23..0bc3e20 100644
--- a/lib/block/seed.c
+++ b/lib/block/seed.c
@@ -457,8 +457,10 @@ static kripto_block *seed_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		seed_destroy(s);
-		s = seed_create(s->desc, r, key, key_len);
+		s = seed_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/serpent.c b/lib/block/serpent.c
index 9e1396d..63ec683 100644
--- a/lib/block/serpent.c
+++ b/lib/block/serpent.c
@@ -707,8 +707,10 @@ static kripto_block *serpent_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		serpent_destroy(s);
-		s = serpent_create(s->desc, r, key, key_len);
+		s = serpent_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/shacal2.c b/lib/block/shacal2.c
index 9d436de..6bd6b51 100644
--- a/lib/block/shacal2.c
+++ b/lib/block/shacal2.c
@@ -234,8 +234,10 @@ static kripto_block *shacal2_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		shacal2_destroy(s);
-		s = shacal2_create(s->desc, r, key, key_len);
+		s = shacal2_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon128.c b/lib/block/simon128.c
index 8259e95..87d3460 100644
--- a/lib/block/simon128.c
+++ b/lib/block/simon128.c
@@ -182,8 +182,10 @@ static kripto_block *simon128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		simon128_destroy(s);
-		s = simon128_create(s->desc, r, key, key_len);
+		s = simon128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon32.c b/lib/block/simon32.c
index 94d071f..45d955d 100644
--- a/lib/block/simon32.c
+++ b/lib/block/simon32.c
@@ -154,8 +154,10 @@ static kripto_block *simon32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		simon32_destroy(s);
-		s = simon32_create(s->desc, r, key, key_len);
+		s = simon32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon64.c b/lib/block/simon64.c
index 0caf667..4797fac 100644
--- a/lib/block/simon64.c
+++ b/lib/block/simon64.c
@@ -165,8 +165,10 @@ static kripto_block *simon64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		simon64_destroy(s);
-		s = simon64_create(s->desc, r, key, key_len);
+		s = simon64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/sm4.c b/lib/block/sm4.c
index 142173a..079b9db 100644
--- a/lib/block/sm4.c
+++ b/lib/block/sm4.c
@@ -222,8 +222,10 @@ static kripto_block *sm4_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		sm4_destroy(s);
-		s = sm4_create(s->desc, r, key, key_len);
+		s = sm4_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 1dfaf86..70cd0de 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -144,8 +144,10 @@ static kripto_block *speck128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		speck128_destroy(s);
-		s = speck128_create(s->desc, r, key, key_len);
+		s = speck128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index e85af4d..bbf563f 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -144,8 +144,10 @@ static kripto_block *speck32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		speck32_destroy(s);
-		s = speck32_create(s->desc, r, key, key_len);
+		s = speck32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index f495424..a20ecce 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -144,8 +144,10 @@ static kripto_block *speck64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		speck64_destroy(s);
-		s = speck64_create(s->desc, r, key, key_len);
+		s = speck64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_l.c b/lib/block/trax_l.c
index d447c42..d7b118d 100644
--- a/lib/block/trax_l.c
+++ b/lib/block/trax_l.c
@@ -287,8 +287,10 @@ static kripto_block *trax_l_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		trax_l_destroy(s);
-		s = trax_l_create(s->desc, r, key, key_len);
+		s = trax_l_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_m.c b/lib/block/trax_m.c
index 1611466..f324407 100644
--- a/lib/block/trax_m.c
+++ b/lib/block/trax_m.c
@@ -219,8 +219,10 @@ static kripto_block *trax_m_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		trax_m_destroy(s);
-		s = trax_m_create(s->desc, r, key, key_len);
+		s = trax_m_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/twofish.c b/lib/block/twofish.c
index 676aa5f..c128761 100644
--- a/lib/block/twofish.c
+++ b/lib/block/twofish.c
@@ -1224,8 +1224,10 @@ static kripto_block *twofish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		twofish_destroy(s);
-		s = twofish_create(s->desc, r, key, key_len);
+		s = twofish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/xtea.c b/lib/block/xtea.c
index b050337..713c9cf 100644
--- a/lib/block/xtea.c
+++ b/lib/block/xtea.c
@@ -142,8 +142,10 @@ static kripto_block *xtea_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		xtea_destroy(s);
-		s = xtea_create(s->desc, r, key, key_len);
+		s = xtea_create(desc, r, key, key_len);
 	}
 	else
 	{
-- 
2.43.0


From d3d9b642f1b6e13196d56dee7bc0a7953345ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:31 +0000
Subject: [PATCH 18/34] fix: speck: do not divide by zero for keys of one word

---
 lib/block/speck128.c | 2 ++
 lib/block/speck32.c  | 2 ++
 lib/block/speck64.c  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 70cd0de..2dbc2e6 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -88,6 +88,8 @@ static void speck128_setup
 	uint64_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 7) >> 3) - 1;
 
+	if(!m) m = 1; /* at least two key words */
+
 	LOAD64L_ARRAY(key, k, len);
 
 	s->k[0] = k[0];
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index bbf563f..5a9bcfd 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -88,6 +88,8 @@ static void speck32_setup
 	uint16_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 1) >> 1) - 1;
 
+	if(!m) m = 1; /* at least two key words */
+
 	LOAD16L_ARRAY(key, k, len);
 
 	s->k[0] = k[0];
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index a20ecce..2953824 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -88,6 +88,8 @@ static void speck64_setup
 	uint32_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 3) >> 2) - 1;
 
+	if(!m) m = 1; /* at least two key words */
+
 	LOAD32L_ARRAY(key, k, len);
 
 	s->k[0] = k[0];
-- 
2.43.0


From e35a6531b6ccc89dd41fe32652a11bf701510c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:31 +0000
Subject: [PATCH 19/34] fix: idea: multiply unsigned

---
 lib/block/idea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/block/idea.c b/lib/block/idea.c
index e33ea90..0248fd1 100644
--- a/lib/block/idea.c
+++ b/lib/block/idea.c
@@ -39,7 +39,7 @@ struct kripto_block
 
 static inline uint16_t MUL(uint16_t a, uint16_t b)
 {
-	uint32_t p = a * b;
+	uint32_t p = (uint32_t)a * b;
 
 	if(p)
 	{
-- 
2.43.0


From 528a40480831e8966ed342ed1d5e70aebbeec95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:31 +0000
Subject: [PATCH 20/34] fix: eax2: the nonce tag and the stream IV do not have
 the nonce length

---
 lib/ae/eax2.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 16ddbe0..9f5dad2 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -124,6 +124,7 @@ static kripto_ae *eax2_create
 	uint8_t *buf;
 	unsigned int mac_key; /* K1 */
 	unsigned int stream_key; /* K2 */
+	unsigned int stream_iv;
 
 	buf = (uint8_t *)malloc(tag_len);
 	if(!buf) goto err0;
@@ -141,13 +142,18 @@ static kripto_ae *eax2_create
 		stream_key = kripto_stream_maxkey(EXT(desc)->stream);
 	mac_key = key_len - stream_key;
 
+	/* stream IV */
+	stream_iv = tag_len;
+	if(stream_iv > kripto_stream_maxiv(EXT(desc)->stream))
+		stream_iv = kripto_stream_maxiv(EXT(desc)->stream);
+
 	/* MAC IV */
 	s->mac = kripto_mac_create(EXT(desc)->mac, rounds, key, mac_key, tag_len);
 	if(!s->mac) goto err2;
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, tag_len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
@@ -160,7 +166,7 @@ static kripto_ae *eax2_create
 	(
 		EXT(desc)->stream, rounds,
 		(const uint8_t *)key + mac_key, stream_key,
-		s->iv, iv_len
+		s->iv, stream_iv
 	);
 	if(!s->stream) goto err4;
 
@@ -198,6 +204,7 @@ static kripto_ae *eax2_recreate
 	uint8_t *buf;
 	unsigned int mac_key; /* K1 */
 	unsigned int stream_key; /* K2 */
+	unsigned int stream_iv;
 	const kripto_desc_ae *desc;
 
 	if(tag_len > s->len)
@@ -221,13 +228,18 @@ static kripto_ae *eax2_recreate
 		stream_key = kripto_stream_maxkey(EXT(s->desc)->stream);
 	mac_key = key_len - stream_key;
 
+	/* stream IV */
+	stream_iv = tag_len;
+	if(stream_iv > kripto_stream_maxiv(EXT(s->desc)->stream))
+		stream_iv = kripto_stream_maxiv(EXT(s->desc)->stream);
+
 	/* MAC IV */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
 	if(!s->mac) goto err1;
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, tag_len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
@@ -240,7 +252,7 @@ static kripto_ae *eax2_recreate
 	(
 		s->stream, rounds,
 		(const uint8_t *)key + mac_key, stream_key,
-		s->iv, iv_len
+		s->iv, stream_iv
 	);
 	if(!s->stream) goto err2;
 
-- 
2.43.0


From 3abbec15ee1ae89a5d9a01f3973f6ce7a87323d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:31 +0000
Subject: [PATCH 21/34] fix: eax2: split keys within both limits, saturate the
 key limit

---
 lib/ae/eax2.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 9f5dad2..79d4869 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -14,6 +14,7 @@
  */
 
 #include <stdint.h>
+#include <limits.h>
 #include <string.h>
 #include <stdlib.h>
 
@@ -141,6 +142,11 @@ static kripto_ae *eax2_create
 	if(stream_key > kripto_stream_maxkey(EXT(desc)->stream))
 		stream_key = kripto_stream_maxkey(EXT(desc)->stream);
 	mac_key = key_len - stream_key;
+	if(mac_key > kripto_mac_maxkey(EXT(desc)->mac))
+	{
+		mac_key = kripto_mac_maxkey(EXT(desc)->mac);
+		stream_key = key_len - mac_key;
+	}
 
 	/* stream IV */
 	stream_iv = tag_len;
@@ -227,6 +233,11 @@ static kripto_ae *eax2_recreate
 	if(stream_key > kripto_stream_maxkey(EXT(s->desc)->stream))
 		stream_key = kripto_stream_maxkey(EXT(s->desc)->stream);
 	mac_key = key_len - stream_key;
+	if(mac_key > kripto_mac_maxkey(EXT(s->desc)->mac))
+	{
+		mac_key = kripto_mac_maxkey(EXT(s->desc)->mac);
+		stream_key = key_len - mac_key;
+	}
 
 	/* stream IV */
 	stream_iv = tag_len;
@@ -297,6 +308,7 @@ kripto_desc_ae *kripto_ae_eax2
 	s->desc.tag = &eax2_tag;
 	s->desc.destroy = &eax2_destroy;
 	s->desc.maxkey = kripto_stream_maxkey(stream) + kripto_mac_maxkey(mac);
+	if(s->desc.maxkey < kripto_mac_maxkey(mac)) s->desc.maxkey = UINT_MAX;
 	s->desc.maxiv = kripto_stream_maxiv(stream);
 	s->desc.maxtag = kripto_mac_maxtag(mac);
 
-- 
2.43.0


From 79dae194d5fd63104b086cab0b742e161e754bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:31 +0000
Subject: [PATCH 22/34] fix: eax, eax2: release everything when re-keying fails

---
 lib/ae/eax.c  | 10 ++++++++--
 lib/ae/eax2.c | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/ae/eax.c b/lib/ae/eax.c
index 6d3a870..2ba82e8 100644
--- a/lib/ae/eax.c
+++ b/lib/ae/eax.c
@@ -237,10 +237,16 @@ static kripto_ae *eax_recreate
 
 	return s;
 
+err0: kripto_mac_destroy(s->omac);
+err1: kripto_stream_destroy(s->ctr);
+	goto err4;
 err3: kripto_stream_destroy(s->ctr);
+	kripto_mac_destroy(s->omac);
+	goto err5;
 err2: kripto_mac_destroy(s->omac);
-err1: free(buf);
-err0:
+err4: kripto_mac_destroy(s->header);
+err5:
+	free(buf);
 	free(s->ctr_desc);
 	free(s->omac_desc);
 	kripto_memory_wipe(s->iv, s->len);
diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 79d4869..6772292 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -279,10 +279,16 @@ static kripto_ae *eax2_recreate
 
 	return s;
 
+err0: kripto_mac_destroy(s->mac);
+err1: kripto_stream_destroy(s->stream);
+	goto err4;
 err3: kripto_stream_destroy(s->stream);
+	kripto_mac_destroy(s->mac);
+	goto err5;
 err2: kripto_mac_destroy(s->mac);
-err1: free(buf);
-err0:
+err4: kripto_mac_destroy(s->header);
+err5:
+	free(buf);
 	kripto_memory_wipe(s->iv, tag_len);
 	free(s);
 	return 0;
-- 
2.43.0


From ee5c65489ae619925e0f300b96e3e3c9da759510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:31 +0000
Subject: [PATCH 23/34] fix: gost: check the descriptor allocation

---
 lib/block/gost.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/block/gost.c b/lib/block/gost.c
index 00c1be2..ca45e2f 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -206,6 +206,7 @@ static kripto_block *gost_recreate
 kripto_desc_block *kripto_block_gost(const unsigned char (*sboxes)[16])
 {
 	kripto_desc_block *desc = (kripto_desc_block *)malloc(sizeof(kripto_desc_block) + sizeof(struct gost));
+	if(!desc) return 0;
 
 	desc->create = &gost_create;
 	desc->recreate = &gost_recreate;
-- 
2.43.0


From 1e66168969e444112d7f729617c2f9d02f721f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 24/34] fix: rijndael: round constants for short keys and many
 rounds

---
 lib/block/rijndael.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 70aea61..54daeee 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -662,7 +662,7 @@ static const uint8_t td4[256] =
 	0xE1, 0x69, 0x14, 0x63, 0x55, 0x21, 0x0C, 0x7D
 };
 
-static const uint32_t rcon[52] =
+static const uint32_t rcon[51] =
 {
 	0x01000000, 0x02000000, 0x04000000, 0x08000000,
 	0x10000000, 0x20000000, 0x40000000, 0x80000000,
@@ -739,7 +739,7 @@ static void rijndael_setup
 			((te4[(t >> 16) & 0xFF] << 24) |
 			(te4[(t >> 8) & 0xFF] << 16) |
 			(te4[t & 0xFF] << 8) |
-			te4[t >> 24]) ^ rcon[x++];
+			te4[t >> 24]) ^ rcon[x++ % 51]; /* 2 has order 51 */
 
 		if(n <= 6)
 		{
-- 
2.43.0


From 6739ece1c90127084cf12051f2f6c1a82ee3cf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 25/34] fix: saferpp: zero-extend keys that are not 128 or 256
 bits long

---
 lib/block/saferpp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index a8825a0..ecde0d0 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -309,11 +309,16 @@ static void saferpp_setup
 {
 	const uint8_t *key2;
 	uint8_t *k = s->k;
+	uint8_t key1[32] = {0};
 	uint8_t ka[17];
 	uint8_t kb[17];
 
 	kb[16] = ka[16] = 0;
 
+	/* zero-extend */
+	memcpy(key1, key, len);
+	key = key1;
+
 	if(len > 16) key2 = key + 16; /* 256-bit */
 	else key2 = key; /* 128-bit */
 
@@ -356,6 +361,7 @@ static void saferpp_setup
 		}
 	}
 
+	kripto_memory_wipe(key1, 32);
 	kripto_memory_wipe(ka, 17);
 	kripto_memory_wipe(kb, 17);
 }
-- 
2.43.0


From b8ad22bf5554a6b2e7f9502861561ae90571192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:49 +0000
Subject: [PATCH 26/34] fix: safer: zero-extend keys that are not 64 or 128
 bits long

---
 lib/block/safer.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/block/safer.c b/lib/block/safer.c
index f47ba54..c2bee05 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -260,17 +260,20 @@ static void safer_setup
 {
 	const uint8_t *key2;
 	uint8_t *k = s->k;
+	uint8_t buf[16] = {0};
 	uint8_t ka[9];
 	uint8_t kb[9];
 
 	kb[8] = ka[8] = 0;
 
-	if(len > 8) key2 = key + 8; /* 128-bit */
-	else key2 = key; /* 64-bit */
+	memcpy(buf, key, len); /* other lengths are zero-extended */
+
+	if(len > 8) key2 = buf + 8; /* 128-bit */
+	else key2 = buf; /* 64-bit */
 
 	for(unsigned int i = 0; i < 8; i++)
 	{
-		ka[8] ^= ka[i] = ROL8_5(key[i]);
+		ka[8] ^= ka[i] = ROL8_5(buf[i]);
 		kb[8] ^= kb[i] = *k++ = key2[i];
 	}
 
@@ -295,6 +298,7 @@ static void safer_setup
 		}
 	}
 
+	kripto_memory_wipe(buf, 16);
 	kripto_memory_wipe(ka, 9);
 	kripto_memory_wipe(kb, 9);
 }
-- 
2.43.0


From b7ff6a705a443dcc2bea07cae63482550d6dd799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:44 +0000
Subject: [PATCH 27/34] fix: ROR8_6 rotates right by 6

---
 include/kripto/rotate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kripto/rotate.h b/include/kripto/rotate.h
index 0b4c6cb..be006a1 100644
--- a/include/kripto/rotate.h
+++ b/include/kripto/rotate.h
@@ -331,7 +331,7 @@ static inline uint8_t ROL8_7(uint8_t x)
 #define ROR8_3 ROL8_5
 #define ROR8_4 ROL8_4
 #define ROR8_5 ROL8_3
-#define ROR8_6 ROL8_3
+#define ROR8_6 ROL8_2
 #define ROR8_7 ROL8_1
 
 static inline uint16_t ROL16_01(uint16_t x)
-- 
2.43.0


From f67ef114b4e7714c38eed453c84eac9f0a27abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:44 +0000
Subject: [PATCH 28/34] fix: portable rotations by a multiple of the word size
 do not shift by the full width

---
 include/kripto/rotate.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kripto/rotate.h b/include/kripto/rotate.h
index be006a1..f61416c 100644
--- a/include/kripto/rotate.h
+++ b/include/kripto/rotate.h
@@ -118,7 +118,7 @@ static inline uint32_t ROL32(uint32_t x, unsigned int r)
 #else
 
 	r &= 31;
-	return (x << r) | (x >> (32 - r));
+	return (x << r) | (x >> (-r & 31));
 
 #endif
 }
@@ -139,7 +139,7 @@ static inline uint32_t ROR32(uint32_t x, unsigned int r)
 #else
 
 	r &= 31;
-	return (x >> r) | (x << (32 - r));
+	return (x >> r) | (x << (-r & 31));
 
 #endif
 }
@@ -160,7 +160,7 @@ static inline uint64_t ROL64(uint64_t x, unsigned int r)
 #else
 
 	r &= 63;
-	return (x << r) | (x >> (64 - r));
+	return (x << r) | (x >> (-r & 63));
 
 #endif
 }
@@ -181,7 +181,7 @@ static inline uint64_t ROR64(uint64_t x, unsigned int r)
 #else
 
 	r &= 63;
-	return (x >> r) | (x << (64 - r));
+	return (x >> r) | (x << (-r & 63));
 
 #endif
 }
-- 
2.43.0


From c96fc61880498d3160e66b900d531d30a1704fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:21 +0000
Subject: [PATCH 29/34] fix: OMAC polynomials for 33 and 207 byte blocks and
 for terms above x^23

---
 lib/mac/omac.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/mac/omac.c b/lib/mac/omac.c
index 5ed42fd..1a5532f 100644
--- a/lib/mac/omac.c
+++ b/lib/mac/omac.c
@@ -78,7 +78,7 @@ static const uint8_t poly[256][6] =
 	{0x00, 0x00, 0x00, 0x00, 0x01, 0x29}, /*  30 */
 	{0x00, 0x00, 0x00, 0x00, 0xC4, 0x01}, /*  31 */
 	{0x00, 0x00, 0x00, 0x00, 0x04, 0x25}, /*  32 */
-	{0x00, 0x00, 0x00, 0x00, 0x09, 0x45}, /*  33 */
+	{0x00, 0x00, 0x00, 0x00, 0x02, 0x45}, /*  33 */
 	{0x00, 0x00, 0x00, 0x00, 0x02, 0x0D}, /*  34 */
 	{0x00, 0x00, 0x00, 0x00, 0x02, 0x25}, /*  35 */
 	{0x00, 0x00, 0x00, 0x00, 0x0C, 0x03}, /*  36 */
@@ -252,7 +252,7 @@ static const uint8_t poly[256][6] =
 	{0x00, 0x00, 0x00, 0x02, 0x80, 0x09}, /* 204 */
 	{0x00, 0x00, 0x00, 0x00, 0x00, 0xA3}, /* 205 */
 	{0x00, 0x00, 0x00, 0x04, 0x20, 0x03}, /* 206 */
-	{0x00, 0x00, 0x00, 0x08, 0x81, 0x01}, /* 207 */
+	{0x00, 0x00, 0x00, 0x08, 0x84, 0x01}, /* 207 */
 	{0x00, 0x00, 0x00, 0x02, 0x02, 0x41}, /* 208 */
 	{0x00, 0x00, 0x00, 0x00, 0x00, 0x39}, /* 209 */
 	{0x00, 0x00, 0x00, 0x00, 0x08, 0x45}, /* 210 */
@@ -323,9 +323,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu[s->len - 4] ^= poly[s->len][0];
-			s->lu[s->len - 3] ^= poly[s->len][1];
-			s->lu[s->len - 2] ^= poly[s->len][2];
+			s->lu[s->len - 6] ^= poly[s->len][0];
+			s->lu[s->len - 5] ^= poly[s->len][1];
+			s->lu[s->len - 4] ^= poly[s->len][2];
 			s->lu[s->len - 3] ^= poly[s->len][3];
 			s->lu[s->len - 2] ^= poly[s->len][4];
 		}
@@ -346,9 +346,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu2[s->len - 4] ^= poly[s->len][0];
-			s->lu2[s->len - 3] ^= poly[s->len][1];
-			s->lu2[s->len - 2] ^= poly[s->len][2];
+			s->lu2[s->len - 6] ^= poly[s->len][0];
+			s->lu2[s->len - 5] ^= poly[s->len][1];
+			s->lu2[s->len - 4] ^= poly[s->len][2];
 			s->lu2[s->len - 3] ^= poly[s->len][3];
 			s->lu2[s->len - 2] ^= poly[s->len][4];
 		}
-- 
2.43.0


From 1261fea235e1cc4e25375b9776851148d017c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:21 +0000
Subject: [PATCH 30/34] fix: Skein output length of 512 MiB or more in the
 configuration block

---
 lib/hash/skein1024.c | 2 +-
 lib/hash/skein256.c  | 2 +-
 lib/hash/skein512.c  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/hash/skein1024.c b/lib/hash/skein1024.c
index 40013b0..0546597 100644
--- a/lib/hash/skein1024.c
+++ b/lib/hash/skein1024.c
@@ -92,7 +92,7 @@ static kripto_hash *skein1024_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
diff --git a/lib/hash/skein256.c b/lib/hash/skein256.c
index 89fce90..84ec9c2 100644
--- a/lib/hash/skein256.c
+++ b/lib/hash/skein256.c
@@ -92,7 +92,7 @@ static kripto_hash *skein256_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
diff --git a/lib/hash/skein512.c b/lib/hash/skein512.c
index 8b66092..19d8f2e 100644
--- a/lib/hash/skein512.c
+++ b/lib/hash/skein512.c
@@ -92,7 +92,7 @@ static kripto_hash *skein512_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
-- 
2.43.0


From 67cb8673a0d6cf64d44d838580faa8bd30af386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:04 +0000
Subject: [PATCH 31/34] fix: RC5: mix 3*max(t, c) times, as RFC 2040 requires,
 for keys longer than the round key table

---
 lib/block/rc5.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/block/rc5.c b/lib/block/rc5.c
index cd1d4ca..030b2ea 100644
--- a/lib/block/rc5.c
+++ b/lib/block/rc5.c
@@ -47,6 +47,7 @@ static void rc5_setup
 	uint32_t b;
 	uint32_t x[64];
 	const unsigned int ls = (key_len + 3) >> 2;
+	const unsigned int t = (s->r + 1) << 1;
 
 	for(i = 0; i < ls; i++) x[i] = 0;
 	LOAD32L_ARRAY(key, x, key_len);
@@ -56,7 +57,7 @@ static void rc5_setup
 		s->k[i] = s->k[i - 1] + 0x9E3779B9;
 
 	a = b = i = j = k = 0;
-	while(k < (s->r + 1) * 6)
+	while(k < (ls > t ? ls : t) * 3)
 	{
 		a = s->k[i] = ROL32_03(s->k[i] + a + b);
 		b = x[j] = ROL32(x[j] + a + b, a + b);
-- 
2.43.0


From c6b9f3920853942435e4ace06d66fd88a1e115b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:04 +0000
Subject: [PATCH 32/34] fix: RC6: mix 3*max(c, 2r+4) times, as the
 specification requires, for keys longer than the round key table

---
 lib/block/rc6.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/block/rc6.c b/lib/block/rc6.c
index 8920a8e..a1471d4 100644
--- a/lib/block/rc6.c
+++ b/lib/block/rc6.c
@@ -46,6 +46,7 @@ static void rc6_setup
 	unsigned int j;
 	unsigned int k;
 	const unsigned int ls = (key_len + 3) >> 2;
+	const unsigned int t = RC6_K_LEN(s->rounds);
 	uint32_t a;
 	uint32_t b;
 	uint32_t x[64];
@@ -58,7 +59,7 @@ static void rc6_setup
 		s->k[i] = s->k[i-1] + 0x9E3779B9;
 
 	a = b = i = j = k = 0;
-	while(k < RC6_K_LEN(s->rounds) * 3)
+	while(k < (ls > t ? ls : t) * 3)
 	{
 		a = s->k[i] = ROL32_03(s->k[i] + a + b);
 		b = x[j] = ROL32(x[j] + a + b, a + b);
-- 
2.43.0


From 021e45641ea9887888aeed092d64000632f05d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:04 +0000
Subject: [PATCH 33/34] fix: CAST5: 12 rounds for keys of up to 80 bits, as RFC
 2144 requires

---
 lib/block/cast5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/block/cast5.c b/lib/block/cast5.c
index 3d79bb2..8355349 100644
--- a/lib/block/cast5.c
+++ b/lib/block/cast5.c
@@ -703,7 +703,7 @@ static kripto_block *cast5_recreate
 
 	if(!r)
 	{
-		if(key_len <= 5) s->r = 12;
+		if(key_len <= 10) s->r = 12;
 		else s->r = 16;
 	}
 	else s->r = r;
-- 
2.43.0


From f32f223c0fd04373347d00c06e2825e972fb7987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:47 +0000
Subject: [PATCH 34/34] fix: scrypt: refuse parameters whose memory size
 overflows

---
 lib/scrypt.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/scrypt.c b/lib/scrypt.c
index c920d67..531926a 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -17,6 +17,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <limits.h>
 
 #include <kripto/memory.h>
 #include <kripto/cast.h>
@@ -218,7 +219,12 @@ int kripto_scrypt
 	uint32_t *t2;
 	uint32_t i;
 
-	b = (uint8_t *)malloc((r << 7) * p + (r << 7) * n + (r << 8));
+	/* b has to fit in a salt and everything in memory */
+	if(!r || r > (UINT_MAX >> 7) || p > (UINT_MAX >> 7) / r) return -1;
+	if(n > (SIZE_MAX >> 7) / r || (SIZE_MAX >> 7) / r - n < (uint64_t)p + 2)
+		return -1;
+
+	b = (uint8_t *)malloc((r << 7) * p + (r << 7) * n + ((size_t)r << 8));
 	if(!b) return -1;
 
 	t0 = (uint32_t *)(void *)(b + (r << 7) * p);
@@ -254,13 +260,13 @@ int kripto_scrypt
 		out_len
 	)) goto err;
 
-	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + (r << 8));
+	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + ((size_t)r << 8));
 	free(b);
 
 	return 0;
 
 err:
-	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + (r << 8));
+	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + ((size_t)r << 8));
 	free(b);
 
 	return -1;
-- 
2.43.0

