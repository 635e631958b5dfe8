From 6fc65819dfdacc0def88af84da665a47ac914cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:18 +0000
Subject: [PATCH 01/23] fix: multi-byte encoders read past the end of the input

The symbol at the end of the input was loaded (and compared to the symbol
following it) without checking that both lie inside of the input. This could
fault at a page boundary and made the stream depend on (and contain) bytes
behind the input.
---
 src/rle128_extreme_cpu.h               | 10 +++++---
 src/rle24_extreme_cpu_encode.h         | 14 +++++++----
 src/rle48_extreme_cpu_encode.h         | 14 +++++++----
 src/rleX_Xsl_multibyte_encoder.h       | 27 +++++++-------------
 src/rleX_Xsl_short.h                   | 35 ++++++++------------------
 src/rleX_Xsl_short_multibyte_encoder.h | 23 ++++++-----------
 src/rleX_extreme_cpu_encode.h          |  9 ++++---
 7 files changed, 58 insertions(+), 74 deletions(-)

diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index 006952d..ecbfb2d 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -47,7 +47,10 @@ uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_
 	const size_t symbolSize = sizeof(symbol_t);
 
 	int64_t count = 0;
-	symbol_t symbol = _mm_xor_si128(_mm_setzero_si128(), _mm_loadu_si128((const symbol_t *)pIn));
+	symbol_t symbol = _mm_setzero_si128();
+
+	if (inSize >= symbolSize)
+		symbol = _mm_loadu_si128((const symbol_t *)pIn);
 
 #ifdef PACKED
 	symbol_t lastSymbol = _mm_setzero_si128();
@@ -265,9 +268,10 @@ uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_
 				}
 			}
 
-			symbol = _mm_loadu_si128((const symbol_t *)&pIn[i]);
+			if (i + symbolSize <= inSize)
+				symbol = _mm_loadu_si128((const symbol_t *)&pIn[i]);
 
-			if (i + symbolSize <= inSize && _mm_movemask_epi8(_mm_cmpeq_epi8(symbol, _mm_loadu_si128((const symbol_t *)((&pIn[i]) + symbolSize)))) == 0xFFFF)
+			if (i + symbolSize * 2 <= inSize && _mm_movemask_epi8(_mm_cmpeq_epi8(symbol, _mm_loadu_si128((const symbol_t *)((&pIn[i]) + symbolSize)))) == 0xFFFF)
 			{
 				count = symbolSize * 2;
 				i += symbolSize * 2;
diff --git a/src/rle24_extreme_cpu_encode.h b/src/rle24_extreme_cpu_encode.h
index 5fac1a6..05cefe7 100644
--- a/src/rle24_extreme_cpu_encode.h
+++ b/src/rle24_extreme_cpu_encode.h
@@ -34,7 +34,9 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
   const size_t symbolSize = 3;
 
   int64_t count = 0;
-  symbol_t symbol = (~(*((symbol_t *)(pIn)))) & symbolMask;
+  symbol_t symbol = 0;
+  memcpy(&symbol, pIn, min(inSize, symbolSize));
+  symbol = ~symbol & symbolMask;
 
 #if defined(COMPRESS_IMPL_SSE2)
   __m128i symbolSimd = CONCAT2(_mm_set1_epi, SIMD_TYPE_SIZE)(symbol);
@@ -131,7 +133,8 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
     {
       if (i + symbolSize <= inSize)
       {
-        const symbol_t next = ((*(symbol_t *)&pIn[i]) & symbolMask);
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], symbolSize);
 
         if (next == symbol)
         {
@@ -142,7 +145,7 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
 #ifdef UNBOUND
         else
         {
-          const symbol_t diff = symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -352,9 +355,10 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
       }
 #endif
 
-      symbol = (*(symbol_t *)(&pIn[i])) & symbolMask;
+      if (i + symbolSize <= inSize)
+        memcpy(&symbol, &pIn[i], symbolSize); // the bits outside of `symbolMask` are already 0.
 
-      if (i + symbolSize <= inSize && ((*(symbol_t *)((&pIn[i]) + symbolSize)) & symbolMask) == symbol)
+      if (i + symbolSize * 2 <= inSize && memcmp(&pIn[i], &pIn[i + symbolSize], symbolSize) == 0)
       {
         count = symbolSize * 2;
         i += symbolSize * 2;
diff --git a/src/rle48_extreme_cpu_encode.h b/src/rle48_extreme_cpu_encode.h
index 82321b6..7faa914 100644
--- a/src/rle48_extreme_cpu_encode.h
+++ b/src/rle48_extreme_cpu_encode.h
@@ -34,7 +34,9 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
   const size_t symbolSize = 6;
 
   int64_t count = 0;
-  symbol_t symbol = (~(*((symbol_t *)(pIn)))) & symbolMask;
+  symbol_t symbol = 0;
+  memcpy(&symbol, pIn, min(inSize, symbolSize));
+  symbol = ~symbol & symbolMask;
 
 #if defined(COMPRESS_IMPL_SSE2)
   __m128i symbolSimd = CONCAT2(_mm_set1_epi, SIMD_TYPE_SIZE)(symbol);
@@ -129,7 +131,8 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
     {
       if (i + symbolSize <= inSize)
       {
-        const symbol_t next = ((*(symbol_t *)&pIn[i]) & symbolMask);
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], symbolSize);
 
         if (next == symbol)
         {
@@ -140,7 +143,7 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
 #ifdef UNBOUND
         else
         {
-          const symbol_t diff = symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -351,9 +354,10 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
       }
 #endif
 
-      symbol = (*(symbol_t *)(&pIn[i])) & symbolMask;
+      if (i + symbolSize <= inSize)
+        memcpy(&symbol, &pIn[i], symbolSize); // the bits outside of `symbolMask` are already 0.
 
-      if (i + symbolSize <= inSize && ((*(symbol_t *)((&pIn[i]) + symbolSize)) & symbolMask) == symbol)
+      if (i + symbolSize * 2 <= inSize && memcmp(&pIn[i], &pIn[i + symbolSize], symbolSize) == 0)
       {
         count = symbolSize * 2;
         i += symbolSize * 2;
diff --git a/src/rleX_Xsl_multibyte_encoder.h b/src/rleX_Xsl_multibyte_encoder.h
index 2792827..6d3ac58 100644
--- a/src/rleX_Xsl_multibyte_encoder.h
+++ b/src/rleX_Xsl_multibyte_encoder.h
@@ -38,7 +38,8 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
   state.lastSymbols[6] = 0xFE * VALUE_BROADCAST;
 #endif
 
-  state.symbol = ~(*((symbol_t *)(pIn)));
+  memcpy(&state.symbol, pIn, min(inSize, (TYPE_SIZE / 8)));
+  state.symbol = (symbol_t)~state.symbol;
 
 #ifdef SYMBOL_MASK
   state.symbol &= SYMBOL_MASK;
@@ -177,11 +178,8 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
     {
       if (i + (TYPE_SIZE / 8) <= inSize)
       {
-#ifndef SYMBOL_MASK
-        const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-        const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], (TYPE_SIZE / 8));
 
         if (next == state.symbol)
         {
@@ -202,7 +200,7 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
             i++;
           }
 #elif TYPE_SIZE == 32 || TYPE_SIZE == 24
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -214,7 +212,7 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
           i += (offset / 8);
           state.count += (offset / 8);
 #elif TYPE_SIZE == 64 || TYPE_SIZE == 48
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -315,17 +313,10 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
       }
 #endif
 
-#ifndef SYMBOL_MASK
-      state.symbol = *(symbol_t *)(&pIn[i]);
-#else
-      state.symbol = *(symbol_t *)(&pIn[i]) & SYMBOL_MASK;
-#endif
+      if (i + (TYPE_SIZE / 8) <= inSize)
+        memcpy(&state.symbol, &pIn[i], (TYPE_SIZE / 8));
 
-#ifndef SYMBOL_MASK
-      if (i + (TYPE_SIZE / 8) <= inSize && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
-#else
-      if (i + (TYPE_SIZE / 8) <= inSize && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
-#endif
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && memcmp(&pIn[i], &pIn[i + (TYPE_SIZE / 8)], (TYPE_SIZE / 8)) == 0)
       {
         state.count = (TYPE_SIZE / 8) * 2;
         i += (TYPE_SIZE / 8) * 2;
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 1553dc0..8dd3540 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -772,7 +772,8 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
 #endif
 #endif
 
-  state.symbol = ~(*((symbol_t *)(pIn)));
+  memcpy(&state.symbol, pIn, min(inSize, (TYPE_SIZE / 8)));
+  state.symbol = (symbol_t)~state.symbol;
 
 #ifdef SYMBOL_MASK
   state.symbol &= SYMBOL_MASK;
@@ -786,11 +787,8 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
     {
       if (i + (TYPE_SIZE / 8) <= inSize)
       {
-#ifndef SYMBOL_MASK
-        const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-        const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], (TYPE_SIZE / 8));
 
         if (next == state.symbol)
         {
@@ -811,7 +809,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
             i++;
           }
 #elif TYPE_SIZE == 32 || TYPE_SIZE == 24
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -823,7 +821,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
           i += (offset / 8);
           state.count += (offset / 8);
 #elif TYPE_SIZE == 64 || TYPE_SIZE == 48
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -858,19 +856,12 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
     {
       CONCAT3(_rle, TYPE_SIZE, CONCAT3(_, CODEC, process_symbol))(pIn, pOut, i, &state);
 
-#ifndef SYMBOL_MASK
-      state.symbol = *(symbol_t *)(&pIn[i]);
-#else
-      state.symbol = *(symbol_t *)(&pIn[i]) & SYMBOL_MASK;
-#endif
-
       const bool symbolWouldFit = i + (TYPE_SIZE / 8) <= inSize;
 
-#ifndef SYMBOL_MASK
-      if (symbolWouldFit && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
-#else
-      if (symbolWouldFit && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
-#endif
+      if (symbolWouldFit)
+        memcpy(&state.symbol, &pIn[i], (TYPE_SIZE / 8));
+
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && memcmp(&pIn[i], &pIn[i + (TYPE_SIZE / 8)], (TYPE_SIZE / 8)) == 0)
       {
         state.count = (TYPE_SIZE / 8) * 2;
         i += (TYPE_SIZE / 8) * 2;
@@ -879,11 +870,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
       {
         if (symbolWouldFit)
         {
-#ifndef SYMBOL_MASK
-          const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-          const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+          const symbol_t next = state.symbol;
 
           size_t possibleCount = 0;
 
diff --git a/src/rleX_Xsl_short_multibyte_encoder.h b/src/rleX_Xsl_short_multibyte_encoder.h
index e971f8f..9bd0a9b 100644
--- a/src/rleX_Xsl_short_multibyte_encoder.h
+++ b/src/rleX_Xsl_short_multibyte_encoder.h
@@ -44,7 +44,8 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
 #endif
 #endif
 
-  state.symbol = ~(*((symbol_t *)(pIn)));
+  memcpy(&state.symbol, pIn, min(inSize, (TYPE_SIZE / 8)));
+  state.symbol = (symbol_t)~state.symbol;
 
 #ifdef SYMBOL_MASK
   state.symbol &= SYMBOL_MASK;
@@ -183,11 +184,8 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
     {
       if (i + (TYPE_SIZE / 8) <= inSize)
       {
-#ifndef SYMBOL_MASK
-        const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-        const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], (TYPE_SIZE / 8));
 
         if (next == state.symbol)
         {
@@ -321,17 +319,10 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
       }
 #endif
 
-#ifndef SYMBOL_MASK
-      state.symbol = *(symbol_t *)(&pIn[i]);
-#else
-      state.symbol = *(symbol_t *)(&pIn[i]) & SYMBOL_MASK;
-#endif
+      if (i + (TYPE_SIZE / 8) <= inSize)
+        memcpy(&state.symbol, &pIn[i], (TYPE_SIZE / 8));
 
-#ifndef SYMBOL_MASK
-      if (i + (TYPE_SIZE / 8) <= inSize && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
-#else
-      if (i + (TYPE_SIZE / 8) <= inSize && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
-#endif
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && memcmp(&pIn[i], &pIn[i + (TYPE_SIZE / 8)], (TYPE_SIZE / 8)) == 0)
       {
         state.count = (TYPE_SIZE / 8) * 2;
         i += (TYPE_SIZE / 8) * 2;
diff --git a/src/rleX_extreme_cpu_encode.h b/src/rleX_extreme_cpu_encode.h
index bab39a5..582842f 100644
--- a/src/rleX_extreme_cpu_encode.h
+++ b/src/rleX_extreme_cpu_encode.h
@@ -29,7 +29,9 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const u
   typedef CONCAT3(uint, TYPE_SIZE, _t) symbol_t;
 
   int64_t count = 0;
-  symbol_t symbol = ~(*((symbol_t *)(pIn)));
+  symbol_t symbol = 0;
+  memcpy(&symbol, pIn, min(inSize, sizeof(symbol_t)));
+  symbol = (symbol_t)~symbol;
 
 #if defined(COMPRESS_IMPL_SSE2)
   __m128i symbolSimd = CONCAT2(_mm_set1_epi, TYPE_SIZE)(symbol);
@@ -366,9 +368,10 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const u
       }
 #endif
 
-      symbol = *(symbol_t *)(&pIn[i]);
+      if (i + sizeof(symbol_t) <= inSize)
+        symbol = *(symbol_t *)(&pIn[i]);
 
-      if (i + sizeof(symbol_t) <= inSize && ((symbol_t *)(&pIn[i]))[1] == symbol)
+      if (i + sizeof(symbol_t) * 2 <= inSize && ((symbol_t *)(&pIn[i]))[1] == symbol)
       {
         count = sizeof(symbol_t) * 2;
         i += sizeof(symbol_t) * 2;
-- 
2.43.0


From a3c84b5fb7de8d04d22c86a432eece34a33a63df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:08 +0000
Subject: [PATCH 02/23] fix: low entropy decoders copy the stream verbatim if
 all 256 symbols are rle symbols

The 8 bit counter of rle symbols wrapped around to 0.
---
 src/rle8_low_entropy_cpu.c       | 2 +-
 src/rle8_low_entropy_short_cpu.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index d5ee063..49f4eaa 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -937,7 +937,7 @@ uint32_t rle8_low_entropy_decompress_with_info(IN const uint8_t *pIn, IN const u
 
   const uint8_t *pPreEnd = pEnd - 256;
 
-  uint8_t rleSymbolCount = 0;
+  uint32_t rleSymbolCount = 0;
 
   for (size_t i = 0; i < 256; i++)
     rleSymbolCount += rle[i];
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index d02033c..8ee44bf 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -447,7 +447,7 @@ uint32_t rle8_low_entropy_short_decompress_with_info(IN const uint8_t *pIn, IN c
 
   const uint8_t *pPreEnd = pEnd - 256;
 
-  uint8_t rleSymbolCount = 0;
+  uint32_t rleSymbolCount = 0;
 
   for (size_t i = 0; i < 256; i++)
     rleSymbolCount += rle[i];
-- 
2.43.0


From 196e49e38d03f3271ba18b56adfe5cf1d2d7af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:37 +0000
Subject: [PATCH 03/23] fix: low entropy encoders & rle8m write past their
 compress bounds

The last run was always accounted for as a single block, the last byte of the
input is never merged with the block before it & sub-sections may split runs.
rle8m_compress could also fail with a sufficiently large output buffer, as every
sub-section was required to leave at least its uncompressed size.
---
 src/rle8_low_entropy_cpu.c       | 18 ++++++++++++------
 src/rle8_low_entropy_short_cpu.c | 14 ++++++++++----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 49f4eaa..ff6c92d 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -5,7 +5,7 @@
 
 uint32_t rle8_low_entropy_compress_bounds(const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2 + 2; // + 2, as the last byte of the input is always encoded on its own.
 }
 
 uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
@@ -125,7 +125,7 @@ uint32_t rle8_low_entropy_decompress(IN const uint8_t *pIn, const uint32_t inSiz
 
 uint32_t rle8m_compress_bounds(const uint32_t subSections, const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + subSections - 1 + 1);
+  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + subSections - 1 + 1) + 4 * subSections; // + 4 per sub-section, as runs may be split & the last byte is always encoded on its own.
 }
 
 uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
@@ -238,7 +238,7 @@ uint32_t rle8m_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint
 
   // Decode last section.
   {
-    const uint8_t *pEnd = pIn + inSize;
+    const uint8_t *pEnd = pIn + expectedInSize;
 
     const uint32_t size = rle8_low_entropy_decompress_with_info(pCIn, pEnd, &decompressInfo, pOut, (uint32_t)remainingSize);
 
@@ -293,7 +293,7 @@ bool rle8_low_entropy_get_compress_info(IN const uint8_t *pIn, const uint32_t in
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / 255) + 1;
 
     for (size_t i = 0; i < 256; i++)
       if (pcount[i] > 0)
@@ -380,7 +380,7 @@ bool rle8_low_entropy_get_compress_info_only_max_frequency(IN const uint8_t * pI
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / 255) + 1;
 
     size_t maxBytesSaved = 0;
     size_t maxBytesSavedIndexIndex = 0;
@@ -473,7 +473,7 @@ uint32_t rle8_low_entropy_write_compress_info(IN rle8_low_entropy_compress_info_
 
 uint32_t rle8_low_entropy_compress_with_info(IN const uint8_t *pIn, const uint32_t inSize, IN const rle8_low_entropy_compress_info_t *pCompressInfo, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pCompressInfo == NULL || pOut == NULL || outSize < inSize)
+  if (pIn == NULL || inSize == 0 || pCompressInfo == NULL || pOut == NULL)
     return 0;
 
   size_t index = 0;
@@ -489,6 +489,9 @@ uint32_t rle8_low_entropy_compress_with_info(IN const uint8_t *pIn, const uint32
   {
     const uint8_t b = pIn[i];
 
+    if (index + 2 > outSize)
+      return 0;
+
     pOut[index] = b;
     index++;
 
@@ -516,6 +519,9 @@ uint32_t rle8_low_entropy_compress_with_info(IN const uint8_t *pIn, const uint32
   {
     const uint8_t b = pIn[i];
 
+    if (index + 2 > outSize)
+      return 0;
+
     pOut[index] = b;
     index++;
 
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index 8ee44bf..51413b9 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -15,7 +15,7 @@ bool rle8_low_entropy_short_get_compress_info_only_max_frequency(IN const uint8_
 
 uint32_t rle8_low_entropy_short_compress_bounds(const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+  return rle8_low_entropy_compress_bounds(inSize);
 }
 
 uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
@@ -127,7 +127,7 @@ uint32_t rle8_low_entropy_short_decompress(IN const uint8_t *pIn, const uint32_t
 
 uint32_t rle8_low_entropy_short_compress_with_info(IN const uint8_t *pIn, const uint32_t inSize, IN const rle8_low_entropy_compress_info_t *pCompressInfo, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pCompressInfo == NULL || pOut == NULL || outSize < inSize)
+  if (pIn == NULL || inSize == 0 || pCompressInfo == NULL || pOut == NULL)
     return 0;
 
   size_t index = 0;
@@ -143,6 +143,9 @@ uint32_t rle8_low_entropy_short_compress_with_info(IN const uint8_t *pIn, const
   {
     const uint8_t b = pIn[i];
 
+    if (index + 2 > outSize)
+      return 0;
+
     pOut[index] = b;
     index++;
 
@@ -170,6 +173,9 @@ uint32_t rle8_low_entropy_short_compress_with_info(IN const uint8_t *pIn, const
   {
     const uint8_t b = pIn[i];
 
+    if (index + 2 > outSize)
+      return 0;
+
     pOut[index] = b;
     index++;
 
@@ -575,7 +581,7 @@ bool rle8_low_entropy_short_get_compress_info(IN const uint8_t *pIn, const uint3
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / ULTRA_MAX_BLOCK_LENGTH) + 1;
 
     for (size_t i = 0; i < 256; i++)
       if (pcount[i] > 0)
@@ -662,7 +668,7 @@ bool rle8_low_entropy_short_get_compress_info_only_max_frequency(IN const uint8_
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / ULTRA_MAX_BLOCK_LENGTH) + 1;
 
     size_t maxBytesSaved = 0;
     size_t maxBytesSavedIndexIndex = 0;
-- 
2.43.0


From 3ec2387201b575adb9b7c2915d435a8067236729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:43 +0000
Subject: [PATCH 04/23] fix: rle8_sh_bounds & rle8_mmtf128_compress_bounds are
 too small

Both encoders wrote past the size reported by their bounds functions & rle8_sh_compress
checked the bounds of a different codec.
---
 src/rle8_mmtf.c | 2 +-
 src/rle_sh.c    | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index c5cb7ca..ae23992 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -28,7 +28,7 @@ uint32_t rle8_mmtf128_compress_bounds(const uint32_t inSize)
   if (inSize > (1 << 30))
     return 0;
 
-  return inSize + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint32_t) + 1;
+  return inSize + sizeof(uint32_t) * 2 + sizeof(uint32_t) + 1; // file header, first block header, terminator.
 }
 
 uint32_t rle8_mmtf256_compress_bounds(const uint32_t inSize)
diff --git a/src/rle_sh.c b/src/rle_sh.c
index f113437..bbb6051 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -92,7 +92,8 @@ inline void rle8_sh_consume_bits(rle8_sh_read_header *pHeader, const int8_t bits
 
 uint32_t rle8_sh_bounds(const uint32_t size)
 {
-  return size + sizeof(uint32_t) * 2 + 1 + sizeof(uint32_t);
+  // File Header, Terminator, up to 7 bytes of unamortized block headers and the worst case for block headers in long copies.
+  return size + sizeof(uint32_t) * 3 + 8 + size / 128;
 }
 
 inline void rle8_sh_encoded_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, const size_t copyCount, rle8_sh_header_state *pHeader, const uint8_t lastRleSymbol, uint8_t *pSecondMostImportant, uint8_t *pThirdMostImportant, uint8_t *pLastOccuredSymbol)
@@ -268,7 +269,7 @@ inline void rle8_sh_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, con
 
 uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_mmtf128_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_sh_bounds(inSize))
     return 0;
 
   uint32_t *pFileHeader = (uint32_t *)pOut;
-- 
2.43.0


From 03491766e8166893b44b32a2689484b32ddf1d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:01 +0000
Subject: [PATCH 05/23] fix: decoders read the stream header without checking
 if it is contained in the input

---
 src/rle128_extreme_cpu.h         | 2 +-
 src/rle24_extreme_cpu.h          | 2 +-
 src/rle48_extreme_cpu.h          | 2 +-
 src/rle8_extreme_cpu.h           | 2 +-
 src/rle8_low_entropy_cpu.c       | 4 ++--
 src/rle8_low_entropy_short_cpu.c | 2 +-
 src/rle8_mmtf.c                  | 2 +-
 src/rle8_ocl.c                   | 2 +-
 src/rleX_Xsl.h                   | 2 +-
 src/rleX_Xsl_short.h             | 2 +-
 src/rleX_extreme_cpu.h           | 2 +-
 src/rle_sh.c                     | 2 +-
 12 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index ecbfb2d..264cf14 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -781,7 +781,7 @@ static void CONCAT3(rle128_, CODEC, _decompress_avx512f)(IN const uint8_t *pInSt
 
 uint32_t CONCAT3(rle128_, CODEC, _decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-	if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+	if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
 		return 0;
 
 	const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle24_extreme_cpu.h b/src/rle24_extreme_cpu.h
index a453a1b..c29b9aa 100644
--- a/src/rle24_extreme_cpu.h
+++ b/src/rle24_extreme_cpu.h
@@ -83,7 +83,7 @@ uint32_t CONCAT3(rle24_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t
 
 uint32_t CONCAT3(rle24_, CODEC, _decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle48_extreme_cpu.h b/src/rle48_extreme_cpu.h
index 17d79a2..0f69302 100644
--- a/src/rle48_extreme_cpu.h
+++ b/src/rle48_extreme_cpu.h
@@ -83,7 +83,7 @@ uint32_t CONCAT3(rle48_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t
 
 uint32_t CONCAT3(rle48_, CODEC, _decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle8_extreme_cpu.h b/src/rle8_extreme_cpu.h
index 097b5f2..13802fa 100644
--- a/src/rle8_extreme_cpu.h
+++ b/src/rle8_extreme_cpu.h
@@ -701,7 +701,7 @@ uint32_t CONCAT3(rle8, CODEC, single_compress)(IN const uint8_t *pIn, const uint
 
 uint32_t CONCAT3(rle8, CODEC, decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((rle_extreme_t *)pIn)->compressedLength;
diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index ff6c92d..e2fe711 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -100,7 +100,7 @@ uint32_t rle8_low_entropy_decompressed_size(IN const uint8_t *pIn, const uint32_
 
 uint32_t rle8_low_entropy_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[0];
@@ -192,7 +192,7 @@ uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const
 
 uint32_t rle8m_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[0];
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index 51413b9..c1e86b8 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -102,7 +102,7 @@ uint32_t rle8_low_entropy_short_compress_only_max_frequency(IN const uint8_t *pI
 
 uint32_t rle8_low_entropy_short_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[0];
diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index ae23992..dbe34a4 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -648,7 +648,7 @@ uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT
 
 uint32_t rle8_mmtf128_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedOutSize = ((uint32_t *)pIn)[0];
diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index 0ae3045..61e725f 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -264,7 +264,7 @@ void rle8m_opencl_destroy()
 
 uint32_t rle8m_opencl_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[0];
diff --git a/src/rleX_Xsl.h b/src/rleX_Xsl.h
index 217936e..1650af9 100644
--- a/src/rleX_Xsl.h
+++ b/src/rleX_Xsl.h
@@ -1847,7 +1847,7 @@ static void CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, decompress_avx512f)(IN co
 
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 8dd3540..1c8aebb 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -2601,7 +2601,7 @@ uint32_t CONCAT3(rle8_, CODEC, decompress)(IN const uint8_t *pIn, const uint32_t
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, decompress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 #endif
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rleX_extreme_cpu.h b/src/rleX_extreme_cpu.h
index 49b5125..e809b57 100644
--- a/src/rleX_extreme_cpu.h
+++ b/src/rleX_extreme_cpu.h
@@ -81,7 +81,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, _compress))(IN const uint8_t
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, _decompress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle_sh.c b/src/rle_sh.c
index bbb6051..33341ce 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -509,7 +509,7 @@ uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint
 
 uint32_t rle8_sh_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const uint32_t expectedOutSize = ((uint32_t *)pIn)[0];
-- 
2.43.0


From a6dfc08d96142a59b9b4b7ba5c8564637ca8ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:01 +0000
Subject: [PATCH 06/23] fix: encoders accept inputs larger than the supported
 maximum

The bounds functions return 0 for unsupported sizes, which every output size satisfied.
---
 src/rle128_extreme_cpu.h               | 2 +-
 src/rle24_extreme_cpu.h                | 2 +-
 src/rle24_extreme_cpu_encode.h         | 2 +-
 src/rle48_extreme_cpu.h                | 2 +-
 src/rle48_extreme_cpu_encode.h         | 2 +-
 src/rle8_extreme_cpu.h                 | 4 ++--
 src/rle8_mmtf.c                        | 2 +-
 src/rleX_Xsl.h                         | 4 ++--
 src/rleX_Xsl_multibyte_encoder.h       | 2 +-
 src/rleX_Xsl_short.h                   | 6 +++---
 src/rleX_Xsl_short_multibyte_encoder.h | 2 +-
 src/rleX_extreme_cpu.h                 | 2 +-
 src/rleX_extreme_cpu_encode.h          | 2 +-
 13 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index 264cf14..8c0b95a 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -31,7 +31,7 @@
 
 uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-	if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+	if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
 		return 0;
 
 	size_t index = 0;
diff --git a/src/rle24_extreme_cpu.h b/src/rle24_extreme_cpu.h
index c29b9aa..f02d2f3 100644
--- a/src/rle24_extreme_cpu.h
+++ b/src/rle24_extreme_cpu.h
@@ -54,7 +54,7 @@
 
 uint32_t CONCAT3(rle24_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rle24_extreme_cpu_encode.h b/src/rle24_extreme_cpu_encode.h
index 05cefe7..c1b41fb 100644
--- a/src/rle24_extreme_cpu_encode.h
+++ b/src/rle24_extreme_cpu_encode.h
@@ -17,7 +17,7 @@
 #endif
 uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   size_t index = 0;
diff --git a/src/rle48_extreme_cpu.h b/src/rle48_extreme_cpu.h
index 0f69302..1e0bdf4 100644
--- a/src/rle48_extreme_cpu.h
+++ b/src/rle48_extreme_cpu.h
@@ -54,7 +54,7 @@
 
 uint32_t CONCAT3(rle48_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rle48_extreme_cpu_encode.h b/src/rle48_extreme_cpu_encode.h
index 7faa914..5c98d0e 100644
--- a/src/rle48_extreme_cpu_encode.h
+++ b/src/rle48_extreme_cpu_encode.h
@@ -17,7 +17,7 @@
 #endif
 uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   size_t index = 0;
diff --git a/src/rle8_extreme_cpu.h b/src/rle8_extreme_cpu.h
index 13802fa..9405983 100644
--- a/src/rle8_extreme_cpu.h
+++ b/src/rle8_extreme_cpu.h
@@ -85,7 +85,7 @@ static void CONCAT3(rle8, CODEC, decompress_single_avx512f)(IN const uint8_t *pI
 
 uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   rle_extreme_t header;
@@ -345,7 +345,7 @@ uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint3
 
 uint32_t CONCAT3(rle8, CODEC, single_compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   rle_extreme_t header;
diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index dbe34a4..b360c7e 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -152,7 +152,7 @@ inline static uint8_t *bitpack_encode3_simple_sse2_unaligned_m128i(const __m128i
 
 uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_mmtf128_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_mmtf128_compress_bounds(inSize) == 0 || outSize < rle8_mmtf128_compress_bounds(inSize))
     return 0;
 
   uint32_t *pHeader = (uint32_t *)pOut;
diff --git a/src/rleX_Xsl.h b/src/rleX_Xsl.h
index 1650af9..798127c 100644
--- a/src/rleX_Xsl.h
+++ b/src/rleX_Xsl.h
@@ -268,7 +268,7 @@ bool CONCAT3(CONCAT3(_rle, TYPE_SIZE, _), CODEC, process_symbol)(IN const uint8_
 #if TYPE_SIZE == 8
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
@@ -507,7 +507,7 @@ static int64_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress_avx2)(IN cons
 
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rleX_Xsl_multibyte_encoder.h b/src/rleX_Xsl_multibyte_encoder.h
index 6d3ac58..67fb1e7 100644
--- a/src/rleX_Xsl_multibyte_encoder.h
+++ b/src/rleX_Xsl_multibyte_encoder.h
@@ -17,7 +17,7 @@ __attribute__((target("avx2")))
 #endif
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 1c8aebb..e405cc9 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -380,7 +380,7 @@ uint8_t rle8_single_compress_get_approx_optimal_symbol_avx2(IN const uint8_t *pI
 
 uint32_t CONCAT3(rle8_, CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
@@ -684,7 +684,7 @@ static int64_t CONCAT3(rle8_, CODEC, compress_avx2)(IN const uint8_t *pIn, const
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
@@ -745,7 +745,7 @@ size_t CONCAT3(rleX_Xsl_short_get_match_length, CODEC, TYPE_SIZE)(const uintXX_t
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
diff --git a/src/rleX_Xsl_short_multibyte_encoder.h b/src/rleX_Xsl_short_multibyte_encoder.h
index 9bd0a9b..00dcbf9 100644
--- a/src/rleX_Xsl_short_multibyte_encoder.h
+++ b/src/rleX_Xsl_short_multibyte_encoder.h
@@ -17,7 +17,7 @@ __attribute__((target("avx2")))
 #endif
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
diff --git a/src/rleX_extreme_cpu.h b/src/rleX_extreme_cpu.h
index e809b57..f348181 100644
--- a/src/rleX_extreme_cpu.h
+++ b/src/rleX_extreme_cpu.h
@@ -46,7 +46,7 @@
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, _compress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rleX_extreme_cpu_encode.h b/src/rleX_extreme_cpu_encode.h
index 582842f..2d84cfa 100644
--- a/src/rleX_extreme_cpu_encode.h
+++ b/src/rleX_extreme_cpu_encode.h
@@ -13,7 +13,7 @@ __attribute__((target("avx2")))
 #endif
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   size_t index = 0;
-- 
2.43.0


From 861be4306ede88ffeffe0ecae919fb2a6335ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:00 +0000
Subject: [PATCH 07/23] fix: fuzzer only compares the most significant bit of
 each byte

movemask only considers the top bit, so most decoding errors went unnoticed.
---
 src/rle_fuzz.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle_fuzz.c b/src/rle_fuzz.c
index d786f95..3a80a01 100644
--- a/src/rle_fuzz.c
+++ b/src/rle_fuzz.c
@@ -481,7 +481,7 @@ bool MemoryEquals(const uint8_t *pBufferA, const uint8_t *pBufferB, const size_t
       for (; offset < endInSimd; offset += sizeof(__m256i))
         cmp[0] = _mm256_or_si256(cmp[0], _mm256_xor_si256(_mm256_load_si256((__m256i *)(pBufferA + offset)), _mm256_load_si256((__m256i *)(pBufferB + offset))));
 
-      if (_mm256_movemask_epi8(cmp[0]) != 0)
+      if (!_mm256_testz_si256(cmp[0], cmp[0]))
         return false;
     }
     else
@@ -507,7 +507,7 @@ bool MemoryEquals(const uint8_t *pBufferA, const uint8_t *pBufferB, const size_t
       for (; offset < endInSimd; offset += sizeof(__m256i))
         cmp[0] = _mm256_or_si256(cmp[0], _mm256_xor_si256(_mm256_loadu_si256((__m256i *)(pBufferA + offset)), _mm256_loadu_si256((__m256i *)(pBufferB + offset))));
 
-      if (_mm256_movemask_epi8(cmp[0]) != 0)
+      if (!_mm256_testz_si256(cmp[0], cmp[0]))
         return false;
     }
   }
-- 
2.43.0


From 19f6c43cbabe73ef58a5e183d53590cd67a19a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:00 +0000
Subject: [PATCH 08/23] fix: --test accepts codecs that don't reproduce the
 input

The decompression buffer wasn't cleared, so it could still contain the output of the
previous codec & the decompressed size was never compared to the size of the input.
---
 src/main.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 89de070..195a499 100644
--- a/src/main.c
+++ b/src/main.c
@@ -944,7 +944,7 @@ int main(int argc, char **pArgv)
         for (size_t i = compressedSize; i < compressedBufferSize; i++)
           pCompressedData[i] = ~pCompressedData[i];
 
-        memset(pDecompressedData, 0, decompressedSize);
+        memset(pDecompressedData, 0, fileSize);
       }
 
       if (noDelays)
@@ -1068,7 +1068,14 @@ int main(int argc, char **pArgv)
 
       puts("");
 
-      if (!Validate(pUncompressedData, pDecompressedData, fileSize))
+      if (decompressedSize != fileSize32)
+      {
+        puts("Validation Failed. (decompressed to incorrect size)");
+
+        if (isTestRun)
+          return -1;
+      }
+      else if (!Validate(pUncompressedData, pDecompressedData, fileSize))
       {
         if (isTestRun)
           return -1;
-- 
2.43.0


From d33adc6fd53cb6535b6555c61addec9f7d581243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:00 +0000
Subject: [PATCH 09/23] fix: report failure if the input file can't be read

---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 195a499..ebf93f4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -695,6 +695,7 @@ int main(int argc, char **pArgv)
   uint8_t *pUncompressedData = NULL;
   uint8_t *pDecompressedData = NULL;
   uint8_t *pCompressedData = NULL;
+  int32_t result = 1;
 
   FILE *pFile = NULL;
 
@@ -1085,6 +1086,7 @@ int main(int argc, char **pArgv)
 
   //////////////////////////////////////////////////////////////////////////
 
+  result = 0;
   goto epilogue;
 
 epilogue:
@@ -1095,7 +1097,7 @@ epilogue:
   ALIGNED_FREE(pDecompressedData);
   ALIGNED_FREE(pCompressedData);
 
-  return 0;
+  return result;
 }
 
 //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 58d0dd0d4d65f16e8dcfce1a29886b4d19986315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:30 +0000
Subject: [PATCH 10/23] fix: CPU feature detection ignores whether the OS saves
 the required register state

AVX was reported if only one of the XMM & YMM states was enabled, AVX2, FMA & AVX512 were
reported regardless.
---
 src/simd_platform.c | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/simd_platform.c b/src/simd_platform.c
index eef735e..06e4d94 100644
--- a/src/simd_platform.c
+++ b/src/simd_platform.c
@@ -60,6 +60,7 @@ void _DetectCPUFeatures()
   int32_t info[4];
   cpuid(info, 0);
   int32_t idCount = info[0];
+  bool osSupportsAVX512 = false;
 
   if (idCount >= 0x1)
   {
@@ -72,7 +73,8 @@ void _DetectCPUFeatures()
     if (osUsesXSAVE_XRSTORE && cpuAVXSuport)
     {
       uint64_t xcrFeatureMask = _xgetbv(_XCR_XFEATURE_ENABLED_MASK);
-      avxSupported = (xcrFeatureMask & 0x6) != 0;
+      avxSupported = (xcrFeatureMask & 0x6) == 0x6; // XMM & YMM state.
+      osSupportsAVX512 = (xcrFeatureMask & 0xE6) == 0xE6; // XMM, YMM, opmask & both parts of the ZMM state.
     }
 
     sseSupported = (cpuInfo[3] & (1 << 25)) != 0;
@@ -81,7 +83,7 @@ void _DetectCPUFeatures()
     ssse3Supported = (cpuInfo[2] & (1 << 9)) != 0;
     sse41Supported = (cpuInfo[2] & (1 << 19)) != 0;
     sse42Supported = (cpuInfo[2] & (1 << 20)) != 0;
-    fma3Supported = (cpuInfo[2] & (1 << 12)) != 0;
+    fma3Supported = avxSupported && (cpuInfo[2] & (1 << 12)) != 0;
     aesNiSupported = (cpuInfo[2] & (1 << 25)) != 0;
   }
 
@@ -90,22 +92,22 @@ void _DetectCPUFeatures()
     int32_t cpuInfo[4];
     cpuid(cpuInfo, 7);
 
-    avx2Supported = (cpuInfo[1] & (1 << 5)) != 0;
-    avx512FSupported = (cpuInfo[1] & 1 << 16) != 0;
-    avx512PFSupported = (cpuInfo[1] & 1 << 26) != 0;
-    avx512ERSupported = (cpuInfo[1] & 1 << 27) != 0;
-    avx512CDSupported = (cpuInfo[1] & 1 << 28) != 0;
-    avx512BWSupported = (cpuInfo[1] & 1 << 30) != 0;
-    avx512DQSupported = (cpuInfo[1] & 1 << 17) != 0;
-    avx512VLSupported = (cpuInfo[1] & 1 << 31) != 0;
-    avx512IFMASupported = (cpuInfo[1] & 1 << 21) != 0;
-    avx512VBMISupported = (cpuInfo[2] & 1 << 1) != 0;
-    avx512VNNISupported = (cpuInfo[2] & 1 << 11) != 0;
-    avx512VBMI2Supported = (cpuInfo[2] & 1 << 6) != 0;
-    avx512POPCNTDQSupported = (cpuInfo[2] & 1 << 14) != 0;
-    avx512BITALGSupported = (cpuInfo[2] & 1 << 12) != 0;
-    avx5124VNNIWSupported = (cpuInfo[3] & 1 << 2) != 0;
-    avx5124FMAPSSupported = (cpuInfo[3] & 1 << 3) != 0;
+    avx2Supported = avxSupported && (cpuInfo[1] & (1 << 5)) != 0;
+    avx512FSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 16) != 0;
+    avx512PFSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 26) != 0;
+    avx512ERSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 27) != 0;
+    avx512CDSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 28) != 0;
+    avx512BWSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 30) != 0;
+    avx512DQSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 17) != 0;
+    avx512VLSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 31) != 0;
+    avx512IFMASupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 21) != 0;
+    avx512VBMISupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 1) != 0;
+    avx512VNNISupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 11) != 0;
+    avx512VBMI2Supported = osSupportsAVX512 && (cpuInfo[2] & 1 << 6) != 0;
+    avx512POPCNTDQSupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 14) != 0;
+    avx512BITALGSupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 12) != 0;
+    avx5124VNNIWSupported = osSupportsAVX512 && (cpuInfo[3] & 1 << 2) != 0;
+    avx5124FMAPSSupported = osSupportsAVX512 && (cpuInfo[3] & 1 << 3) != 0;
   }
 
   _CpuFeaturesDetected = true;
-- 
2.43.0


From af801a43db6c9a57f34229a8f204b09394076d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:04 +0000
Subject: [PATCH 11/23] fix: rle8_mmtf128_compress depends on an uninitialized
 bit mask

`currentBitMask` is or'ed with the packed indices of the first copy section without ever
being initialized, so the chosen bit width (and with it the stream) depended on leftover
register contents.
---
 src/rle8_mmtf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index b360c7e..0c70a5b 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -179,7 +179,7 @@ uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT
     const __m128i hi5BitMask = _mm_set1_epi8((uint8_t)0b11111000);
     const __m128i hi6BitMask = _mm_set1_epi8((uint8_t)0b11111100);
 
-    __m128i currentBitMask = _mm_undefined_si128();
+    __m128i currentBitMask = _mm_setzero_si128();
     //__m128i lastOut = _mm_xor_si128(_mm_set1_epi8((int8_t)-1), _mm_loadu_si128((const __m128i *)pIn));
 
     uint8_t *pLastHeader = pOut;
-- 
2.43.0


From 956fa0e1ab2d355d226f991391b3f40a9275302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:24 +0000
Subject: [PATCH 12/23] fix: mmtf128 & mmtf256 don't reject missing buffers

Unlike every other codec (including the bitmmtf ones) they'd dereference NULL.
---
 src/mmtf.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mmtf.c b/src/mmtf.c
index a29bd7d..b86bdf8 100644
--- a/src/mmtf.c
+++ b/src/mmtf.c
@@ -34,7 +34,7 @@ uint32_t mmtf_bounds(const uint32_t inSize)
 
 uint32_t mmtf128_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
@@ -50,7 +50,7 @@ uint32_t mmtf128_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_
 
 uint32_t mmtf128_decode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
@@ -68,7 +68,7 @@ uint32_t mmtf128_decode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_
 
 uint32_t mmtf256_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
@@ -87,7 +87,7 @@ uint32_t mmtf256_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_
 
 uint32_t mmtf256_decode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
-- 
2.43.0


From af4e9df049725ccb7adc72fd86df87d9702da20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:22 +0000
Subject: [PATCH 13/23] fix: --low-entropy-short silently overrides --not-short

Depending on the order of the arguments the contradiction was either rejected or ignored.
---
 src/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.c b/src/main.c
index ebf93f4..f3a10fe 100644
--- a/src/main.c
+++ b/src/main.c
@@ -436,6 +436,12 @@ int main(int argc, char **pArgv)
       }
       else if (argsRemaining >= 1 && strncmp(pArgv[argIndex], ArgumentUltra, sizeof(ArgumentUltra)) == 0)
       {
+        if (_Args.hasShortMode)
+        {
+          puts("Short mode has already been specified.");
+          return 1;
+        }
+
         _Args.hasMode = true;
         _Args.isModeLowEntropy = true;
         _Args.hasShortMode = true;
-- 
2.43.0


From 7cd2ebe04c1406151197d0d3741056ffc21ae968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:28 +0000
Subject: [PATCH 14/23] fix: rle_compress_bounds is too small for many short
 runs with long gaps

---
 src/rle8_extreme_cpu.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rle8_extreme_cpu.c b/src/rle8_extreme_cpu.c
index 5c17905..83869e0 100644
--- a/src/rle8_extreme_cpu.c
+++ b/src/rle8_extreme_cpu.c
@@ -24,7 +24,9 @@ uint32_t rle_compress_bounds(const uint32_t inSize)
   if (inSize > (1 << 30))
     return 0;
 
-  return inSize + (16 + 4 + 1 + 4 + 1 + 64) * 2 + (3 * 4) + 1;
+  // Some codecs encode runs which take slightly less space than storing them together with a long offset does.
+  // The stream can therefore grow by up to one byte per 128 bytes of input.
+  return inSize + inSize / 64 + (16 + 4 + 1 + 4 + 1 + 64) * 2 + (3 * 4) + 1;
 }
 
 //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 2237de6f9086dd163f32ae8610bfa2702f71093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:22 +0000
Subject: [PATCH 15/23] fix: the file analysis reads past the end of the file
 data

AnalyzeData compared the symbol at every position up to the last byte, and thus up
to 15 bytes behind the data, so that the reported runs depended on what follows it.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index f3a10fe..91d5f5d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1307,7 +1307,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       if (i < j)
         continue;
 
-      const bool match = memcmp(pData + i, pData + i - j, j) == 0;
+      const bool match = i + j <= size && memcmp(pData + i, pData + i - j, j) == 0;
 
       rle_data_t *pRLE = &byRLE[j - 1];
 
-- 
2.43.0


From 1b1f3f45a07a91c2691fea189366b67469fa540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:22 +0000
Subject: [PATCH 16/23] fix: the file analysis reports lengths 32 bits too
 large

The lengths are 64 bit values, but their bit lengths were computed as
63 - __builtin_clz(), which counts the leading zeros of a 32 bit value.
---
 src/main.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/main.c b/src/main.c
index 91d5f5d..0c73bff 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1341,7 +1341,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
             unsigned long index;
             _BitScanReverse64(&index, pRLE->currentNonLength);
 #else
-            const uint32_t index = 63 - __builtin_clz(pRLE->currentNonLength);
+            const uint32_t index = 63 - __builtin_clzll(pRLE->currentNonLength);
 #endif
 
             pRLE->emptyLengthByBits[index]++;
@@ -1371,7 +1371,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
           unsigned long index;
           _BitScanReverse64(&index, pRLE->currentLength);
 #else
-          const uint32_t index = 63 - __builtin_clz(pRLE->currentLength);
+          const uint32_t index = 63 - __builtin_clzll(pRLE->currentLength);
 #endif
 
           pRLE->rleLengthByBits[index]++;
@@ -1386,7 +1386,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
           unsigned long lastNonLengthBits;
           _BitScanReverse64(&lastNonLengthBits, pRLE->lastNonLength);
 #else
-          const uint32_t lastNonLengthBits = 63 - __builtin_clz(pRLE->lastNonLength);
+          const uint32_t lastNonLengthBits = 63 - __builtin_clzll(pRLE->lastNonLength);
 #endif
 
           pRLE->copyBitsVsRleLengthBits[(max((int64_t)0, min((int64_t)lastNonLengthBits - 1, (int64_t)15))) * 16 + (max((int64_t)0, min((int64_t)index - 1, (int64_t)15)))]++;
@@ -1432,7 +1432,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
               unsigned long index;
               _BitScanReverse64(&index, pRLE->alignedCurrentNonLength);
 #else
-              const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentNonLength);
+              const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentNonLength);
 #endif
 
               pRLE->alignedEmptyLengthByBits[index]++;
@@ -1462,7 +1462,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
             unsigned long index;
             _BitScanReverse64(&index, pRLE->alignedCurrentLength);
 #else
-            const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentLength);
+            const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentLength);
 #endif
 
             pRLE->alignedRleLengthByBits[index]++;
@@ -1477,7 +1477,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
             unsigned long lastNonLengthBits;
             _BitScanReverse64(&lastNonLengthBits, pRLE->alignedLastNonLength);
 #else
-            const uint32_t lastNonLengthBits = 63 - __builtin_clz(pRLE->alignedLastNonLength);
+            const uint32_t lastNonLengthBits = 63 - __builtin_clzll(pRLE->alignedLastNonLength);
 #endif
 
             pRLE->alignedCopyBitsVsRleLengthBits[(max((int64_t)0, min((int64_t)lastNonLengthBits - 1, (int64_t)15))) * 16 + (max((int64_t)0, min((int64_t)index - 1, (int64_t)15)))]++;
@@ -1516,7 +1516,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->currentNonLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->currentNonLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->currentNonLength);
 #endif
 
       pRLE->emptyLengthByBits[index]++;
@@ -1532,7 +1532,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->currentLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->currentLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->currentLength);
 #endif
 
       pRLE->rleLengthByBits[index]++;
@@ -1550,7 +1550,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->alignedCurrentNonLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentNonLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentNonLength);
 #endif
 
       pRLE->alignedEmptyLengthByBits[index]++;
@@ -1566,7 +1566,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->alignedCurrentLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentLength);
 #endif
 
       pRLE->alignedRleLengthByBits[index]++;
-- 
2.43.0


From e8d51159986504735f33bc9ef0c4fadc671b8d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:22 +0000
Subject: [PATCH 17/23] fix: the file analysis takes the bit length of zero

lastNonLength is still 0 for a run at the start of the data, where the number of
leading zeros is undefined.
---
 src/main.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index 0c73bff..d2ebb25 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1383,10 +1383,11 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
           pRLE->totalRleCount++;
 
 #ifdef _MSC_VER
-          unsigned long lastNonLengthBits;
-          _BitScanReverse64(&lastNonLengthBits, pRLE->lastNonLength);
+          unsigned long lastNonLengthBits = 0;
+          if (pRLE->lastNonLength)
+            _BitScanReverse64(&lastNonLengthBits, pRLE->lastNonLength);
 #else
-          const uint32_t lastNonLengthBits = 63 - __builtin_clzll(pRLE->lastNonLength);
+          const uint32_t lastNonLengthBits = pRLE->lastNonLength ? 63 - __builtin_clzll(pRLE->lastNonLength) : 0;
 #endif
 
           pRLE->copyBitsVsRleLengthBits[(max((int64_t)0, min((int64_t)lastNonLengthBits - 1, (int64_t)15))) * 16 + (max((int64_t)0, min((int64_t)index - 1, (int64_t)15)))]++;
@@ -1474,10 +1475,11 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
             pRLE->alignedTotalRleCount++;
 
 #ifdef _MSC_VER
-            unsigned long lastNonLengthBits;
-            _BitScanReverse64(&lastNonLengthBits, pRLE->alignedLastNonLength);
+            unsigned long lastNonLengthBits = 0;
+            if (pRLE->alignedLastNonLength)
+              _BitScanReverse64(&lastNonLengthBits, pRLE->alignedLastNonLength);
 #else
-            const uint32_t lastNonLengthBits = 63 - __builtin_clzll(pRLE->alignedLastNonLength);
+            const uint32_t lastNonLengthBits = pRLE->alignedLastNonLength ? 63 - __builtin_clzll(pRLE->alignedLastNonLength) : 0;
 #endif
 
             pRLE->alignedCopyBitsVsRleLengthBits[(max((int64_t)0, min((int64_t)lastNonLengthBits - 1, (int64_t)15))) * 16 + (max((int64_t)0, min((int64_t)index - 1, (int64_t)15)))]++;
-- 
2.43.0


From c3b8b9ed8be958dc237b0ce821ebb0f44a309bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:11 +0000
Subject: [PATCH 18/23] fix: the standard deviation of the benchmark omits the
 first measured run

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index d2ebb25..c2848d9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -859,7 +859,7 @@ int main(int argc, char **pArgv)
         if (runTime < fastestCompresionTime)
           fastestCompresionTime = runTime;
 
-        if (showStdDev && compressionRuns > 0)
+        if (showStdDev && compressionRuns >= 0)
         {
           if (individualRunsCapacity <= individualRunsCount)
           {
@@ -994,7 +994,7 @@ int main(int argc, char **pArgv)
         if (runTime < fastestDecompresionTime)
           fastestDecompresionTime = runTime;
 
-        if (showStdDev && decompressionRuns > 0)
+        if (showStdDev && decompressionRuns >= 0)
         {
           if (individualRunsCapacity <= individualRunsCount)
           {
-- 
2.43.0


From 6fe5be628d53c42aa72c64633937d03f7a4d3056 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:59:50 +0000
Subject: [PATCH 19/23] fix: OpenCL decompression writes the sub-section
 offsets before they are allocated

---
 src/rle8_ocl.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index 61e725f..d27fe56 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -290,6 +290,14 @@ uint32_t rle8m_opencl_decompress(IN const uint8_t *pIn, const uint32_t inSize, O
 
   const uint32_t subSectionSize = (uint32_t)(expectedOutSize / subSections);
 
+  // `pSubSectionOffsets` is (re-)allocated by this.
+  bool success = rle8m_opencl_init(expectedInSize - index, expectedOutSize, subSections);
+
+  if (!success)
+    goto epilogue;
+
+  success = false;
+
   pSubSectionOffsets[0] = 0;
 
   for (size_t i = 1; i < subSections; i++)
@@ -321,13 +329,6 @@ uint32_t rle8m_opencl_decompress(IN const uint8_t *pIn, const uint32_t inSize, O
   clock_t time;
 #endif
   
-  bool success = rle8m_opencl_init(expectedInSize - index, expectedOutSize, subSections);
-
-  if (!success)
-    goto epilogue;
-
-  success = false;
-
 #ifdef ENABLE_LOGGING
   time = clock();
 #endif
-- 
2.43.0


From f1774653c374bb54fe701200cf836297f6852603 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:59:58 +0000
Subject: [PATCH 20/23] fix: OpenCL initialisation uses the platform list after
 failing to obtain it

---
 src/rle8_ocl.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index d27fe56..aea27ce 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -81,8 +81,10 @@ bool rle8m_opencl_init(const size_t inputDataSize, const size_t outputDataSize,
   if (pPlatforms == NULL)
     goto epilogue;
 
-  ret = clGetPlatformIDs(platformCount, pPlatforms, NULL);
-  ret |= clGetDeviceIDs(pPlatforms[0], CL_DEVICE_TYPE_GPU, 1, &deviceID, &platformCount);
+  if (CL_SUCCESS != (ret = clGetPlatformIDs(platformCount, pPlatforms, NULL)))
+    goto epilogue;
+
+  ret = clGetDeviceIDs(pPlatforms[0], CL_DEVICE_TYPE_GPU, 1, &deviceID, &platformCount);
 
   if (ret != CL_SUCCESS)
     goto epilogue;
-- 
2.43.0


From a07d984702a7b12730d15e8c8be610c9738034cb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:00:07 +0000
Subject: [PATCH 21/23] fix: a failing OpenCL initialisation releases the
 platform list twice

---
 src/rle8_ocl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index aea27ce..3a1e18b 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -180,6 +180,7 @@ epilogue:
     rle8m_opencl_destroy();
 
   free(pPlatforms);
+  pPlatforms = NULL;
 
   return success;
 }
-- 
2.43.0


From 4a6bba8a0c68762528e2ccdfb5c98cc738cdf668 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:05:25 +0000
Subject: [PATCH 22/23] fix: 3 bit packing repeats the input after a group of
 three vectors

---
 src/bitpack.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bitpack.h b/src/bitpack.h
index 7f7e5cd..97feb35 100644
--- a/src/bitpack.h
+++ b/src/bitpack.h
@@ -425,6 +425,8 @@ inline uint8_t * bitpack_encode3_sse2_unaligned_m128i(const __m128i *pIn, uint8_
     const __m128i p1 = _mm_loadu_si128(pIn + 1);
     const __m128i p2 = _mm_loadu_si128(pIn + 2);
 
+    pIn += 3;
+
     const __m128i p01p = _mm_or_si128(p0, _mm_slli_epi16(p1, 3));
     const __m128i p2p = _mm_slli_epi16(_mm_and_si128(p2, patternLow2), 6);
 
-- 
2.43.0


From 460fabaad74f795ad81e3c26b0984f86322a0a2f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:05:30 +0000
Subject: [PATCH 23/23] fix: the bounds of the low entropy, sub-section and SH
 codecs wrap around for large sizes

---
 src/rle8_low_entropy_cpu.c       | 14 +++++++++-----
 src/rle8_low_entropy_short_cpu.c |  4 ++--
 src/rle_sh.c                     |  6 ++++--
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index e2fe711..104192b 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -5,12 +5,14 @@
 
 uint32_t rle8_low_entropy_compress_bounds(const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2 + 2; // + 2, as the last byte of the input is always encoded on its own.
+  const uint64_t bounds = (uint64_t)inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2 + 2; // + 2, as the last byte of the input is always encoded on its own.
+
+  return bounds > UINT32_MAX ? 0 : (uint32_t)bounds;
 }
 
 uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
@@ -51,7 +53,7 @@ uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize,
 
 uint32_t rle8_low_entropy_compress_only_max_frequency(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
@@ -125,12 +127,14 @@ uint32_t rle8_low_entropy_decompress(IN const uint8_t *pIn, const uint32_t inSiz
 
 uint32_t rle8m_compress_bounds(const uint32_t subSections, const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + subSections - 1 + 1) + 4 * subSections; // + 4 per sub-section, as runs may be split & the last byte is always encoded on its own.
+  const uint64_t bounds = (uint64_t)inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * ((uint64_t)subSections + 2) + 4 * (uint64_t)subSections; // + 4 per sub-section, as runs may be split & the last byte is always encoded on its own.
+
+  return bounds > UINT32_MAX ? 0 : (uint32_t)bounds;
 }
 
 uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8m_compress_bounds(subSections, inSize) || subSections == 0)
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8m_compress_bounds(subSections, inSize) == 0 || outSize < rle8m_compress_bounds(subSections, inSize) || subSections == 0)
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index c1e86b8..f316e47 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -20,7 +20,7 @@ uint32_t rle8_low_entropy_short_compress_bounds(const uint32_t inSize)
 
 uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
@@ -61,7 +61,7 @@ uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t i
 
 uint32_t rle8_low_entropy_short_compress_only_max_frequency(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
diff --git a/src/rle_sh.c b/src/rle_sh.c
index 33341ce..f351854 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -93,7 +93,9 @@ inline void rle8_sh_consume_bits(rle8_sh_read_header *pHeader, const int8_t bits
 uint32_t rle8_sh_bounds(const uint32_t size)
 {
   // File Header, Terminator, up to 7 bytes of unamortized block headers and the worst case for block headers in long copies.
-  return size + sizeof(uint32_t) * 3 + 8 + size / 128;
+  const uint64_t bounds = (uint64_t)size + sizeof(uint32_t) * 3 + 8 + size / 128;
+
+  return bounds > UINT32_MAX ? 0 : (uint32_t)bounds;
 }
 
 inline void rle8_sh_encoded_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, const size_t copyCount, rle8_sh_header_state *pHeader, const uint8_t lastRleSymbol, uint8_t *pSecondMostImportant, uint8_t *pThirdMostImportant, uint8_t *pLastOccuredSymbol)
@@ -269,7 +271,7 @@ inline void rle8_sh_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, con
 
 uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_sh_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_sh_bounds(inSize) == 0 || outSize < rle8_sh_bounds(inSize))
     return 0;
 
   uint32_t *pFileHeader = (uint32_t *)pOut;
-- 
2.43.0

