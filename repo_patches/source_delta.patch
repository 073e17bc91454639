From 541492786703f51c0f1e9bb40acf53d1825bbd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 001/142] fix: start at the right column when changing the
 depth of a region of a colour image

---
 src/image_function.cpp      | 4 ++--
 src/image_function_simd.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index f0abeab..5ad1970 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -472,7 +472,7 @@ namespace Image_Function
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint16_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint16_t * outYEnd = outY + height * rowSizeOut;
@@ -528,7 +528,7 @@ namespace Image_Function
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint8_t * outYEnd = outY + height * rowSizeOut;
diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index d4a8764..19a0b1e 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2729,7 +2729,7 @@ namespace simd
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint16_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint16_t * outYEnd = outY + height * rowSizeOut;
@@ -2768,7 +2768,7 @@ namespace simd
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint8_t * outYEnd = outY + height * rowSizeOut;
-- 
2.43.0


From 1b87cb3b3b975e934f5370dbb28afb3171a03277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 002/142] fix: keep the order of values in vectorised
 conversions between 8 and 16 bit

---
 src/image_function_simd.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 19a0b1e..e0fd568 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -237,16 +237,18 @@ namespace avx512
                          uint32_t totalSimdWidth, uint32_t nonSimdWidth )
     {
         const simd zero = _mm512_setzero_si512();
+        const simd laneOrder = _mm512_setr_epi64( 0, 4, 1, 5, 2, 6, 3, 7 );
         for ( ; outY != outYEnd; outY += rowSizeOut, inY += rowSizeIn ) {
             const simd * src = reinterpret_cast<const simd *>( inY );
             simd * dst = reinterpret_cast<simd *>( outY );
             const simd * srcEnd = src + simdWidth;
 
             for ( ; src != srcEnd; ++src ) {
-                const simd srcData = _mm512_loadu_si512( src );
+                // unpacking works within 128-bit lanes so the data must be reordered
+                const simd srcData = _mm512_permutexvar_epi64( laneOrder, _mm512_loadu_si512( src ) );
 
                 _mm512_storeu_si512( dst++, _mm512_unpacklo_epi8( zero, srcData ) );
-                _mm512_storeu_si512( dst++, _mm512_unpacklo_epi8( zero, srcData ) );
+                _mm512_storeu_si512( dst++, _mm512_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -263,6 +265,7 @@ namespace avx512
     void ConvertTo8Bit( uint8_t * outY, const uint8_t * outYEnd, const uint16_t * inY, uint32_t rowSizeOut, uint32_t rowSizeIn, uint32_t simdWidth,
                         uint32_t totalSimdWidth, uint32_t nonSimdWidth )
     {
+        const simd laneOrder = _mm512_setr_epi64( 0, 2, 4, 6, 1, 3, 5, 7 );
         for ( ; outY != outYEnd; outY += rowSizeOut, inY += rowSizeIn ) {
             const simd * src = reinterpret_cast<const simd *>( inY );
             simd * dst = reinterpret_cast<simd *>( outY );
@@ -274,7 +277,8 @@ namespace avx512
                 const simd srcData2 = _mm512_loadu_si512( src );
                 ++src;
 
-                _mm512_storeu_si512( dst, _mm512_packus_epi16( _mm512_srli_epi16( srcData1, 8 ), _mm512_srli_epi16( srcData2, 8 ) ) );
+                // packing works within 128-bit lanes so the result must be reordered
+                _mm512_storeu_si512( dst, _mm512_permutexvar_epi64( laneOrder, _mm512_packus_epi16( _mm512_srli_epi16( srcData1, 8 ), _mm512_srli_epi16( srcData2, 8 ) ) ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -703,10 +707,11 @@ namespace avx
             const simd * srcEnd = src + simdWidth;
 
             for ( ; src != srcEnd; ++src ) {
-                const simd srcData = _mm256_loadu_si256( src );
+                // unpacking works within 128-bit lanes so the data must be reordered
+                const simd srcData = _mm256_permute4x64_epi64( _mm256_loadu_si256( src ), 0xD8 );
 
                 _mm256_storeu_si256( dst++, _mm256_unpacklo_epi8( zero, srcData ) );
-                _mm256_storeu_si256( dst++, _mm256_unpacklo_epi8( zero, srcData ) );
+                _mm256_storeu_si256( dst++, _mm256_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -734,7 +739,8 @@ namespace avx
                 const simd srcData2 = _mm256_loadu_si256( src );
                 ++src;
 
-                _mm256_storeu_si256( dst, _mm256_packus_epi16( _mm256_srli_epi16( srcData1, 8 ), _mm256_srli_epi16( srcData2, 8 ) ) );
+                // packing works within 128-bit lanes so the result must be reordered
+                _mm256_storeu_si256( dst, _mm256_permute4x64_epi64( _mm256_packus_epi16( _mm256_srli_epi16( srcData1, 8 ), _mm256_srli_epi16( srcData2, 8 ) ), 0xD8 ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -1323,7 +1329,7 @@ namespace sse
                 const simd srcData = _mm_loadu_si128( src );
 
                 _mm_storeu_si128( dst++, _mm_unpacklo_epi8( zero, srcData ) );
-                _mm_storeu_si128( dst++, _mm_unpacklo_epi8( zero, srcData ) );
+                _mm_storeu_si128( dst++, _mm_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
-- 
2.43.0


From 45db176ad05843212b92bd8b36a39b7332b782b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 003/142] fix: keep the order of values in vectorised
 Accumulate and ProjectionProfile

---
 src/image_function_simd.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index e0fd568..1bb62f9 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -115,6 +115,8 @@ namespace avx512
                      uint32_t nonSimdWidth )
     {
         simd zero = _mm512_setzero_si512();
+        // unpacking works within 128-bit lanes so the data must be reordered
+        const simd laneOrder = _mm512_setr_epi32( 0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15 );
 
         const uint32_t width = totalSimdWidth + nonSimdWidth;
 
@@ -124,7 +126,7 @@ namespace avx512
             simd * dst = reinterpret_cast<simd *>( outY );
 
             for ( ; src != srcEnd; ++src ) {
-                simd data = _mm512_loadu_si512( src );
+                simd data = _mm512_permutexvar_epi32( laneOrder, _mm512_loadu_si512( src ) );
 
                 const simd dataLo = _mm512_unpacklo_epi8( data, zero );
                 const simd dataHi = _mm512_unpackhi_epi8( data, zero );
@@ -383,6 +385,8 @@ namespace avx512
                             uint32_t nonSimdWidth )
     {
         const simd zero = _mm512_setzero_si512();
+        // unpacking works within 128-bit lanes so the data must be reordered
+        const simd laneOrder = _mm512_setr_epi32( 0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15 );
 
         if ( horizontal ) {
             const uint8_t * imageSimdXEnd = imageStart + totalSimdWidth;
@@ -400,7 +404,7 @@ namespace avx512
                 for ( ; imageSimdY != imageSimdYEnd; imageSimdY += rowSize ) {
                     const simd * src = reinterpret_cast<const simd *>( imageSimdY );
 
-                    const simd data = _mm512_loadu_si512( src );
+                    const simd data = _mm512_permutexvar_epi32( laneOrder, _mm512_loadu_si512( src ) );
 
                     const simd dataLo = _mm512_unpacklo_epi8( data, zero );
                     const simd dataHi = _mm512_unpackhi_epi8( data, zero );
@@ -579,6 +583,8 @@ namespace avx
                      uint32_t nonSimdWidth )
     {
         simd zero = _mm256_setzero_si256();
+        // unpacking works within 128-bit lanes so the data must be reordered
+        const simd laneOrder = _mm256_setr_epi32( 0, 2, 4, 6, 1, 3, 5, 7 );
 
         const uint32_t width = totalSimdWidth + nonSimdWidth;
 
@@ -588,7 +594,7 @@ namespace avx
             simd * dst = reinterpret_cast<simd *>( outY );
 
             for ( ; src != srcEnd; ++src ) {
-                simd data = _mm256_loadu_si256( src );
+                simd data = _mm256_permutevar8x32_epi32( _mm256_loadu_si256( src ), laneOrder );
 
                 const simd dataLo = _mm256_unpacklo_epi8( data, zero );
                 const simd dataHi = _mm256_unpackhi_epi8( data, zero );
@@ -847,6 +853,8 @@ namespace avx
                             uint32_t nonSimdWidth )
     {
         const simd zero = _mm256_setzero_si256();
+        // unpacking works within 128-bit lanes so the data must be reordered
+        const simd laneOrder = _mm256_setr_epi32( 0, 2, 4, 6, 1, 3, 5, 7 );
 
         if ( horizontal ) {
             const uint8_t * imageSimdXEnd = imageStart + totalSimdWidth;
@@ -864,7 +872,7 @@ namespace avx
                 for ( ; imageSimdY != imageSimdYEnd; imageSimdY += rowSize ) {
                     const simd * src = reinterpret_cast<const simd *>( imageSimdY );
 
-                    const simd data = _mm256_loadu_si256( src );
+                    const simd data = _mm256_permutevar8x32_epi32( _mm256_loadu_si256( src ), laneOrder );
 
                     const simd dataLo = _mm256_unpacklo_epi8( data, zero );
                     const simd dataHi = _mm256_unpackhi_epi8( data, zero );
-- 
2.43.0


From 2f5fce58347f0e6fbd44d79bb0a71c833b102a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 004/142] fix: accept colour images in vectorised Accumulate
 like in the plain one

---
 src/image_function_simd.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 1bb62f9..4e7d3bc 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2576,7 +2576,6 @@ namespace simd
         }
 
         Image_Function::ValidateImageParameters( image, x, y, width, height );
-        Image_Function::VerifyGrayScaleImage( image );
         width = width * colorCount;
 
         if ( result.size() != width * height )
-- 
2.43.0


From 91edea34a65c7a81619406978f3d3bc524a7023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 005/142] fix: step over whole pixels when converting RGBA
 images to gray-scale

---
 src/image_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 5ad1970..a1e6ee3 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -574,7 +574,7 @@ namespace Image_Function
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint8_t colorCount = RGB;
+        const uint8_t colorCount = in.colorCount();
 
         const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut;
-- 
2.43.0


From 30c06a9805f690fa90d8cea4cee275ca10b02473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 006/142] fix: convert RGBA images to RGB pixel by pixel
 instead of treating their values as gray-scale

---
 src/image_function.cpp      | 5 +++++
 src/image_function_simd.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index a1e6ee3..911d8e1 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -617,6 +617,11 @@ namespace Image_Function
             return;
         }
 
+        if ( in.colorCount() == RGBA ) {
+            RgbaToRgb( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+            return;
+        }
+
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 4e7d3bc..d304776 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2824,6 +2824,11 @@ namespace simd
             return;
         }
 
+        if ( in.colorCount() == RGBA ) {
+            Image_Function::RgbaToRgb( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+            return;
+        }
+
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-- 
2.43.0


From ca2a309dd16d87660c349d0822b91785e8079e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 007/142] fix: consider row size of the second image in
 Subtract

---
 src/image_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 911d8e1..400980e 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1920,7 +1920,7 @@ namespace Image_Function
         const uint8_t colorCount = CheckCommonColorCount( in1, in2, out );
         width = width * colorCount;
 
-        OptimiseRoi( width, height, in1, in1, out );
+        OptimiseRoi( width, height, in1, in2, out );
 
         const uint32_t rowSize1 = in1.rowSize();
         const uint32_t rowSize2 = in2.rowSize();
-- 
2.43.0


From 9aa9faa4a413330921765e4088121b28e54ba541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 008/142] fix: count every pixel of colour images in Histogram
 and refuse colour masks

---
 src/image_function.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 400980e..7a3172a 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -872,9 +872,11 @@ namespace Image_Function
     void Histogram( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, std::vector<uint32_t> & histogram )
     {
         ValidateImageParameters( image, x, y, width, height );
-        OptimiseRoi( width, height, image );
 
         const uint32_t colorCount = image.colorCount();
+        width = width * colorCount;
+
+        OptimiseRoi( width, height, image );
 
         histogram.resize( 256u * colorCount );
         std::fill( histogram.begin(), histogram.end(), 0u );
@@ -925,9 +927,13 @@ namespace Image_Function
                     std::vector<uint32_t> & histogram )
     {
         ValidateImageParameters( image, x, y, mask, maskX, maskY, width, height );
-        OptimiseRoi( width, height, image, mask );
+        VerifyGrayScaleImage( mask );
 
         const uint32_t colorCount = image.colorCount();
+        if ( colorCount == GRAY_SCALE )
+            OptimiseRoi( width, height, image, mask );
+        else
+            width = width * colorCount;
 
         histogram.resize( 256u * colorCount );
         std::fill( histogram.begin(), histogram.end(), 0u );
-- 
2.43.0


From 47e4bbc8acfed33b38d4b173b73a695481399fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 009/142] fix: keep the number of colours of the input in
 images returned by Resize, GammaCorrection, LookupTable and Normalize

---
 src/image_function.cpp        |  2 +-
 src/image_function_helper.cpp | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 7a3172a..b8edc93 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1456,7 +1456,7 @@ namespace Image_Function
         ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
         ValidateImageParameters( out, startXOut, startYOut, widthOut, heightOut );
 
-        const uint8_t colorCount = in.colorCount();
+        const uint8_t colorCount = CheckCommonColorCount( in, out );
 
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index 62ef931..fa6aa82 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -352,7 +352,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         gammaCorrection( in, 0, 0, out, 0, 0, out.width(), out.height(), a, gamma );
 
@@ -371,7 +371,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         gammaCorrection( in, startXIn, startYIn, out, 0, 0, width, height, a, gamma );
 
@@ -536,7 +536,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         lookupTable( in, 0, 0, out, 0, 0, out.width(), out.height(), table );
 
@@ -555,7 +555,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         lookupTable( in, startXIn, startYIn, out, 0, 0, width, height, table );
 
@@ -657,7 +657,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         normalize( in, 0, 0, out, 0, 0, out.width(), out.height() );
 
@@ -675,7 +675,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         normalize( in, startXIn, startYIn, out, 0, 0, width, height );
 
@@ -710,7 +710,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( widthOut, heightOut );
+        Image out = in.generate( widthOut, heightOut, in.colorCount() );
 
         resize( in, 0, 0, in.width(), in.height(), out, 0, 0, widthOut, heightOut );
 
@@ -730,7 +730,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
 
-        Image out = in.generate( widthOut, heightOut );
+        Image out = in.generate( widthOut, heightOut, in.colorCount() );
 
         resize( in, startXIn, startYIn, widthIn, heightIn, out, 0, 0, widthOut, heightOut );
 
-- 
2.43.0


From 974cb6037a63b783c1bc3eea87812d01fbce0429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 010/142] fix: avoid integer overflow in position calculation
 of Resize

---
 src/image_function.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index b8edc93..28157b6 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1470,7 +1470,7 @@ namespace Image_Function
         // Precalculation of X position
         std::vector<uint32_t> positionX( widthOut );
         for ( uint32_t x = 0; x < widthOut; ++x )
-            positionX[x] = ( x * widthIn / widthOut ) * colorCount;
+            positionX[x] = static_cast<uint32_t>( static_cast<uint64_t>( x ) * widthIn / widthOut ) * colorCount;
 
         widthOut *= colorCount;
 
@@ -1479,7 +1479,7 @@ namespace Image_Function
                 uint8_t * outX = outY;
                 const uint8_t * outXEnd = outX + widthOut;
 
-                const uint8_t * inX = inY + ( idY * heightIn / heightOut ) * rowSizeIn;
+                const uint8_t * inX = inY + ( static_cast<uint64_t>( idY ) * heightIn / heightOut ) * rowSizeIn;
                 const uint32_t * idX = positionX.data();
 
                 for ( ; outX != outXEnd; ++outX, ++idX )
@@ -1493,7 +1493,7 @@ namespace Image_Function
                 uint8_t * outX = outY;
                 const uint8_t * outXEnd = outX + widthOut;
 
-                const uint8_t * inX = inY + ( idY * heightIn / heightOut ) * rowSizeIn;
+                const uint8_t * inX = inY + ( static_cast<uint64_t>( idY ) * heightIn / heightOut ) * rowSizeIn;
                 const uint32_t * idX = positionX.data();
 
                 for ( ; outX != outXEnd; outX += colorCount, ++idX )
-- 
2.43.0


From a42d76070b20e9240d5e9e3e5ae614034691c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 011/142] fix: avoid integer overflow in GetThreshold

---
 src/image_function_helper.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index fa6aa82..a7b73df 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -402,15 +402,15 @@ namespace Image_Function_Helper
             throw penguinVException( "Histogram size is not 256" );
 
         // It is well-known Otsu's method to find threshold
-        uint32_t pixelCount = histogram[0] + histogram[1];
-        uint32_t sum = histogram[1];
+        uint64_t pixelCount = static_cast<uint64_t>( histogram[0] ) + histogram[1];
+        uint64_t sum = histogram[1];
         for ( uint16_t i = 2; i < 256; ++i ) {
-            sum = sum + i * histogram[i];
+            sum = sum + static_cast<uint64_t>( i ) * histogram[i];
             pixelCount += histogram[i];
         }
 
-        uint32_t sumTemp = 0;
-        uint32_t pixelCountTemp = 0;
+        uint64_t sumTemp = 0;
+        uint64_t pixelCountTemp = 0;
 
         double maximumSigma = -1;
 
@@ -423,10 +423,11 @@ namespace Image_Function_Helper
                 break;
 
             if ( pixelCountTemp > 0 ) {
-                sumTemp += i * histogram[i];
+                sumTemp += static_cast<uint64_t>( i ) * histogram[i];
 
-                const double w1 = static_cast<double>( pixelCountTemp ) / pixelCount;
-                const double a = static_cast<double>( sumTemp ) / pixelCountTemp - static_cast<double>( sum - sumTemp ) / ( pixelCount - pixelCountTemp );
+                const double w1 = static_cast<double>( pixelCountTemp ) / static_cast<double>( pixelCount );
+                const double a = static_cast<double>( sumTemp ) / static_cast<double>( pixelCountTemp )
+                                 - static_cast<double>( sum - sumTemp ) / static_cast<double>( pixelCount - pixelCountTemp );
                 const double sigma = w1 * ( 1 - w1 ) * a * a;
 
                 if ( sigma > maximumSigma ) {
-- 
2.43.0


From 3944a5e508768c964b376b8ae8effa419f9a18de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 012/142] fix: keep the data of an image assigned to itself

---
 src/image_buffer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index 6ed23b0..b37f27c 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -215,6 +215,10 @@ namespace penguinV
                 throw penguinVException( "Cannot copy image of one type to another type." );
             }
 
+            if ( this == &image ) {
+                return;
+            }
+
             clear();
 
             _width = image._width;
-- 
2.43.0


From 5e7c8707d651e0427e91f1366fc03629d6bfc98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 013/142] fix: do not describe more memory by an image than it
 has when row size overflows or an allocation fails

---
 src/image_buffer.h | 50 +++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index b37f27c..cdc04d4 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -83,17 +83,15 @@ namespace penguinV
         void resize( uint32_t width_, uint32_t height_ )
         {
             if ( width_ > 0 && height_ > 0 && ( width_ != _width || height_ != _height ) ) {
+                const uint32_t rowSize_ = _getRowSize( width_, colorCount(), alignment() );
+
                 clear();
 
+                _data = _allocate( static_cast<size_t>( height_ ) * static_cast<size_t>( rowSize_ ) );
+
                 _width = width_;
                 _height = height_;
-
-                _rowSize = width() * colorCount();
-                if ( _rowSize % alignment() != 0 ) {
-                    _rowSize = ( _rowSize / alignment() + 1 ) * alignment();
-                }
-
-                _data = _allocate( static_cast<size_t>( _height ) * static_cast<size_t>( _rowSize ) );
+                _rowSize = rowSize_;
             }
         }
 
@@ -125,6 +123,8 @@ namespace penguinV
                 throw penguinVException( "Invalid image assignment parameters" );
             }
 
+            const uint32_t rowSize_ = _getRowSize( width_, colorCount_, alignment_ );
+
             clear();
 
             _width = width_;
@@ -132,13 +132,9 @@ namespace penguinV
 
             _colorChannelCount = colorCount_;
             _alignment = alignment_;
+            _rowSize = rowSize_;
 
             _data = data_;
-
-            _rowSize = width() * colorCount();
-            if ( _rowSize % alignment() != 0 ) {
-                _rowSize = ( _rowSize / alignment() + 1 ) * alignment();
-            }
         }
 
         bool empty() const
@@ -221,29 +217,26 @@ namespace penguinV
 
             clear();
 
+            if ( image._data != nullptr ) {
+                _data = _allocate( static_cast<size_t>( image._height ) * static_cast<size_t>( image._rowSize ) );
+
+                _copy( _data, image._data, sizeof( TColorDepth ) * image._height * image._rowSize );
+            }
+
             _width = image._width;
             _height = image._height;
 
             _colorChannelCount = image._colorChannelCount;
             _rowSize = image._rowSize;
             _alignment = image._alignment;
-
-            if ( image._data != nullptr ) {
-                _data = _allocate( static_cast<size_t>( _height ) * static_cast<size_t>( _rowSize ) );
-
-                _copy( _data, image._data, sizeof( TColorDepth ) * _height * _rowSize );
-            }
         }
 
         bool mutate( uint32_t width_, uint32_t height_, uint8_t colorCount_, uint8_t alignment_ )
         {
             if ( colorCount_ > 0 && alignment_ > 0 ) {
-                uint32_t rowSize_ = width_ * colorCount_;
-                if ( rowSize_ % alignment_ != 0 ) {
-                    rowSize_ = ( rowSize_ / alignment_ + 1 ) * alignment_;
-                }
+                const uint32_t rowSize_ = _getRowSize( width_, colorCount_, alignment_ );
 
-                if ( rowSize_ * height_ != _rowSize * _height ) {
+                if ( static_cast<uint64_t>( rowSize_ ) * height_ != static_cast<uint64_t>( _rowSize ) * _height ) {
                     return false;
                 }
 
@@ -290,6 +283,17 @@ namespace penguinV
         }
 
     private:
+        // Returns the number of values in a row including padding values.
+        static uint32_t _getRowSize( uint32_t width_, uint8_t colorCount_, uint8_t alignment_ )
+        {
+            const uint64_t size = ( static_cast<uint64_t>( width_ ) * colorCount_ + alignment_ - 1u ) / alignment_ * alignment_;
+            if ( size > UINT32_MAX ) {
+                throw penguinVException( "Image row size is too big" );
+            }
+
+            return static_cast<uint32_t>( size );
+        }
+
         TColorDepth * _allocate( size_t size ) const
         {
             return FunctionFacade::instance().allocate( _deviceType )( size );
-- 
2.43.0


From cb4fb32c49e72e8cf46d4a9a5254d1df10341afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 014/142] fix: avoid data race between constructors of first
 images

---
 src/image_buffer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index cdc04d4..608f20e 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -27,6 +27,7 @@
 #include <cstdint>
 #include <cstring>
 #include <functional>
+#include <mutex>
 #include <vector>
 
 namespace penguinV
@@ -368,6 +369,8 @@ namespace penguinV
 
             void initialize( uint8_t type, AllocateFunction allocateFunction, DeallocateFunction deallocateFunction, CopyFunction copyFunction, SetFunction setFunction )
             {
+                std::lock_guard<std::mutex> lock( _initialization );
+
                 if ( _allocate[type] == nullptr ) {
                     _allocate[type] = allocateFunction;
                     _deallocate[type] = deallocateFunction;
@@ -416,6 +419,7 @@ namespace penguinV
                 return data[index];
             }
 
+            std::mutex _initialization;
             std::array<AllocateFunction, 256> _allocate{ nullptr };
             std::array<DeallocateFunction, 256> _deallocate{ nullptr };
             std::array<CopyFunction, 256> _copy{ nullptr };
-- 
2.43.0


From 4894d3fd5f4d1c3b777fc105e7742e4b5b969f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 015/142] fix: release the lock of memory allocator when
 reservation fails

---
 src/memory/cpu_memory.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 33eb783..4d9f091 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -110,7 +110,7 @@ namespace cpu_Memory
         // true memory allocation on CPU
         virtual void _allocate( size_t size )
         {
-            _lock.lock();
+            std::lock_guard<std::mutex> lock( _lock );
             if ( _size != size && size > 0 ) {
                 if ( !_allocatedChunk.empty() ) {
                     throw std::logic_error( "Cannot free a memory on CPU. Not all objects were previously deallocated from allocator." );
@@ -125,7 +125,6 @@ namespace cpu_Memory
 
                 _size = size;
             }
-            _lock.unlock();
         }
 
         // true memory deallocation on CPU
-- 
2.43.0


From d7b2b3333f18017dd5c91ffdf69456f9c0086d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 016/142] fix: do not serve a request from preallocated memory
 when its size in bytes overflows

---
 src/memory/cpu_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 4d9f091..c34583f 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -57,7 +57,7 @@ namespace cpu_Memory
             if ( _data != nullptr ) {
                 const size_t overallSize = size * sizeof( _DataType );
 
-                if ( overallSize < _size ) {
+                if ( size < _size && overallSize < _size ) {
                     const uint8_t level = _getAllocationLevel( overallSize );
 
                     if ( _split( level ) ) {
-- 
2.43.0


From a0ef81a960f0a845576fa03f5a4bec2d915c59c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 017/142] fix: merge only halves of the same chunk in memory
 allocator

---
 src/memory/memory_allocator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/memory/memory_allocator.h b/src/memory/memory_allocator.h
index d59dba1..38a8646 100644
--- a/src/memory/memory_allocator.h
+++ b/src/memory/memory_allocator.h
@@ -134,7 +134,10 @@ protected:
             std::set<size_t>::iterator neighbour = pos;
             ++neighbour;
 
-            if ( neighbour != level->end() ) {
+            // only 2 halves of the same chunk of the next level can be merged, otherwise chunks lose their alignment and splitting order
+            const bool isFirstHalf = ( offset & memorySize ) == 0;
+
+            if ( isFirstHalf && neighbour != level->end() ) {
                 if ( *( neighbour ) - *( pos ) == memorySize ) {
                     offset = *pos;
                     ( level + 1 )->insert( offset );
@@ -143,7 +146,7 @@ protected:
                 }
             }
 
-            if ( pos != level->begin() ) {
+            if ( !isFirstHalf && pos != level->begin() ) {
                 neighbour = pos;
                 --neighbour;
 
-- 
2.43.0


From d753ac49b5cc47642fdc91dad2bc52ed70d862de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 018/142] fix: do not access a task provider after its task is
 reported as completed

---
 src/thread_pool.cpp | 7 +++++--
 src/thread_pool.h   | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index af9a214..a7af8e4 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -50,9 +50,12 @@ AbstractTaskProvider & AbstractTaskProvider::operator=( const AbstractTaskProvid
 
 void AbstractTaskProvider::_taskRun( bool skip )
 {
+    // the total number must be known before this task is reported as completed: a new set of tasks can be started or
+    // this object can be destroyed right after the last task of the set is completed
+    const size_t taskCount = _taskCount;
     const size_t taskId = _givenTaskCount++;
 
-    if ( taskId < _taskCount ) {
+    if ( taskId < taskCount ) {
         if ( !skip ) {
             try {
                 _task( taskId );
@@ -66,7 +69,7 @@ void AbstractTaskProvider::_taskRun( bool skip )
 
         const size_t completedTasks = ( ++_completedTaskCount );
 
-        if ( completedTasks == _taskCount ) {
+        if ( completedTasks == taskCount ) {
             _completion.lock();
 
             _running = false;
diff --git a/src/thread_pool.h b/src/thread_pool.h
index 3a05aa0..242b420 100644
--- a/src/thread_pool.h
+++ b/src/thread_pool.h
@@ -55,12 +55,12 @@ private:
     std::atomic<size_t> _givenTaskCount; // number of tasks which were given to thread pool
     std::atomic<size_t> _completedTaskCount; // number of completed tasks
 
-    bool _running; // boolean variable specifies the state of tasks processing
+    std::atomic<bool> _running; // boolean variable specifies the state of tasks processing
     std::mutex _completion; // mutex for synchronization reporting about completion of all tasks
                             // this mutex is waited in _wait() function
     std::condition_variable _waiting; // condition variable for verification that all tasks are really completed
 
-    bool _exceptionRaised; // notifies whether an exception raised during task execution
+    std::atomic<bool> _exceptionRaised; // notifies whether an exception raised during task execution
 
     void _taskRun( bool skip ); // function is called only by thread pool to call _task() function and increment counters
 };
-- 
2.43.0


From e344fb13aa91594bb50042ce6c39e60d35d3334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 019/142] fix: complete tasks dropped from thread pool to not
 block waiting threads forever

---
 src/thread_pool.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index a7af8e4..c976cba 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -66,6 +66,10 @@ void AbstractTaskProvider::_taskRun( bool skip )
                 _exceptionRaised = true;
             }
         }
+        else {
+            // a waiting thread must know that not all tasks were really executed
+            _exceptionRaised = true;
+        }
 
         const size_t completedTasks = ( ++_completedTaskCount );
 
@@ -243,7 +247,16 @@ void ThreadPool::remove( AbstractTaskProvider * provider )
 {
     _taskInfo.lock();
 
-    _task.remove( provider );
+    // complete all removed tasks without real computations. Otherwise, a thread which waits for them would wait forever
+    for ( std::list<AbstractTaskProvider *>::iterator task = _task.begin(); task != _task.end(); ) {
+        if ( *task == provider ) {
+            task = _task.erase( task );
+            provider->_taskRun( true );
+        }
+        else {
+            ++task;
+        }
+    }
 
     _taskInfo.unlock();
 }
@@ -252,7 +265,7 @@ void ThreadPool::clear()
 {
     _taskInfo.lock();
     // complete all tasks without real computations. It helps to avoid a deadlock in a case when thread pool is destroyed
-    std::for_each( _task.begin(), _task.end(), []( AbstractTaskProvider * task ) { task->_task( true ); } );
+    std::for_each( _task.begin(), _task.end(), []( AbstractTaskProvider * task ) { task->_taskRun( true ); } );
     _task.clear();
 
     _taskInfo.unlock();
-- 
2.43.0


From 01619d04978efb9b7fa6afa31467e9f8c0755732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 020/142] fix: allow to use thread pool after it was stopped
 and to resize, stop and use it from several threads

---
 src/thread_pool.cpp | 77 +++++++++++++++++++++++++--------------------
 src/thread_pool.h   |  6 ++--
 2 files changed, 47 insertions(+), 36 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index c976cba..9104bbc 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -151,7 +151,6 @@ bool TaskProvider::_ready() const
 ThreadPool::ThreadPool( size_t threads )
     : _runningThreadCount( 0 )
     , _threadCount( 0 )
-    , _threadsCreated( false )
 {
     if ( threads > 0 )
         resize( threads );
@@ -167,19 +166,21 @@ void ThreadPool::resize( size_t threads )
     if ( threads == 0 )
         throw penguinVException( "Try to set zero threads in thread pool" );
 
+    std::lock_guard<std::mutex> _resizingLock( _resizing );
+
     if ( threads > threadCount() ) {
         _taskInfo.lock();
         _run.resize( threads, 1 );
         _exit.resize( threads, 0 );
         _taskInfo.unlock();
 
-        _threadCount = threads;
-
-        while ( threads > threadCount() )
+        while ( threads > threadCount() ) {
             _worker.push_back( std::thread( ThreadPool::_workerThread, this, threadCount() ) );
+            _threadCount = _worker.size();
+        }
 
         std::unique_lock<std::mutex> _mutexLock( _creation );
-        _completeCreation.wait( _mutexLock, [&] { return _threadsCreated; } );
+        _completeCreation.wait( _mutexLock, [&] { return _runningThreadCount == threads; } );
     }
     else if ( threads < threadCount() ) {
         _taskInfo.lock();
@@ -188,26 +189,28 @@ void ThreadPool::resize( size_t threads )
         std::fill( _run.begin() + static_cast<std::vector<uint8_t>::difference_type>( threads ), _run.end(), 1 );
         _waiting.notify_all();
 
+        _threadCount = threads;
+
         _taskInfo.unlock();
 
-        while ( threads < threadCount() ) {
+        while ( threads < _worker.size() ) {
             _worker.back().join();
 
             _worker.pop_back();
+        }
 
-            _taskInfo.lock();
+        _taskInfo.lock();
 
-            _exit.pop_back();
-            _run.pop_back();
+        _exit.resize( threads );
+        _run.resize( threads );
 
-            _taskInfo.unlock();
-        }
+        _taskInfo.unlock();
     }
 }
 
 size_t ThreadPool::threadCount() const
 {
-    return _worker.size();
+    return _threadCount;
 }
 
 void ThreadPool::add( AbstractTaskProvider * provider, size_t taskCount )
@@ -215,21 +218,19 @@ void ThreadPool::add( AbstractTaskProvider * provider, size_t taskCount )
     if ( taskCount == 0 )
         throw penguinVException( "Try to add zero tasks to thread pool" );
 
+    std::lock_guard<std::mutex> _taskInfoLock( _taskInfo );
+
     if ( threadCount() == 0 )
         throw penguinVException( "No threads in thread pool" );
 
+    _task.insert( _task.end(), taskCount, provider );
+
     provider->_completion.lock();
     provider->_running = true;
     provider->_completion.unlock();
 
-    _taskInfo.lock();
-
-    _task.insert( _task.end(), taskCount, provider );
-
     std::fill( _run.begin(), _run.end(), 1 );
     _waiting.notify_all();
-
-    _taskInfo.unlock();
 }
 
 bool ThreadPool::empty()
@@ -264,20 +265,28 @@ void ThreadPool::remove( AbstractTaskProvider * provider )
 void ThreadPool::clear()
 {
     _taskInfo.lock();
+    _skipTasks();
+    _taskInfo.unlock();
+}
+
+void ThreadPool::_skipTasks()
+{
     // complete all tasks without real computations. It helps to avoid a deadlock in a case when thread pool is destroyed
     std::for_each( _task.begin(), _task.end(), []( AbstractTaskProvider * task ) { task->_taskRun( true ); } );
     _task.clear();
-
-    _taskInfo.unlock();
 }
 
 void ThreadPool::stop()
 {
-    clear();
+    std::lock_guard<std::mutex> _resizingLock( _resizing );
 
     if ( !_worker.empty() ) {
         _taskInfo.lock();
 
+        // from now no task can be added so nothing is left without being executed or skipped
+        _threadCount = 0;
+        _skipTasks();
+
         std::fill( _exit.begin(), _exit.end(), 1 );
         std::fill( _run.begin(), _run.end(), 1 );
         _waiting.notify_all();
@@ -288,41 +297,41 @@ void ThreadPool::stop()
             thread->join();
 
         _worker.clear();
+
+        _taskInfo.lock();
+
+        _exit.clear();
+        _run.clear();
+
+        _taskInfo.unlock();
     }
 }
 
 void ThreadPool::_workerThread( ThreadPool * pool, size_t threadId )
 {
-    if ( ++( pool->_runningThreadCount ) == pool->_threadCount ) {
-        pool->_creation.lock();
-        pool->_threadsCreated = true;
-        pool->_completeCreation.notify_one();
-        pool->_creation.unlock();
-    }
+    pool->_creation.lock();
+    ++( pool->_runningThreadCount );
+    pool->_completeCreation.notify_one();
+    pool->_creation.unlock();
 
-    while ( !pool->_exit[threadId] ) {
+    while ( true ) {
         std::unique_lock<std::mutex> _mutexLock( pool->_taskInfo );
         pool->_waiting.wait( _mutexLock, [&] { return pool->_run[threadId]; } );
-        _mutexLock.unlock();
 
         if ( pool->_exit[threadId] )
             break;
 
-        pool->_taskInfo.lock();
-
         if ( !pool->_task.empty() ) {
             AbstractTaskProvider * task = pool->_task.front();
 
             pool->_task.pop_front();
 
-            pool->_taskInfo.unlock();
+            _mutexLock.unlock();
 
             task->_taskRun( false );
         }
         else {
             pool->_run[threadId] = 0;
-
-            pool->_taskInfo.unlock();
         }
     }
 
diff --git a/src/thread_pool.h b/src/thread_pool.h
index 242b420..7c25c18 100644
--- a/src/thread_pool.h
+++ b/src/thread_pool.h
@@ -113,12 +113,14 @@ private:
     std::mutex _creation; // mutex for thread creation verification
     std::atomic<size_t> _runningThreadCount; // variable used to calculate a number of running threads
     std::condition_variable _completeCreation; // condition variable for verification that all threads are created
-    std::size_t _threadCount; // current number of threads in pool
-    bool _threadsCreated; // indicator for pool that all threads are created
+    std::atomic<size_t> _threadCount; // current number of threads in pool which can execute tasks
+    std::mutex _resizing; // mutex for synchronization between threads changing the number of worker threads
 
     std::list<AbstractTaskProvider *> _task; // a list of tasks to perform
     std::mutex _taskInfo; // mutex for synchronization between threads and pool to manage tasks
 
+    void _skipTasks(); // completes and removes all tasks without their execution. Access to the list of tasks must be locked
+
     static void _workerThread( ThreadPool * pool, size_t threadId );
 };
 
-- 
2.43.0


From 688549340d080ecb8b565d9f2515ae3b172840d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 021/142] fix: split all images of one operation into the same
 number of parts when thread pool is being resized

---
 src/function_pool_task.cpp | 50 ++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/function_pool_task.cpp b/src/function_pool_task.cpp
index dc9afcf..f544108 100644
--- a/src/function_pool_task.cpp
+++ b/src/function_pool_task.cpp
@@ -141,7 +141,9 @@ namespace Function_Pool
 
         Image_Function::ValidateImageParameters( image, x, y, width, height );
 
-        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( image, x, y, width, height, threadCount() ) );
+        const uint32_t count = threadCount();
+
+        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( image, x, y, width, height, count ) );
     }
 
     void FunctionPoolTask::_setup( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, uint32_t width,
@@ -151,8 +153,10 @@ namespace Function_Pool
 
         Image_Function::ValidateImageParameters( in1, startX1, startY1, in2, startX2, startY2, width, height );
 
-        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in1, startX1, startY1, width, height, threadCount() ) );
-        _infoIn2 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in2, startX2, startY2, width, height, threadCount() ) );
+        const uint32_t count = threadCount();
+
+        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in1, startX1, startY1, width, height, count ) );
+        _infoIn2 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in2, startX2, startY2, width, height, count ) );
     }
 
     void FunctionPoolTask::_setup( const Image & in, uint32_t inX, uint32_t inY, Image & out, uint32_t outX, uint32_t outY, uint32_t width, uint32_t height )
@@ -161,8 +165,10 @@ namespace Function_Pool
 
         Image_Function::ValidateImageParameters( in, inX, inY, out, outX, outY, width, height );
 
-        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in, inX, inY, width, height, threadCount() ) );
-        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, outX, outY, width, height, threadCount() ) );
+        const uint32_t count = threadCount();
+
+        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in, inX, inY, width, height, count ) );
+        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, outX, outY, width, height, count ) );
     }
 
     void FunctionPoolTask::_setup( const Image & in, uint32_t startXIn, uint32_t startYIn, uint32_t widthIn, uint32_t heightIn, Image & out, uint32_t startXOut,
@@ -173,9 +179,11 @@ namespace Function_Pool
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
         Image_Function::ValidateImageParameters( out, startXOut, startYOut, widthOut, heightOut );
 
+        const uint32_t count = threadCount();
+
         _infoIn1 = std::unique_ptr<InputImageInfo>(
-            new InputImageInfo( in, startXIn, startYIn, std::min( widthIn, widthOut ), std::min( heightIn, heightOut ), threadCount() ) );
-        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, startXOut, startYOut, widthOut, heightOut, threadCount() ) );
+            new InputImageInfo( in, startXIn, startYIn, std::min( widthIn, widthOut ), std::min( heightIn, heightOut ), count ) );
+        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, startXOut, startYOut, widthOut, heightOut, count ) );
 
         _infoOut1->_copy( *_infoIn1, startXOut, startYOut, widthOut, heightOut, oppositeAxis );
         _infoIn1->_copy( *_infoOut1, startXIn, startYIn, widthIn, heightIn, oppositeAxis );
@@ -188,9 +196,11 @@ namespace Function_Pool
 
         Image_Function::ValidateImageParameters( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
 
-        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in1, startX1, startY1, width, height, threadCount() ) );
-        _infoIn2 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in2, startX2, startY2, width, height, threadCount() ) );
-        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, startXOut, startYOut, width, height, threadCount() ) );
+        const uint32_t count = threadCount();
+
+        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in1, startX1, startY1, width, height, count ) );
+        _infoIn2 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in2, startX2, startY2, width, height, count ) );
+        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, startXOut, startYOut, width, height, count ) );
     }
 
     void FunctionPoolTask::_setup( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out1, uint32_t startXOut1, uint32_t startYOut1, Image & out2,
@@ -201,10 +211,12 @@ namespace Function_Pool
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out1, startXOut1, startYOut1, out2, startXOut2, startYOut2, width, height );
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out3, startXOut3, startYOut3, width, height );
 
-        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in, startXIn, startYIn, width, height, threadCount() ) );
-        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out1, startXOut1, startYOut1, width, height, threadCount() ) );
-        _infoOut2 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out2, startXOut2, startYOut2, width, height, threadCount() ) );
-        _infoOut3 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out3, startXOut3, startYOut3, width, height, threadCount() ) );
+        const uint32_t count = threadCount();
+
+        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in, startXIn, startYIn, width, height, count ) );
+        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out1, startXOut1, startYOut1, width, height, count ) );
+        _infoOut2 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out2, startXOut2, startYOut2, width, height, count ) );
+        _infoOut3 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out3, startXOut3, startYOut3, width, height, count ) );
     }
 
     void FunctionPoolTask::_setup( const Image & in1, uint32_t startXIn1, uint32_t startYIn1, const Image & in2, uint32_t startXIn2, uint32_t startYIn2,
@@ -216,10 +228,12 @@ namespace Function_Pool
         Image_Function::ValidateImageParameters( in1, startXIn1, startYIn1, in2, startXIn2, startYIn2, in3, startXIn3, startYIn3, width, height );
         Image_Function::ValidateImageParameters( in1, startXIn1, startYIn1, out, startXOut, startYOut, width, height );
 
-        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in1, startXIn1, startYIn1, width, height, threadCount() ) );
-        _infoIn2 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in2, startXIn2, startYIn2, width, height, threadCount() ) );
-        _infoIn3 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in3, startXIn3, startYIn3, width, height, threadCount() ) );
-        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, startXOut, startYOut, width, height, threadCount() ) );
+        const uint32_t count = threadCount();
+
+        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in1, startXIn1, startYIn1, width, height, count ) );
+        _infoIn2 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in2, startXIn2, startYIn2, width, height, count ) );
+        _infoIn3 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in3, startXIn3, startYIn3, width, height, count ) );
+        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, startXOut, startYOut, width, height, count ) );
     }
 
     void FunctionPoolTask::_processTask()
-- 
2.43.0


From 422dd1e14c318b83ab8f05bde56ca7776e6531a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 022/142] fix: read only existing pixels of the displaced
 position in Shift

---
 src/image_function.cpp | 49 +++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 28157b6..28ae8da 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1773,7 +1773,8 @@ namespace Image_Function
         ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         VerifyGrayScaleImage( in, out );
 
-        if ( ( fabs( shiftX ) > width - 1 ) || ( fabs( shiftY ) > height - 1 ) )
+        // a condition is written in a way to refuse NaN values
+        if ( !( fabs( shiftX ) <= width - 1 ) || !( fabs( shiftY ) <= height - 1 ) )
             throw penguinVException( "Shift value by value bigger than ROI" );
 
         // take a note that we use an opposite values
@@ -1789,8 +1790,12 @@ namespace Image_Function
         if ( shiftY > 0.0 )
             --shiftYIntegral;
 
-        const double coeffX = ( shiftX < 0.0 ) ? ( 1.0 + shiftX ) : shiftX;
-        const double coeffY = ( shiftY < 0.0 ) ? ( 1.0 + shiftY ) : shiftY;
+        // shift by a whole number of pixels does not need any subsequent pixel
+        const uint32_t nextX = ( shiftX < 0.0 || shiftX > 0.0 ) ? 1u : 0u;
+        const uint32_t nextY = ( shiftY < 0.0 || shiftY > 0.0 ) ? 1u : 0u;
+
+        const double coeffX = ( shiftX > 0.0 ) ? shiftX : ( 1.0 + shiftX );
+        const double coeffY = ( shiftY > 0.0 ) ? shiftY : ( 1.0 + shiftY );
 
         // 2^23 = 8388608, 2^23 * 256 is a integer limit
         const uint32_t coeff0 = static_cast<uint32_t>( ( coeffX ) * (coeffY)*16384 + 0.5 );
@@ -1798,36 +1803,32 @@ namespace Image_Function
         const uint32_t coeff2 = static_cast<uint32_t>( ( 1.0 - coeffX ) * ( 1.0 - coeffY ) * 16384 + 0.5 );
         const uint32_t coeff3 = static_cast<uint32_t>( ( coeffX ) * ( 1.0 - coeffY ) * 16384 + 0.5 );
 
-        const uint32_t limitX = in.width() - 1u; // we need 2 subsequent pixels so we cannot use last pixel
-        const uint32_t limitY = in.height() - 1u;
+        // position of the first pixel needed for the output, it could be outside the input image
+        const int64_t firstX = static_cast<int64_t>( startXIn ) + shiftXIntegral;
+        const int64_t firstY = static_cast<int64_t>( startYIn ) + shiftYIntegral;
+
+        const int64_t lastX = firstX + width + nextX;
+        const int64_t lastY = firstY + height + nextY;
 
-        const uint32_t emptyLeftArea
-            = ( shiftXIntegral < 0 && startXIn < static_cast<uint32_t>( -shiftXIntegral ) ) ? ( static_cast<uint32_t>( -shiftXIntegral ) - startXIn ) : 0u;
-        const uint32_t emptyRightArea = ( shiftXIntegral > 0 && limitX < startXIn + width + static_cast<uint32_t>( shiftXIntegral ) )
-                                            ? ( startXIn + width + static_cast<uint32_t>( shiftXIntegral ) - limitX )
-                                            : 0u;
+        const uint32_t emptyLeftArea = ( firstX < 0 ) ? static_cast<uint32_t>( -firstX ) : 0u;
+        const uint32_t emptyRightArea = ( lastX > in.width() ) ? static_cast<uint32_t>( lastX - in.width() ) : 0u;
         const uint32_t realWidth = width - emptyLeftArea - emptyRightArea;
 
-        const uint32_t emptyTopArea
-            = ( shiftYIntegral < 0 && startYIn < static_cast<uint32_t>( -shiftYIntegral ) ) ? ( static_cast<uint32_t>( -shiftYIntegral ) - startYIn ) : 0u;
-        const uint32_t emptyBottomArea = ( shiftYIntegral > 0 && limitY < startYIn + height + static_cast<uint32_t>( shiftYIntegral ) )
-                                             ? ( startYIn + height + static_cast<uint32_t>( shiftYIntegral ) - limitY )
-                                             : 0u;
+        const uint32_t emptyTopArea = ( firstY < 0 ) ? static_cast<uint32_t>( -firstY ) : 0u;
+        const uint32_t emptyBottomArea = ( lastY > in.height() ) ? static_cast<uint32_t>( lastY - in.height() ) : 0u;
         const uint32_t realHeight = height - emptyTopArea - emptyBottomArea;
 
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint8_t * inY = in.data() + static_cast<size_t>( firstY + emptyTopArea ) * rowSizeIn + static_cast<size_t>( firstX + emptyLeftArea );
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut;
 
-        inY += shiftXIntegral + shiftYIntegral * static_cast<int32_t>( rowSizeIn );
-
         const uint8_t * outYEnd = outY + emptyTopArea * rowSizeOut;
         for ( ; outY != outYEnd; outY += rowSizeOut )
             memset( outY, 0, width );
 
-        inY += emptyTopArea * rowSizeIn;
+        const uint32_t nextRow = nextY * rowSizeIn;
 
         outYEnd = outY + realHeight * rowSizeOut;
         for ( ; outY != outYEnd; outY += rowSizeOut, inY += rowSizeIn ) {
@@ -1836,13 +1837,13 @@ namespace Image_Function
             const uint8_t * outXEnd = outX + emptyLeftArea + realWidth;
 
             memset( outX, 0, emptyLeftArea );
-            inX += emptyLeftArea;
+            outX += emptyLeftArea;
 
-            for ( ; outX != outXEnd; ++outX ) {
+            for ( ; outX != outXEnd; ++outX, ++inX ) {
                 uint32_t data = ( *( inX ) ) * coeff0;
-                data += ( *( inX + rowSizeIn ) ) * coeff3;
-                data += ( *( ++inX ) ) * coeff1; // here we increment inX
-                data += ( *( inX + rowSizeIn ) ) * coeff2;
+                data += ( *( inX + nextRow ) ) * coeff3;
+                data += ( *( inX + nextX ) ) * coeff1;
+                data += ( *( inX + nextX + nextRow ) ) * coeff2;
 
                 *outX = static_cast<uint8_t>( ( data + 8192 ) >> 14 ); // 8192 is 0.5 after calculations
             }
-- 
2.43.0


From e7350c6f254ba956d21a9003c0c060896d71152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 023/142] fix: avoid overflow of positions far outside an image
 in Rotate

---
 src/image_function.cpp | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 28ae8da..0d03f6f 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1680,8 +1680,8 @@ namespace Image_Function
 
         const double minX = startXIn;
         const double minY = startYIn;
-        const uint32_t maxX = startXIn + width - 1u;
-        const uint32_t maxY = startYIn + height - 1u;
+        const double maxX = startXIn + width - 1u;
+        const double maxY = startYIn + height - 1u;
 
         for ( ; outY != outYEnd; outY += rowSizeOut, inXPos += sinAngle, inYPos += cosAngle ) {
             uint8_t * outX = outY;
@@ -1691,31 +1691,27 @@ namespace Image_Function
             double posY = inYPos;
 
             for ( ; outX != outXEnd; ++outX, posX += cosAngle, posY -= sinAngle ) {
-                if ( posX < minX || posY < minY ) {
+                // positions must be compared before a conversion to integer values which can overflow
+                if ( !( posX >= minX && posY >= minY && posX < maxX && posY < maxY ) ) {
                     ( *outX ) = 0; // we actually do not know what is beyond an image so we set value 0
                 }
                 else {
                     const uint32_t x = static_cast<uint32_t>( posX );
                     const uint32_t y = static_cast<uint32_t>( posY );
 
-                    if ( x >= maxX || y >= maxY ) {
-                        ( *outX ) = 0; // we actually do not know what is beyond an image so we set value 0
-                    }
-                    else {
-                        const uint8_t * inX = inY + y * rowSizeIn + x;
+                    const uint8_t * inX = inY + y * rowSizeIn + x;
 
-                        // we use bilinear approximation to find pixel intensity value
-                        const double coeffX = posX - x;
-                        const double coeffY = posY - y;
+                    // we use bilinear approximation to find pixel intensity value
+                    const double coeffX = posX - x;
+                    const double coeffY = posY - y;
 
-                        // Take a weighted mean of four pixels. Use offset of 0.5
-                        // so that integer conversion leads to rounding instead of
-                        // simple truncation.
-                        const double sum = *( inX ) * ( 1 - coeffX ) * ( 1 - coeffY ) + *( inX + 1 ) * ( coeffX ) * ( 1 - coeffY )
-                                           + *( inX + rowSizeIn ) * ( 1 - coeffX ) * ( coeffY ) + *( inX + rowSizeIn + 1 ) * ( coeffX ) * ( coeffY ) + 0.5;
+                    // Take a weighted mean of four pixels. Use offset of 0.5
+                    // so that integer conversion leads to rounding instead of
+                    // simple truncation.
+                    const double sum = *( inX ) * ( 1 - coeffX ) * ( 1 - coeffY ) + *( inX + 1 ) * ( coeffX ) * ( 1 - coeffY )
+                                       + *( inX + rowSizeIn ) * ( 1 - coeffX ) * ( coeffY ) + *( inX + rowSizeIn + 1 ) * ( coeffX ) * ( coeffY ) + 0.5;
 
-                        ( *outX ) = static_cast<uint8_t>( sum );
-                    }
+                    ( *outX ) = static_cast<uint8_t>( sum );
                 }
             }
         }
-- 
2.43.0


From 4291851952cb503f741d8c0b20e84b68e4344e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 024/142] fix: do not convert negative values to unsigned in
 Normalize

---
 src/function_pool.cpp  | 3 ++-
 src/image_function.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index 8a43caf..f78c711 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -920,7 +920,8 @@ namespace Function_Pool
             // We precalculate all values and store them in lookup table
             std::vector<uint8_t> value( 256 );
 
-            for ( uint16_t i = 0; i < 256; ++i )
+            // other values do not exist in the image and cannot be represented after the correction
+            for ( uint16_t i = minimum; i <= maximum; ++i )
                 value[i] = static_cast<uint8_t>( ( i - minimum ) * correction + 0.5 );
 
             FunctionTask().LookupTable( in, startXIn, startYIn, out, startXOut, startYOut, width, height, value );
diff --git a/src/image_function.cpp b/src/image_function.cpp
index 0d03f6f..e54ec88 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1330,7 +1330,8 @@ namespace Image_Function
             // We precalculate all values and store them in lookup table
             std::vector<uint8_t> value( 256 );
 
-            for ( uint16_t i = 0; i < 256; ++i )
+            // other values do not exist in the image and cannot be represented after the correction
+            for ( uint16_t i = minimum; i <= maximum; ++i )
                 value[i] = static_cast<uint8_t>( ( i - minimum ) * correction + 0.5 );
 
             LookupTable( in, startXIn, startYIn, out, startXOut, startYOut, width, height, value );
-- 
2.43.0


From 715f1557b04415adbd3be3b2e2bf42b24b24a7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 025/142] fix: support colour images in multi-threaded
 Normalize like in the single-threaded one

---
 src/function_pool.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index f78c711..e167b6a 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -895,19 +895,22 @@ namespace Function_Pool
 
     void Normalize( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
+        Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        Image_Function::CheckCommonColorCount( in, out );
+
         const std::vector<uint32_t> histogram = Function_Pool::Histogram( in, startXIn, startYIn, width, height );
-        if ( histogram.size() != 256u )
-            throw penguinVException( "Histogram size is not equal to 256" );
 
         uint16_t minimum = 255u;
         uint16_t maximum = 0u;
 
-        for ( uint16_t i = 0u; i < 256u; ++i ) {
+        // histogram contains 256 values for every color channel
+        for ( size_t i = 0u; i < histogram.size(); ++i ) {
             if ( histogram[i] > 0u ) {
-                if ( maximum < i )
-                    maximum = i;
-                if ( minimum > i )
-                    minimum = i;
+                const uint16_t value = static_cast<uint16_t>( i % 256u );
+                if ( maximum < value )
+                    maximum = value;
+                if ( minimum > value )
+                    minimum = value;
             }
         }
 
-- 
2.43.0


From bfc21a662bd8922ee2ade08d61f12437c9641b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 026/142] fix: support colour images in multi-threaded
 horizontal ProjectionProfile like in the single-threaded one

---
 src/function_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index e167b6a..2230739 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -310,7 +310,7 @@ namespace Function_Pool
             _dataIn.horizontalProjection = horizontal;
             _process( _ProjectionProfile );
 
-            projection.resize( horizontal ? width : height );
+            projection.resize( horizontal ? width * image.colorCount() : height );
             _dataOut.getProjection( projection );
         }
 
-- 
2.43.0


From 2151b2ea2eb306bdf8b66293f51c6bd41dce889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 027/142] fix: make the result of multi-threaded Resize
 independent from the number of threads

---
 src/function_pool.cpp | 46 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index 2230739..eef62b8 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -38,6 +38,14 @@ namespace Function_Pool
         double coefficientA{ 1.0 }; // for GammaCorrection() function
         double coefficientGamma{ 1.0 }; // for GammaCorrection() function
         std::vector<uint8_t> lookupTable; // for LookupTable() function
+        uint32_t startXIn{ 0 }; // whole input and output areas for Resize() function
+        uint32_t startYIn{ 0 };
+        uint32_t widthIn{ 0 };
+        uint32_t heightIn{ 0 };
+        uint32_t startXOut{ 0 };
+        uint32_t startYOut{ 0 };
+        uint32_t widthOut{ 0 };
+        uint32_t heightOut{ 0 };
     };
 
     // This structure holds output data for some specific functions
@@ -317,7 +325,18 @@ namespace Function_Pool
         void Resize( const Image & in, uint32_t startXIn, uint32_t startYIn, uint32_t widthIn, uint32_t heightIn, Image & out, uint32_t startXOut, uint32_t startYOut,
                      uint32_t widthOut, uint32_t heightOut )
         {
+            Image_Function::CheckCommonColorCount( in, out );
             _setup( in, startXIn, startYIn, widthIn, heightIn, out, startXOut, startYOut, widthOut, heightOut );
+
+            _dataIn.startXIn = startXIn;
+            _dataIn.startYIn = startYIn;
+            _dataIn.widthIn = widthIn;
+            _dataIn.heightIn = heightIn;
+            _dataIn.startXOut = startXOut;
+            _dataIn.startYOut = startYOut;
+            _dataIn.widthOut = widthOut;
+            _dataIn.heightOut = heightOut;
+
             _process( _Resize );
         }
 
@@ -488,8 +507,7 @@ namespace Function_Pool
                                              _dataIn.horizontalProjection, _dataOut.projection[taskId] );
                 break;
             case _Resize:
-                penguinV::Resize( _infoIn1->image, _infoIn1->startX[taskId], _infoIn1->startY[taskId], _infoIn1->width[taskId], _infoIn1->height[taskId],
-                                  _infoOut1->image, _infoOut1->startX[taskId], _infoOut1->startY[taskId], _infoOut1->width[taskId], _infoOut1->height[taskId] );
+                _resize( _infoOut1->startX[taskId], _infoOut1->startY[taskId], _infoOut1->width[taskId], _infoOut1->height[taskId] );
                 break;
             case _RgbToBgr:
                 penguinV::RgbToBgr( _infoIn1->image, _infoIn1->startX[taskId], _infoIn1->startY[taskId], _infoOut1->image, _infoOut1->startX[taskId],
@@ -532,6 +550,30 @@ namespace Function_Pool
         InputInfo _dataIn; // structure which holds some unique input parameters
         OutputInfo _dataOut; // structure which holds some unique output values
 
+        // Fills a part of the output area. Positions are calculated from the whole areas as they do not depend on a way how the output area is divided
+        void _resize( uint32_t startX, uint32_t startY, uint32_t width, uint32_t height )
+        {
+            const Image & in = _infoIn1->image;
+            Image & out = _infoOut1->image;
+
+            const uint8_t colorCount = out.colorCount();
+
+            std::vector<size_t> positionX( width );
+            for ( uint32_t x = 0; x < width; ++x ) {
+                const uint64_t idX = startX - _dataIn.startXOut + x;
+                positionX[x] = static_cast<size_t>( _dataIn.startXIn + idX * _dataIn.widthIn / _dataIn.widthOut ) * colorCount;
+            }
+
+            for ( uint32_t y = 0; y < height; ++y ) {
+                const uint64_t idY = startY - _dataIn.startYOut + y;
+                const uint8_t * inY = in.data() + static_cast<size_t>( _dataIn.startYIn + idY * _dataIn.heightIn / _dataIn.heightOut ) * in.rowSize();
+                uint8_t * outX = out.data() + static_cast<size_t>( startY + y ) * out.rowSize() + static_cast<size_t>( startX ) * colorCount;
+
+                for ( uint32_t x = 0; x < width; ++x, outX += colorCount )
+                    memcpy( outX, inY + positionX[x], colorCount );
+            }
+        }
+
         void _process( TaskName id )
         {
             functionId = id;
-- 
2.43.0


From 31ae1fb4b6e73f85fd61f784e21e6da31b4ccbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 028/142] fix: convert all images of dispatched functions to
 the type of the function and keep references to converted images valid

---
 src/penguinv/image_manager.h | 13 +++++---
 src/penguinv/penguinv.cpp    | 60 +++++++++++++++++++-----------------
 2 files changed, 40 insertions(+), 33 deletions(-)

diff --git a/src/penguinv/image_manager.h b/src/penguinv/image_manager.h
index b5fbd0f..1fb8ca6 100644
--- a/src/penguinv/image_manager.h
+++ b/src/penguinv/image_manager.h
@@ -21,6 +21,7 @@
 #pragma once
 
 #include "../image_buffer.h"
+#include <list>
 #include <vector>
 
 template <typename _Type>
@@ -59,8 +60,9 @@ public:
         for ( typename std::vector<ConstReferenceOwner<_Type> *>::iterator data = _input.begin(); data != _input.end(); ++data )
             delete *data;
 
-        for ( size_t i = 0u; i < _output.size(); ++i ) {
-            _restore( _outputClone[i], _output[i]->data );
+        typename std::list<penguinV::ImageTemplate<_Type>>::const_iterator clone = _outputClone.begin();
+        for ( size_t i = 0u; i < _output.size(); ++i, ++clone ) {
+            _restore( *clone, _output[i]->data );
 
             delete _output[i];
         }
@@ -80,8 +82,8 @@ public:
     penguinV::ImageTemplate<_Type> & operator()( penguinV::ImageTemplate<_Type> & image )
     {
         if ( image.type() != _type ) {
-            _output.push_back( new ReferenceOwner<_Type>( image ) );
             _outputClone.push_back( _clone( image ) );
+            _output.push_back( new ReferenceOwner<_Type>( image ) );
             return _outputClone.back();
         }
         else {
@@ -95,8 +97,9 @@ private:
     ConvertImage _convertImage;
     std::vector<ConstReferenceOwner<_Type> *> _input;
     std::vector<ReferenceOwner<_Type> *> _output;
-    std::vector<penguinV::ImageTemplate<_Type>> _inputClone;
-    std::vector<penguinV::ImageTemplate<_Type>> _outputClone;
+    // references to these images are in use so they must not be invalidated by adding new images
+    std::list<penguinV::ImageTemplate<_Type>> _inputClone;
+    std::list<penguinV::ImageTemplate<_Type>> _outputClone;
 
     penguinV::Image _clone( const penguinV::ImageTemplate<_Type> & in )
     {
diff --git a/src/penguinv/penguinv.cpp b/src/penguinv/penguinv.cpp
index c0adb93..91708de 100644
--- a/src/penguinv/penguinv.cpp
+++ b/src/penguinv/penguinv.cpp
@@ -94,7 +94,7 @@ namespace penguinV
 
     void Accumulate( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, std::vector<uint32_t> & result )
     {
-        initialize( image, Accumulate ) func( image, x, y, width, height, result );
+        initialize( image, Accumulate ) func( manager( image ), x, y, width, height, result );
     }
 
     Image BitwiseAnd( const Image & in1, const Image & in2 )
@@ -115,7 +115,7 @@ namespace penguinV
     void BitwiseAnd( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                      uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseAnd ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseAnd ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image BitwiseOr( const Image & in1, const Image & in2 )
@@ -136,7 +136,7 @@ namespace penguinV
     void BitwiseOr( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                     uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseOr ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseOr ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image BitwiseXor( const Image & in1, const Image & in2 )
@@ -157,7 +157,7 @@ namespace penguinV
     void BitwiseXor( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                      uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseXor ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseXor ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image ConvertToGrayScale( const Image & in )
@@ -198,7 +198,7 @@ namespace penguinV
 
     void ConvertToRgb( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, ConvertToRgb ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, ConvertToRgb ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     void Copy( const Image & in, Image & out )
@@ -213,7 +213,7 @@ namespace penguinV
 
     void Copy( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Copy ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Copy ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image ExtractChannel( const Image & in, uint8_t channelId )
@@ -234,7 +234,7 @@ namespace penguinV
     void ExtractChannel( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                          uint8_t channelId )
     {
-        initialize( in, ExtractChannel ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, channelId );
+        initialize( in, ExtractChannel ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, channelId );
     }
 
     void Fill( Image & image, uint8_t value )
@@ -244,7 +244,7 @@ namespace penguinV
 
     void Fill( Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, uint8_t value )
     {
-        initialize( image, Fill ) func( image, x, y, width, height, value );
+        initialize( image, Fill ) func( manager( image ), x, y, width, height, value );
     }
 
     Image Flip( const Image & in, bool horizontal, bool vertical )
@@ -265,7 +265,7 @@ namespace penguinV
     void Flip( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                bool horizontal, bool vertical )
     {
-        initialize( in, Flip ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, horizontal, vertical );
+        initialize( in, Flip ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, horizontal, vertical );
     }
 
     Image GammaCorrection( const Image & in, double a, double gamma )
@@ -286,13 +286,13 @@ namespace penguinV
     void GammaCorrection( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                           double a, double gamma )
     {
-        initialize( in, GammaCorrection ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, a, gamma );
+        initialize( in, GammaCorrection ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, a, gamma );
     }
 
     uint8_t GetPixel( const Image & image, uint32_t x, uint32_t y )
     {
         initialize( image, GetPixel );
-        return func( image, x, y );
+        return func( manager( image ), x, y );
     }
 
     uint8_t GetThreshold( const std::vector<uint32_t> & histogram )
@@ -337,7 +337,7 @@ namespace penguinV
 
     void Invert( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Invert ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Invert ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     bool IsEqual( const Image & in1, const Image & in2 )
@@ -348,7 +348,7 @@ namespace penguinV
     bool IsEqual( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, uint32_t width, uint32_t height )
     {
         initialize( in1, IsEqual );
-        return func( in1, startX1, startY1, in2, startX2, startY2, width, height );
+        return func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, width, height );
     }
 
     Image LookupTable( const Image & in, const std::vector<uint8_t> & table )
@@ -369,7 +369,7 @@ namespace penguinV
     void LookupTable( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                       const std::vector<uint8_t> & table )
     {
-        initialize( in, LookupTable ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, table );
+        initialize( in, LookupTable ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, table );
     }
 
     Image Maximum( const Image & in1, const Image & in2 )
@@ -390,7 +390,7 @@ namespace penguinV
     void Maximum( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                   uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Maximum ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Maximum ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image Merge( const Image & in1, const Image & in2, const Image & in3 )
@@ -412,7 +412,9 @@ namespace penguinV
     void Merge( const Image & in1, uint32_t startXIn1, uint32_t startYIn1, const Image & in2, uint32_t startXIn2, uint32_t startYIn2, const Image & in3,
                 uint32_t startXIn3, uint32_t startYIn3, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Merge ) func( in1, startXIn1, startYIn1, in2, startXIn2, startYIn2, in3, startXIn3, startYIn3, out, startXOut, startYOut, width, height );
+        initialize( in1, Merge )
+            func( manager( in1 ), startXIn1, startYIn1, manager( in2 ), startXIn2, startYIn2, manager( in3 ), startXIn3, startYIn3,
+                  manager( out ), startXOut, startYOut, width, height );
     }
 
     Image Minimum( const Image & in1, const Image & in2 )
@@ -433,7 +435,7 @@ namespace penguinV
     void Minimum( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                   uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Minimum ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Minimum ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image Normalize( const Image & in )
@@ -453,7 +455,7 @@ namespace penguinV
 
     void Normalize( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Normalize ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Normalize ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     std::vector<uint32_t> ProjectionProfile( const Image & image, bool horizontal )
@@ -473,7 +475,7 @@ namespace penguinV
 
     void ProjectionProfile( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, bool horizontal, std::vector<uint32_t> & projection )
     {
-        initialize( image, ProjectionProfile ) func( image, x, y, width, height, horizontal, projection );
+        initialize( image, ProjectionProfile ) func( manager( image ), x, y, width, height, horizontal, projection );
     }
 
     Image Resize( const Image & in, uint32_t widthOut, uint32_t heightOut )
@@ -494,7 +496,7 @@ namespace penguinV
     void Resize( const Image & in, uint32_t startXIn, uint32_t startYIn, uint32_t widthIn, uint32_t heightIn, Image & out, uint32_t startXOut, uint32_t startYOut,
                  uint32_t widthOut, uint32_t heightOut )
     {
-        initialize( in, Resize ) func( in, startXIn, startYIn, widthIn, heightIn, out, startXOut, startYOut, widthOut, heightOut );
+        initialize( in, Resize ) func( manager( in ), startXIn, startYIn, widthIn, heightIn, manager( out ), startXOut, startYOut, widthOut, heightOut );
     }
 
     Image RgbToBgr( const Image & in )
@@ -514,17 +516,17 @@ namespace penguinV
 
     void RgbToBgr( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, RgbToBgr ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, RgbToBgr ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     void SetPixel( Image & image, uint32_t x, uint32_t y, uint8_t value )
     {
-        initialize( image, SetPixel ) func( image, x, y, value );
+        initialize( image, SetPixel ) func( manager( image ), x, y, value );
     }
 
     void SetPixel( Image & image, const std::vector<uint32_t> & X, const std::vector<uint32_t> & Y, uint8_t value )
     {
-        initialize( image, SetPixel2 ) func( image, X, Y, value );
+        initialize( image, SetPixel2 ) func( manager( image ), X, Y, value );
     }
 
     void Split( const Image & in, Image & out1, Image & out2, Image & out3 )
@@ -535,7 +537,9 @@ namespace penguinV
     void Split( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out1, uint32_t startXOut1, uint32_t startYOut1, Image & out2, uint32_t startXOut2,
                 uint32_t startYOut2, Image & out3, uint32_t startXOut3, uint32_t startYOut3, uint32_t width, uint32_t height )
     {
-        initialize( in, Split ) func( in, startXIn, startYIn, out1, startXOut1, startYOut1, out2, startXOut2, startYOut2, out3, startXOut3, startYOut3, width, height );
+        initialize( in, Split )
+            func( manager( in ), startXIn, startYIn, manager( out1 ), startXOut1, startYOut1,
+                  manager( out2 ), startXOut2, startYOut2, manager( out3 ), startXOut3, startYOut3, width, height );
     }
 
     Image Subtract( const Image & in1, const Image & in2 )
@@ -556,7 +560,7 @@ namespace penguinV
     void Subtract( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                    uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Subtract ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Subtract ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     uint32_t Sum( const Image & image )
@@ -567,7 +571,7 @@ namespace penguinV
     uint32_t Sum( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height )
     {
         initialize( image, Sum );
-        return func( image, x, y, width, height );
+        return func( manager( image ), x, y, width, height );
     }
 
     Image Threshold( const Image & in, uint8_t threshold )
@@ -609,7 +613,7 @@ namespace penguinV
     void Threshold( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                     uint8_t minThreshold, uint8_t maxThreshold )
     {
-        initialize( in, Threshold2 ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, minThreshold, maxThreshold );
+        initialize( in, Threshold2 ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, minThreshold, maxThreshold );
     }
 
     Image Transpose( const Image & in )
@@ -629,6 +633,6 @@ namespace penguinV
 
     void Transpose( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Transpose ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Transpose ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 }
-- 
2.43.0


From 5cc4494841e971f4eca7232f0e5288e0e808622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 029/142] fix: do not lose functions when several function
 tables are registered for one image type

---
 src/image_function_helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index a7b73df..053299f 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -62,9 +62,12 @@ namespace
         SET_FUNCTION( Normalize )
         SET_FUNCTION( ProjectionProfile )
         SET_FUNCTION( Resize )
+        SET_FUNCTION( RgbaToRgb )
         SET_FUNCTION( RgbToBgr )
+        SET_FUNCTION( RgbToRgba )
         SET_FUNCTION( SetPixel )
         SET_FUNCTION( SetPixel2 )
+        SET_FUNCTION( Shift )
         SET_FUNCTION( Split )
         SET_FUNCTION( Subtract )
         SET_FUNCTION( Sum )
-- 
2.43.0


From f794b2c3a1115594ed3206b646d37ba1e78074de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 030/142] fix: refuse invalid thresholds in vectorised double
 Threshold like in the plain one

---
 src/image_function_simd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index d304776..03ea447 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -3228,6 +3228,9 @@ namespace simd
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyGrayScaleImage( in, out );
 
+        if ( minThreshold > maxThreshold )
+            throw penguinVException( "Minimum threshold value is bigger than maximum threshold value" );
+
         Image_Function::OptimiseRoi( width, height, in, out );
 
         const uint32_t rowSizeIn = in.rowSize();
-- 
2.43.0


From 7812c0c199adff28832e05ab07a941e5c441862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 031/142] fix: read levels of colour histogram in
 multi-threaded Normalize

---
 src/function_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index eef62b8..cd54752 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -945,10 +945,10 @@ namespace Function_Pool
         uint16_t minimum = 255u;
         uint16_t maximum = 0u;
 
-        // histogram contains 256 values for every color channel
+        // histogram contains a value of every color channel for each of 256 levels
         for ( size_t i = 0u; i < histogram.size(); ++i ) {
             if ( histogram[i] > 0u ) {
-                const uint16_t value = static_cast<uint16_t>( i % 256u );
+                const uint16_t value = static_cast<uint16_t>( i / in.colorCount() );
                 if ( maximum < value )
                     maximum = value;
                 if ( minimum > value )
-- 
2.43.0


From 5fd3e40e75a322105d1349b61f50fbc92909ea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 032/142] hook: steps of the thread pool visible to
 verification monitors

---
 src/thread_pool.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 9104bbc..092c549 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -22,6 +22,14 @@
 #include "penguinv_exception.h"
 #include <algorithm>
 
+#ifdef PENGUINV_VERIF_HOOKS
+// defined by a verification monitor to delay or to count a step of the pool
+extern void penguinV_verif_point( const char * name );
+#define VERIF_POINT( name ) penguinV_verif_point( name )
+#else
+#define VERIF_POINT( name )
+#endif
+
 AbstractTaskProvider::AbstractTaskProvider()
     : _taskCount( 0 )
     , _givenTaskCount( 0 )
@@ -53,6 +61,7 @@ void AbstractTaskProvider::_taskRun( bool skip )
     // the total number must be known before this task is reported as completed: a new set of tasks can be started or
     // this object can be destroyed right after the last task of the set is completed
     const size_t taskCount = _taskCount;
+    VERIF_POINT( "task:take" );
     const size_t taskId = _givenTaskCount++;
 
     if ( taskId < taskCount ) {
@@ -71,7 +80,9 @@ void AbstractTaskProvider::_taskRun( bool skip )
             _exceptionRaised = true;
         }
 
+        VERIF_POINT( "task:done" );
         const size_t completedTasks = ( ++_completedTaskCount );
+        VERIF_POINT( "task:counted" );
 
         if ( completedTasks == taskCount ) {
             _completion.lock();
@@ -139,6 +150,7 @@ void TaskProvider::_run( size_t taskCount )
         _givenTaskCount = 0;
         _completedTaskCount = 0;
 
+        VERIF_POINT( "provider:run" );
         _threadPool->add( this, _taskCount );
     }
 }
@@ -193,6 +205,7 @@ void ThreadPool::resize( size_t threads )
 
         _taskInfo.unlock();
 
+        VERIF_POINT( "pool:shrink" );
         while ( threads < _worker.size() ) {
             _worker.back().join();
 
@@ -293,6 +306,7 @@ void ThreadPool::stop()
 
         _taskInfo.unlock();
 
+        VERIF_POINT( "pool:stop" );
         for ( std::vector<std::thread>::iterator thread = _worker.begin(); thread != _worker.end(); ++thread )
             thread->join();
 
@@ -328,6 +342,7 @@ void ThreadPool::_workerThread( ThreadPool * pool, size_t threadId )
 
             _mutexLock.unlock();
 
+            VERIF_POINT( "worker:popped" );
             task->_taskRun( false );
         }
         else {
@@ -335,6 +350,7 @@ void ThreadPool::_workerThread( ThreadPool * pool, size_t threadId )
         }
     }
 
+    VERIF_POINT( "worker:exit" );
     --( pool->_runningThreadCount );
 }
 
@@ -368,6 +384,7 @@ void TaskProviderSingleton::_run( size_t taskCount )
         _givenTaskCount = 0;
         _completedTaskCount = 0;
 
+        VERIF_POINT( "provider:run" );
         ThreadPoolMonoid::instance().add( this, _taskCount );
     }
 }
-- 
2.43.0


From e1f5171d41c3bd23a527ddb8f0e6920fc61d37cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 033/142] fix: do not copy images while validating parameters
 (a data race when other threads write their parts of the image)

---
 src/parameter_validation.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parameter_validation.h b/src/parameter_validation.h
index 154959d..6e1a2d0 100644
--- a/src/parameter_validation.h
+++ b/src/parameter_validation.h
@@ -64,7 +64,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void VerifyRGBImage( const TImage & image, Args... args )
+    void VerifyRGBImage( const TImage & image, const Args &... args )
     {
         VerifyRGBImage( image );
         VerifyRGBImage( args... );
@@ -78,7 +78,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void VerifyGrayScaleImage( const TImage & image, Args... args )
+    void VerifyGrayScaleImage( const TImage & image, const Args &... args )
     {
         VerifyGrayScaleImage( image );
         VerifyGrayScaleImage( args... );
@@ -100,7 +100,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void ValidateImageParameters( const TImage & image1, const TImage & image2, Args... args )
+    void ValidateImageParameters( const TImage & image1, const TImage & image2, const Args &... args )
     {
         ValidateImageParameters( image1, image2 );
         ValidateImageParameters( image2, args... );
@@ -113,7 +113,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    std::pair<uint32_t, uint32_t> ExtractRoiSize( const TImage &, uint32_t, uint32_t, Args... args )
+    std::pair<uint32_t, uint32_t> ExtractRoiSize( const TImage &, uint32_t, uint32_t, const Args &... args )
     {
         return ExtractRoiSize( args... );
     }
@@ -127,7 +127,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void ValidateImageParameters( const TImage & image1, uint32_t startX1, uint32_t startY1, Args... args )
+    void ValidateImageParameters( const TImage & image1, uint32_t startX1, uint32_t startY1, const Args &... args )
     {
         const std::pair<uint32_t, uint32_t> & dimensions = ExtractRoiSize( args... );
 
@@ -142,7 +142,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    bool IsFullImageRow( uint32_t width, const TImage & image, Args... args )
+    bool IsFullImageRow( uint32_t width, const TImage & image, const Args &... args )
     {
         if ( !IsFullImageRow( width, image ) )
             return false;
@@ -151,7 +151,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void OptimiseRoi( uint32_t & width, uint32_t & height, const TImage & image, Args... args )
+    void OptimiseRoi( uint32_t & width, uint32_t & height, const TImage & image, const Args &... args )
     {
         if ( IsFullImageRow( width, image, args... ) && ( width < ( std::numeric_limits<uint32_t>::max() / height ) ) ) {
             width = width * height;
-- 
2.43.0


From 359d998a68c85d36f5d2e25ca7c6307982abf747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 034/142] fix: keep memory allocator consistent and unlocked
 when an allocation of its own data fails

---
 src/memory/cpu_memory.h       | 15 ++++++++-------
 src/memory/memory_allocator.h | 12 ++++++++++--
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index c34583f..7c769a7 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -53,7 +53,7 @@ namespace cpu_Memory
         template <typename _DataType = uint8_t>
         _DataType * allocate( size_t size = 1 )
         {
-            _lock.lock();
+            std::unique_lock<std::mutex> lock( _lock ); // it must be released even if an exception is thrown
             if ( _data != nullptr ) {
                 const size_t overallSize = size * sizeof( _DataType );
 
@@ -65,12 +65,11 @@ namespace cpu_Memory
                         _DataType * address = reinterpret_cast<_DataType *>( _alignedData + *chunk );
                         _allocatedChunk.insert( std::pair<size_t, uint8_t>( *chunk, level ) );
                         _freeChunk[level].erase( chunk );
-                        _lock.unlock();
                         return address;
                     }
                 }
             }
-            _lock.unlock();
+            lock.unlock();
 
             // if no space in preallocated memory, allocate as usual memory
             return new _DataType[size];
@@ -81,19 +80,21 @@ namespace cpu_Memory
         template <typename _DataType>
         void free( _DataType * address )
         {
-            _lock.lock();
+            std::unique_lock<std::mutex> lock( _lock ); // it must be released even if an exception is thrown
             if ( _data != nullptr && reinterpret_cast<uint8_t *>( address ) >= _alignedData ) {
                 auto pos = _allocatedChunk.find( static_cast<size_t>( reinterpret_cast<uint8_t *>( address ) - _alignedData ) );
 
                 if ( pos != _allocatedChunk.end() ) {
                     _freeChunk[pos->second].insert( pos->first );
-                    _merge( pos->first, pos->second );
+
+                    const size_t offset = pos->first;
+                    const uint8_t level = pos->second;
                     _allocatedChunk.erase( pos );
-                    _lock.unlock();
+                    _merge( offset, level );
                     return;
                 }
             }
-            _lock.unlock();
+            lock.unlock();
 
             delete[] address;
         }
diff --git a/src/memory/memory_allocator.h b/src/memory/memory_allocator.h
index 38a8646..aca3009 100644
--- a/src/memory/memory_allocator.h
+++ b/src/memory/memory_allocator.h
@@ -115,8 +115,16 @@ protected:
 
             for ( ; startLevel > from; --startLevel, memorySize >>= 1 ) {
                 const size_t previousLevelValue = *_freeChunk[startLevel].begin();
-                _freeChunk[startLevel - 1u].insert( previousLevelValue );
-                _freeChunk[startLevel - 1u].insert( previousLevelValue + memorySize );
+                std::set<size_t> & lowerLevel = _freeChunk[startLevel - 1u];
+                const std::set<size_t>::iterator secondHalf = lowerLevel.insert( previousLevelValue + memorySize ).first;
+                try {
+                    lowerLevel.insert( previousLevelValue );
+                }
+                catch ( ... ) {
+                    // a chunk must not belong to 2 levels at the same time
+                    lowerLevel.erase( secondHalf );
+                    throw;
+                }
                 _freeChunk[startLevel].erase( _freeChunk[startLevel].begin() );
             }
         }
-- 
2.43.0


From e1d47dc6365380cafb743a0a0b00aaebb97890f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 035/142] fix: refuse to reserve more memory than addressable
 instead of overflow

---
 src/memory/cpu_memory.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 7c769a7..e193a72 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -23,6 +23,7 @@
 #include "memory_allocator.h"
 #include <map>
 #include <mutex>
+#include <new>
 
 namespace cpu_Memory
 {
@@ -117,9 +118,13 @@ namespace cpu_Memory
                     throw std::logic_error( "Cannot free a memory on CPU. Not all objects were previously deallocated from allocator." );
                 }
 
+                const size_t alignment = 32u; // AVX alignment requirement
+                if ( size > SIZE_MAX - alignment ) {
+                    throw std::bad_alloc();
+                }
+
                 _free();
 
-                const size_t alignment = 32u; // AVX alignment requirement
                 _data = new uint8_t[size + alignment];
                 const std::uintptr_t dataAddress = reinterpret_cast<std::uintptr_t>( _data );
                 _alignedData = ( ( dataAddress % alignment ) == 0 ) ? _data : _data + ( alignment - ( dataAddress % alignment ) );
-- 
2.43.0


From f9b73cd1dd41835105b0ec121b20033caedeb223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 036/142] fix: use the y coordinate of the end point of the
 longest distance within a blob

---
 src/blob_detection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index a9d6e3a..a2c5926 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -64,7 +64,7 @@ namespace
                     startPoint.y = *y;
 
                     endPoint.x = *xx;
-                    endPoint.y = *xx;
+                    endPoint.y = *yy;
                 }
             }
         }
-- 
2.43.0


From 93be6201e7acb9491c04188e7cdffc959ec9554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 037/142] fix: length and elongation of blobs used wrapping
 differences of coordinates

---
 src/blob_detection.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index a2c5926..2ff6771 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -47,15 +47,16 @@ namespace
         auto y = contourY.cbegin();
         auto end = contourX.cend();
 
-        int32_t maximumDistance = 0;
+        int64_t maximumDistance = 0;
 
         for ( ; x != ( end - 1 ); ++x, ++y ) {
             auto xx = x + 1;
             auto yy = y + 1;
 
             for ( ; xx != end; ++xx, ++yy ) {
-                const int32_t distance
-                    = static_cast<int32_t>( *x - *xx ) * static_cast<int32_t>( *x - *xx ) + static_cast<int32_t>( *y - *yy ) * static_cast<int32_t>( *y - *yy );
+                const int64_t xDiff = static_cast<int64_t>( *x ) - static_cast<int64_t>( *xx );
+                const int64_t yDiff = static_cast<int64_t>( *y ) - static_cast<int64_t>( *yy );
+                const int64_t distance = xDiff * xDiff + yDiff * yDiff;
 
                 if ( maximumDistance < distance ) {
                     maximumDistance = distance;
@@ -126,7 +127,8 @@ namespace Blob_Detection
                 PointBase2D<uint32_t> startPoint;
                 PointBase2D<uint32_t> endPoint;
                 const double length = getLengthFromCountour( _contourX, _contourY, startPoint, endPoint );
-                const double angle = -atan2( static_cast<double>( endPoint.y - startPoint.y ), static_cast<double>( endPoint.x - startPoint.x ) );
+                const double angle = -atan2( static_cast<double>( endPoint.y ) - static_cast<double>( startPoint.y ),
+                                             static_cast<double>( endPoint.x ) - static_cast<double>( startPoint.x ) );
 
                 const double _cos = cos( angle );
                 const double _sin = sin( angle );
@@ -138,7 +140,7 @@ namespace Blob_Detection
                 auto endRotated = _contourX.end();
 
                 for ( ; xRotated != endRotated; ++xRotated, ++yRotated ) {
-                    ( *yRotated ) = ( *xRotated - startPoint.x ) * _sin + ( *yRotated - startPoint.y ) * _cos;
+                    ( *yRotated ) = ( static_cast<double>( *xRotated ) - startPoint.x ) * _sin + ( *yRotated - startPoint.y ) * _cos;
                 }
 
                 double height = *( std::max_element( contourYTemp.begin(), contourYTemp.end() ) ) - *( std::min_element( contourYTemp.begin(), contourYTemp.end() ) );
-- 
2.43.0


From 247a7c7e71cdace6ecd71ca49121d19b494208c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 038/142] fix: the sum of coordinates of a big blob overflowed
 while calculating its center

---
 src/blob_detection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index 2ff6771..4d95f49 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -91,8 +91,8 @@ namespace Blob_Detection
     void BlobInfo::_getCenter()
     {
         if ( !_center.found && !_pointX.empty() && !_pointY.empty() ) {
-            _center.value.x = static_cast<double>( std::accumulate( _pointX.begin(), _pointX.end(), 0 ) ) / static_cast<double>( size() );
-            _center.value.y = static_cast<double>( std::accumulate( _pointY.begin(), _pointY.end(), 0 ) ) / static_cast<double>( size() );
+            _center.value.x = std::accumulate( _pointX.begin(), _pointX.end(), 0.0 ) / static_cast<double>( size() );
+            _center.value.y = std::accumulate( _pointY.begin(), _pointY.end(), 0.0 ) / static_cast<double>( size() );
 
             _center.found = true;
         }
-- 
2.43.0


From 19c85733a6c2b5bb29765078f005aa126c27f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 039/142] fix: blob measurements which are not calculated had
 indeterminate values

---
 src/blob_detection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blob_detection.h b/src/blob_detection.h
index 41bf86e..433ff58 100644
--- a/src/blob_detection.h
+++ b/src/blob_detection.h
@@ -138,7 +138,7 @@ namespace Blob_Detection
     template <typename Data>
     struct Value
     {
-        Data value;
+        Data value{};
         bool found{ false };
     };
 
-- 
2.43.0


From f15b35d15464dbcd842fc75d84492a3ddd563252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 040/142] fix: a large contrast check offset overflowed and led
 to reading outside of the data

---
 src/edge_detection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edge_detection.cpp b/src/edge_detection.cpp
index 03c3ac4..5e0a6ec 100644
--- a/src/edge_detection.cpp
+++ b/src/edge_detection.cpp
@@ -87,7 +87,7 @@ namespace
             return false;
         }
 
-        if ( checkContrast && leftSideContrastCheck <= position && ( rightSideContrastCheck + position ) < size ) {
+        if ( checkContrast && leftSideContrastCheck <= position && rightSideContrastCheck < size - position ) {
             const uint32_t blackContrastEnd = position;
             const uint32_t whiteContrastStart = position + 1;
 
-- 
2.43.0


From c095576289bcf7af5286dd2e3d27d99d219a205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 041/142] fix: edge detection read outside of the image if the
 group factor is bigger than the number of lines

---
 src/edge_detection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edge_detection.cpp b/src/edge_detection.cpp
index 5e0a6ec..7fe87f9 100644
--- a/src/edge_detection.cpp
+++ b/src/edge_detection.cpp
@@ -268,6 +268,11 @@ namespace
             return;
         }
 
+        // there are not enough lines to form a single group
+        if ( edgeParameter.groupFactor > ( horizontalEdgeDetectionBase ? height : width ) ) {
+            return;
+        }
+
         const uint32_t rowSize = image.rowSize();
 
         if ( horizontalEdgeDetectionBase ) {
-- 
2.43.0


From 3bbdba3f228343e12a7f1bf851f54b63fba0ed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 042/142] fix: Gaussian kernel consisted of invalid values for
 zero sigma; too big kernel sizes were accepted

---
 src/filtering.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/filtering.cpp b/src/filtering.cpp
index 3d95200..2db23f1 100644
--- a/src/filtering.cpp
+++ b/src/filtering.cpp
@@ -352,20 +352,18 @@ namespace Image_Function
 
     void GetGaussianKernel( std::vector<float> & filter, uint32_t width, uint32_t height, uint32_t kernelSize, float sigma )
     {
-        if ( width < 3 || height < 3 || kernelSize == 0 || width < ( kernelSize * 2 + 1 ) || height < ( kernelSize * 2 + 1 ) || sigma < 0 )
+        if ( width < 3 || height < 3 || kernelSize == 0 || kernelSize > ( width - 1 ) / 2 || kernelSize > ( height - 1 ) / 2 || !( sigma > 0 ) )
             throw penguinVException( "Incorrect input parameters for Gaussian filter kernel" );
 
-        filter.resize( width * height );
+        filter.resize( static_cast<size_t>( width ) * height );
 
         std::fill( filter.begin(), filter.end(), 0.0f );
 
-        static const float pi = 3.1415926536f;
         const float doubleSigma = sigma * 2;
-        const float doubleSigmaPiInv = 1.0f / ( doubleSigma * pi );
         const uint32_t twiceKernelSizePlusOne = 2 * kernelSize + 1;
 
-        float * y = filter.data() + ( height / 2 - kernelSize ) * width + width / 2 - kernelSize;
-        const float * endY = y + twiceKernelSizePlusOne * width;
+        float * y = filter.data() + static_cast<size_t>( height / 2 - kernelSize ) * width + width / 2 - kernelSize;
+        const float * endY = y + static_cast<size_t>( twiceKernelSizePlusOne ) * width;
 
         float sum = 0;
 
@@ -375,14 +373,14 @@ namespace Image_Function
             const int32_t posY2 = posY * posY;
 
             for ( int32_t posX = -static_cast<int32_t>( kernelSize ); x != endX; ++x, ++posX ) {
-                *x = doubleSigmaPiInv * expf( -static_cast<float>( posX * posX + posY2 ) / doubleSigma );
+                *x = expf( -static_cast<float>( posX * posX + posY2 ) / doubleSigma );
                 sum += *x;
             }
         }
 
         const float normalization = 1.0f / sum;
 
-        y = filter.data() + ( height / 2 - kernelSize ) * width + width / 2 - kernelSize;
+        y = filter.data() + static_cast<size_t>( height / 2 - kernelSize ) * width + width / 2 - kernelSize;
 
         for ( int32_t posY = -static_cast<int32_t>( kernelSize ); y != endY; y += width, ++posY ) {
             float * x = y;
-- 
2.43.0


From d4effeecb637b85845a30b1403120c72eef7c60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 043/142] fix: swapping of quadrants wrote outside of the image
 and lost pixels for odd sizes

---
 src/fft.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index 24cf13b..e486fe0 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -112,12 +112,12 @@ namespace FFT
         const uint32_t middleY = _height / 2;
 
         for ( uint32_t inY = 0; inY < _height; ++inY ) {
-            const uint32_t outY = ( inY < middleY ) ? middleY + inY : inY - middleY;
+            const uint32_t outY = ( inY < _height - middleY ) ? middleY + inY : inY - ( _height - middleY );
 
             const uint32_t posYIn = inY * _width;
             const uint32_t posYOut = outY * _width;
             for ( uint32_t inX = 0; inX < _width; ++inX ) {
-                const uint32_t outX = ( inX < middleX ) ? middleX + inX : inX - middleX;
+                const uint32_t outX = ( inX < _width - middleX ) ? middleX + inX : inX - ( _width - middleX );
                 out[posYOut + outX] = static_cast<uint8_t>( _data[posYIn + inX].r / static_cast<float>( size ) + 0.5 );
             }
         }
-- 
2.43.0


From b32b30b4448ffe5e02f1b5f8a518c51d7631ee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 044/142] fix: complex data outside of the range of pixel
 values was converted with undefined result

---
 src/fft.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index e486fe0..3a4aa3d 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -118,7 +118,8 @@ namespace FFT
             const uint32_t posYOut = outY * _width;
             for ( uint32_t inX = 0; inX < _width; ++inX ) {
                 const uint32_t outX = ( inX < _width - middleX ) ? middleX + inX : inX - ( _width - middleX );
-                out[posYOut + outX] = static_cast<uint8_t>( _data[posYIn + inX].r / static_cast<float>( size ) + 0.5 );
+                const double value = _data[posYIn + inX].r / static_cast<float>( size ) + 0.5;
+                out[posYOut + outX] = ( value >= 255 ) ? static_cast<uint8_t>( 255 ) : ( value > 0 ? static_cast<uint8_t>( value ) : static_cast<uint8_t>( 0 ) );
             }
         }
 
-- 
2.43.0


From b2e7412c32f93e3b40ef6982919106e96bcc0267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 045/142] fix: Fourier transform of a non-square image used
 exchanged dimensions

---
 src/fft.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index 3a4aa3d..ca068e1 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -203,7 +203,7 @@ namespace FFT
 
     void FFTExecutor::_makePlans()
     {
-        const int dims[2] = { static_cast<int>( _width ), static_cast<int>( _height ) };
+        const int dims[2] = { static_cast<int>( _height ), static_cast<int>( _width ) }; // the last dimension is the one which is continuous in memory
         _planDirect = kiss_fftnd_alloc( dims, 2, false, 0, 0 );
         _planInverse = kiss_fftnd_alloc( dims, 2, true, 0, 0 );
     }
-- 
2.43.0


From b76cec4792977e6b60c1776fabcb7743bf5dd029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 046/142] fix: it was impossible to create FFTExecutor with
 default parameters

---
 src/fft.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index ca068e1..d13c2bf 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -145,7 +145,8 @@ namespace FFT
         : _planDirect( 0 )
         , _planInverse( 0 )
     {
-        initialize( width_, height_ );
+        if ( width_ != 0u || height_ != 0u )
+            initialize( width_, height_ );
     }
 
     FFTExecutor::~FFTExecutor()
-- 
2.43.0


From 720ac710a745bed3166a5042d21771d44119b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 047/142] fix: complex data assigned to itself was lost

---
 src/math/fft_base.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math/fft_base.h b/src/math/fft_base.h
index 37f8608..e88eeb3 100644
--- a/src/math/fft_base.h
+++ b/src/math/fft_base.h
@@ -131,6 +131,9 @@ namespace FFT
 
         void _copy( const BaseComplexData & data )
         {
+            if ( this == &data )
+                return;
+
             _clean();
 
             resize( data._width, data._height );
-- 
2.43.0


From 752ebfdb05cad9de65e9985e663b318ca63821cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 048/142] fix: comparison of lines did not compile

---
 src/math/math_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/math_base.h b/src/math/math_base.h
index cfbedc9..56d4ec0 100644
--- a/src/math/math_base.h
+++ b/src/math/math_base.h
@@ -194,7 +194,7 @@ public:
 
     bool operator==( const LineBase2D & line ) const
     {
-        return parallel( line ) && pvmath::isEqual<_Type>( distance( line._position ), 0 );
+        return isParallel( line ) && pvmath::isEqual<_Type>( distance( line._position ), 0 );
     }
 
     // This is translation (shift) function
-- 
2.43.0


From 3a0e157aaf311e20878e324bf9b4e75859dcd30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 049/142] fix: inequality of 3D points ignored their z
 coordinate

---
 src/math/math_base.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math/math_base.h b/src/math/math_base.h
index 56d4ec0..84dbe29 100644
--- a/src/math/math_base.h
+++ b/src/math/math_base.h
@@ -137,6 +137,11 @@ struct PointBase3D : public PointBase2D<_Type>
         return PointBase2D<_Type>::operator==( point ) && pvmath::isEqual( z, point.z );
     }
 
+    bool operator!=( const PointBase3D & point ) const
+    {
+        return !( *this == point );
+    }
+
     PointBase3D & operator+=( const PointBase3D & point )
     {
         PointBase2D<_Type>::operator+=( point );
-- 
2.43.0


From a414ffd512a110b2ba80cf1bed7859f2624dde30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 050/142] fix: getMatrixRoots wrote outside of the output
 vector

---
 src/math/math_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/math_base.cpp b/src/math/math_base.cpp
index ac870f2..ec90899 100644
--- a/src/math/math_base.cpp
+++ b/src/math/math_base.cpp
@@ -137,6 +137,7 @@ namespace pvmath
         }
 
         // Results
+        roots.resize( size );
         for ( size_t i = 0; i < size; ++i )
             roots[matrixIndices[i + i * size]] = unsortedRoots[i];
     }
-- 
2.43.0


From 70e8acc733ddc5a8df05f989426e2ba4eacf3571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 051/142] fix: double precision Haar transform used a single
 precision coefficient

---
 src/math/haar_transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/haar_transform.cpp b/src/math/haar_transform.cpp
index 7332d8a..fda5b17 100644
--- a/src/math/haar_transform.cpp
+++ b/src/math/haar_transform.cpp
@@ -39,7 +39,7 @@ namespace
         // a =  x * (1 / sqrt(2)) + y * (1 / sqrt(2)) = (y + x) * (1 / sqrt(2))
         // b = -x * (1 / sqrt(2)) + y * (1 / sqrt(2)) = (y - x) * (1 / sqrt(2))
 
-        const _Type coefficient = 1.0f / std::sqrt( 2.0f );
+        const _Type coefficient = static_cast<_Type>( 1.0 / std::sqrt( 2.0 ) );
         std::vector<_Type> temp( input.size() );
 
         // Transform by X
@@ -91,7 +91,7 @@ namespace
         // a = x * (1 / sqrt(2)) - y * (1 / sqrt(2)) = (x - y) * (1 / sqrt(2))
         // b = x * (1 / sqrt(2)) + y * (1 / sqrt(2)) = (x + y) * (1 / sqrt(2))
 
-        const _Type coefficient = 1.0f / std::sqrt( 2.0f );
+        const _Type coefficient = static_cast<_Type>( 1.0 / std::sqrt( 2.0 ) );
         std::vector<_Type> temp( input.size() );
 
         // Transform by X
-- 
2.43.0


From 811c6927d2e6d44bc68d5c11adceb0741ced83d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 052/142] fix: light correction used uninitialized size of data
 before an analysis

---
 src/tool/light_correction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool/light_correction.h b/src/tool/light_correction.h
index c5daff1..846eb4e 100644
--- a/src/tool/light_correction.h
+++ b/src/tool/light_correction.h
@@ -38,6 +38,6 @@ public:
 
 private:
     std::vector<uint32_t> _data;
-    uint32_t _width;
-    uint32_t _height;
+    uint32_t _width{ 0 };
+    uint32_t _height{ 0 };
 };
-- 
2.43.0


From 6b094277ae78ad20f4b2005864bfffecac17f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 053/142] fix: light correction of a region outside of the
 analyzed image read foreign memory

---
 src/tool/light_correction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index 828ec22..32f23dd 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -85,6 +85,9 @@ void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y,
     if ( _width == 0 || _height == 0 )
         throw penguinVException( "Image is not being analyzed before calling correction. Analyze first." );
 
+    if ( x > _width || width > _width - x || y > _height || height > _height - y )
+        throw penguinVException( "A region for correction is outside of the analyzed image." );
+
     const uint32_t rowSize = image.rowSize();
 
     uint8_t * imageY = image.data() + y * rowSize + x;
-- 
2.43.0


From caef7700d0fff929f55adf3c0d13a64f028c1d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 054/142] fix: light correction processed only a part of every
 row of colour images

---
 src/tool/light_correction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index 32f23dd..dfd63f9 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -24,6 +24,7 @@
 void LightCorrection::analyze( const penguinV::Image & image )
 {
     Image_Function::ValidateImageParameters( image );
+    Image_Function::VerifyGrayScaleImage( image );
 
     _width = image.width();
     _height = image.height();
@@ -82,6 +83,7 @@ void LightCorrection::correct( penguinV::Image & image ) const
 void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height ) const
 {
     Image_Function::ValidateImageParameters( image, x, y, width, height );
+    Image_Function::VerifyGrayScaleImage( image );
     if ( _width == 0 || _height == 0 )
         throw penguinVException( "Image is not being analyzed before calling correction. Analyze first." );
 
-- 
2.43.0


From f3e640329de218a665a39d459d812495ad7e7fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 055/142] fix: a refused analysis left light correction with
 new sizes and old data

---
 src/tool/light_correction.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index dfd63f9..89a454d 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -26,21 +26,19 @@ void LightCorrection::analyze( const penguinV::Image & image )
     Image_Function::ValidateImageParameters( image );
     Image_Function::VerifyGrayScaleImage( image );
 
-    _width = image.width();
-    _height = image.height();
-
-    _data.resize( _width * _height );
+    const uint32_t width = image.width();
+    const uint32_t height = image.height();
 
     uint8_t minValue = 255u;
     uint8_t maxValue = 0u;
 
     const uint32_t rowSize = image.rowSize();
     const uint8_t * imageY = image.data();
-    const uint8_t * imageYEnd = imageY + _height * rowSize;
+    const uint8_t * imageYEnd = imageY + height * rowSize;
 
     for ( ; imageY != imageYEnd; imageY += rowSize ) {
         const uint8_t * imageX = imageY;
-        const uint8_t * imageXEnd = imageX + _width;
+        const uint8_t * imageXEnd = imageX + width;
 
         for ( ; imageX != imageXEnd; ++imageX ) {
             if ( ( *imageX ) < minValue && ( *imageX ) > 0 )
@@ -54,13 +52,17 @@ void LightCorrection::analyze( const penguinV::Image & image )
     if ( minValue >= maxValue )
         throw penguinVException( "Image in invalid. Minimum value cannot be greater or equal to maximum value." );
 
+    _data.resize( static_cast<size_t>( width ) * height );
+    _width = width;
+    _height = height;
+
     imageY = image.data();
-    imageYEnd = imageY + _height * rowSize;
+    imageYEnd = imageY + height * rowSize;
     uint32_t * data = _data.data();
 
     for ( ; imageY != imageYEnd; imageY += rowSize ) {
         const uint8_t * imageX = imageY;
-        const uint8_t * imageXEnd = imageX + _width;
+        const uint8_t * imageXEnd = imageX + width;
 
         for ( ; imageX != imageXEnd; ++imageX, ++data ) {
             if ( ( *imageX ) > maxValue )
-- 
2.43.0


From 4f0b28c2079642d02949e6621eda79b936686095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 056/142] fix: findIncorrectPixels used the size of the
 analyzed image for any image

---
 src/tool/light_correction.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index 89a454d..c808014 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -116,15 +116,18 @@ void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y,
 
 std::vector<PointBase2D<uint32_t>> LightCorrection::findIncorrectPixels( const penguinV::Image & image ) const
 {
+    Image_Function::ValidateImageParameters( image );
+    Image_Function::VerifyGrayScaleImage( image );
+
     std::vector<PointBase2D<uint32_t>> point;
 
     const uint32_t rowSize = image.rowSize();
     const uint8_t * imageY = image.data();
-    const uint8_t * imageYEnd = imageY + _height * rowSize;
+    const uint8_t * imageYEnd = imageY + image.height() * rowSize;
 
     for ( uint32_t y = 0; imageY != imageYEnd; imageY += rowSize, ++y ) {
         const uint8_t * imageX = imageY;
-        const uint8_t * imageXEnd = imageX + _width;
+        const uint8_t * imageXEnd = imageX + image.width();
 
         for ( uint32_t x = 0; imageX != imageXEnd; ++imageX, ++x ) {
             if ( ( ( *imageX ) == 0u ) || ( ( *imageX ) == 255u ) )
-- 
2.43.0


From e6a99c28ad7fb1cd70ffd1b07a020fe2476f5874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 057/142] fix: misaligned access to values of bitmap headers

---
 src/file/bmp_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 1fb3550..ed6ad4c 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -71,7 +71,7 @@ namespace Bitmap_Operation
     template <typename valueType>
     void get_value( const std::vector<uint8_t> & data, size_t & offset, valueType & value )
     {
-        value = *( reinterpret_cast<const valueType *>( data.data() + offset ) );
+        memcpy( reinterpret_cast<uint8_t *>( &value ), data.data() + offset, sizeof( valueType ) );
         offset += sizeof( valueType );
     }
 
-- 
2.43.0


From a351caec2a786432070eaa0a5993e40a7e1a64c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 058/142] fix: overflow of bitmap height

---
 src/file/bmp_image.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index ed6ad4c..9ec08ba 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -22,6 +22,7 @@
 #include "../parameter_validation.h"
 #include "../penguinv_exception.h"
 #include <fstream>
+#include <limits>
 #include <memory>
 #include <vector>
 
@@ -284,7 +285,8 @@ namespace Bitmap_Operation
             get_value( data, offset, biClrImportant );
 
             if ( biHeight < 0 ) {
-                biHeight = -biHeight;
+                if ( biHeight != std::numeric_limits<int32_t>::min() ) // this value has no positive counterpart, it is refused by validation
+                    biHeight = -biHeight;
                 flipped = false;
             }
             else {
-- 
2.43.0


From 923f221f65e4067662b1b0d51db49506d0b9a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 059/142] fix: overflows of bitmap size allowed to load less
 data than an image needs

---
 src/file/bmp_image.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 9ec08ba..1c3e226 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -362,12 +362,12 @@ namespace Bitmap_Operation
 
         virtual bool validate( const BitmapFileHeader & header ) const
         {
-            uint32_t rowSize = width() * colorCount();
+            uint64_t rowSize = static_cast<uint64_t>( width() ) * colorCount();
             if ( rowSize % BITMAP_ALIGNMENT != 0 )
                 rowSize = ( rowSize / BITMAP_ALIGNMENT + 1 ) * BITMAP_ALIGNMENT;
 
             return !( biBitCount == 8u || biBitCount == 24u || biBitCount == 32u ) || biWidth <= 0 || biHeight <= 0 || biSize != BitmapInfoHeader().biSize
-                   || ( biSizeImage != rowSize * static_cast<uint32_t>( biHeight ) && biSizeImage != 0 ) || biPlanes != BitmapInfoHeader().biPlanes
+                   || ( biSizeImage != rowSize * static_cast<uint64_t>( biHeight ) && biSizeImage != 0 ) || biPlanes != BitmapInfoHeader().biPlanes
                    || header.bfOffBits < overallSize + header.overallSize;
         }
     };
@@ -442,11 +442,13 @@ namespace Bitmap_Operation
         if ( info->validate( header ) )
             return penguinV::Image();
 
-        uint32_t rowSize = info->width() * info->colorCount();
+        uint64_t rowSize = static_cast<uint64_t>( info->width() ) * info->colorCount();
         if ( rowSize % BITMAP_ALIGNMENT != 0 )
             rowSize = ( rowSize / BITMAP_ALIGNMENT + 1 ) * BITMAP_ALIGNMENT;
 
-        if ( length != header.bfOffBits + rowSize * info->height() )
+        // both factors are limited by 2^34 and 2^31 so there is no overflow while they are compared by division
+        const uint64_t dataLength = static_cast<uint64_t>( length ) - header.bfOffBits;
+        if ( dataLength % rowSize != 0 || dataLength / rowSize != info->height() )
             return penguinV::Image();
 
         const uint32_t palleteSize = header.bfOffBits - info->size() - header.overallSize;
@@ -481,7 +483,7 @@ namespace Bitmap_Operation
 
         penguinV::Image image( info->width(), info->height(), info->colorCount(), BITMAP_ALIGNMENT );
 
-        size_t dataToRead = static_cast<size_t>( rowSize ) * info->height();
+        size_t dataToRead = static_cast<size_t>( dataLength );
         size_t dataReaded = 0;
 
         const size_t blockSize = 4 * 1024 * 1024; // read by 4 MB blocks
-- 
2.43.0


From f3a569cdd69caeff6bb33e5bd6d523e902b79b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 060/142] fix: one row of 256 colour bitmap images was not
 converted

---
 src/file/bmp_image.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 1c3e226..1dcfe79 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -503,7 +503,7 @@ namespace Bitmap_Operation
             const uint8_t * inYEnd = image.data();
             uint8_t * outY = image.data() + image.rowSize() * ( image.height() - 1 );
 
-            for ( ; inY != inYEnd; inY -= rowSize, outY -= image.rowSize() ) {
+            for ( ;; inY -= rowSize, outY -= image.rowSize() ) {
                 const uint8_t * inX = inY + ( info->width() - 1u );
                 const uint8_t * inXEnd = inY;
                 uint8_t * outX = outY + 3u * ( image.width() - 1u );
@@ -517,6 +517,9 @@ namespace Bitmap_Operation
                     if ( inX == inXEnd ) // this is done to count first pixel in row
                         break;
                 }
+
+                if ( inY == inYEnd ) // this is done to count first row
+                    break;
             }
         }
 
-- 
2.43.0


From 35de02fc76ce393c42b9c27720e24bee9994b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 061/142] fix: bitmap files of tiny images were refused

---
 src/file/bmp_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 1dcfe79..4ccd37a 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -398,7 +398,7 @@ namespace Bitmap_Operation
         file.seekg( 0, file.end );
         std::streamoff length = file.tellg();
 
-        if ( length == std::char_traits<char>::pos_type( -1 ) || static_cast<size_t>( length ) < sizeof( BitmapFileHeader ) + sizeof( BitmapInfoHeader ) )
+        if ( length == std::char_traits<char>::pos_type( -1 ) || static_cast<size_t>( length ) < BitmapFileHeader().overallSize + BitmapCoreHeader().overallSize )
             return penguinV::Image();
 
         file.seekg( 0, file.beg );
-- 
2.43.0


From c690a2998eada1d676c76998983bb1ede088d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 062/142] fix: overflow of raw image size allowed to load less
 data than an image needs

---
 src/file/raw_image.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/file/raw_image.h b/src/file/raw_image.h
index e7c7bda..98c6526 100644
--- a/src/file/raw_image.h
+++ b/src/file/raw_image.h
@@ -40,16 +40,16 @@ namespace Raw_Operation
         file.seekg( 0, file.end );
         std::streamoff length = file.tellg();
 
-        const uint32_t overallImageSize = width * height * colorCount * static_cast<uint32_t>( sizeof( _Type ) );
+        const uint64_t rowSize = static_cast<uint64_t>( width ) * colorCount * sizeof( _Type );
 
-        if ( length != overallImageSize )
+        if ( length < 0 || static_cast<uint64_t>( length ) % rowSize != 0 || static_cast<uint64_t>( length ) / rowSize != height )
             return penguinV::ImageTemplate<_Type>();
 
         file.seekg( 0, file.beg );
 
         penguinV::ImageTemplate<_Type> image( width, height, colorCount );
 
-        size_t dataToRead = overallImageSize;
+        size_t dataToRead = static_cast<size_t>( length );
         size_t dataReaded = 0;
 
         const size_t blockSize = 4 * 1024 * 1024; // read by 4 MB blocks
-- 
2.43.0


From 3c6d99af7c3632f7d4cd5e8210e63d93578fe68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 063/142] fix: saved raw images with row padding could not be
 loaded

---
 src/file/raw_image.h | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/file/raw_image.h b/src/file/raw_image.h
index 98c6526..5bdcd15 100644
--- a/src/file/raw_image.h
+++ b/src/file/raw_image.h
@@ -78,22 +78,16 @@ namespace Raw_Operation
         if ( !file )
             throw penguinVException( "Cannot create file for saving" );
 
-        size_t dataToWrite = sizeof( _Type ) * image.rowSize() * image.height();
-        size_t dataWritten = 0;
+        // rows are written without padding as it is expected during loading
+        const size_t rowLength = sizeof( _Type ) * image.width() * image.colorCount();
 
-        const size_t blockSize = 4 * 1024 * 1024; // read by 4 MB blocks
-
-        const char * output = reinterpret_cast<const char *>( image.data() );
-        while ( dataToWrite > 0 ) {
-            size_t writeSize = dataToWrite > blockSize ? blockSize : dataToWrite;
-
-            file.write( output + dataWritten, static_cast<std::streamsize>( writeSize ) );
-            file.flush();
-
-            dataWritten += writeSize;
-            dataToWrite -= writeSize;
+        for ( uint32_t y = 0; y < image.height(); ++y ) {
+            const _Type * row = image.data() + static_cast<size_t>( image.rowSize() ) * y;
+            file.write( reinterpret_cast<const char *>( row ), static_cast<std::streamsize>( rowLength ) );
         }
 
+        file.flush();
+
         if ( !file )
             throw penguinVException( "failed to write data into file" );
     }
-- 
2.43.0


From 8d307a32473bb75d1dfb682391e89028449ae645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 064/142] fix: a corrupt PNG file terminated the process;
 resources were lost on errors

---
 src/file/png_image.cpp | 130 ++++++++++++++++++++++++++---------------
 1 file changed, 83 insertions(+), 47 deletions(-)

diff --git a/src/file/png_image.cpp b/src/file/png_image.cpp
index adc71bb..279e5de 100644
--- a/src/file/png_image.cpp
+++ b/src/file/png_image.cpp
@@ -51,11 +51,49 @@ namespace Png_Operation
 
 #else
 
+#include <memory>
 #include <png.h>
 #include <stdlib.h>
+#include <vector>
 
 #include "../parameter_validation.h"
 
+namespace
+{
+    // These classes release all resources regardless of the way how a function ends
+    struct PngReader
+    {
+        FILE * file{ nullptr };
+        png_structp png{ nullptr };
+        png_infop info{ nullptr };
+
+        ~PngReader()
+        {
+            if ( png )
+                png_destroy_read_struct( &png, info ? &info : nullptr, nullptr );
+
+            if ( file )
+                fclose( file );
+        }
+    };
+
+    struct PngWriter
+    {
+        FILE * file{ nullptr };
+        png_structp png{ nullptr };
+        png_infop info{ nullptr };
+
+        ~PngWriter()
+        {
+            if ( png )
+                png_destroy_write_struct( &png, info ? &info : nullptr );
+
+            if ( file )
+                fclose( file );
+        }
+    };
+}
+
 namespace Png_Operation
 {
     penguinV::Image Load( const std::string & path )
@@ -63,23 +101,30 @@ namespace Png_Operation
         if ( path.empty() )
             throw penguinVException( "Incorrect file path for image file loading" );
 
-        FILE * file = fopen( path.data(), "rb" );
-        if ( !file )
+        PngReader reader;
+        std::unique_ptr<uint8_t[]> data;
+        std::vector<uint8_t *> rows;
+
+        reader.file = fopen( path.data(), "rb" );
+        if ( !reader.file )
             return penguinV::Image();
 
-        png_structp png = png_create_read_struct( PNG_LIBPNG_VER_STRING, NULL, NULL, NULL );
-        if ( !png ) {
-            fclose( file );
+        reader.png = png_create_read_struct( PNG_LIBPNG_VER_STRING, NULL, NULL, NULL );
+        if ( !reader.png )
             return penguinV::Image();
-        }
 
-        png_infop info = png_create_info_struct( png );
-        if ( !info ) {
-            fclose( file );
+        reader.info = png_create_info_struct( reader.png );
+        if ( !reader.info )
+            return penguinV::Image();
+
+        png_structp png = reader.png;
+        png_infop info = reader.info;
+
+        // libpng jumps here in case of any error
+        if ( setjmp( png_jmpbuf( png ) ) )
             return penguinV::Image();
-        }
 
-        png_init_io( png, file );
+        png_init_io( png, reader.file );
         png_read_info( png, info );
 
         const uint32_t width = static_cast<uint32_t>( png_get_image_width( png, info ) );
@@ -109,14 +154,15 @@ namespace Png_Operation
 
         png_read_update_info( png, info );
 
-        uint8_t ** row_pointers = reinterpret_cast<uint8_t **>( malloc( sizeof( uint8_t * ) * height ) );
-
         const size_t rowByteCount = png_get_rowbytes( png, info );
 
+        data.reset( new uint8_t[rowByteCount * height] );
+        rows.resize( height );
+
         for ( uint32_t y = 0; y < height; ++y )
-            row_pointers[y] = reinterpret_cast<uint8_t *>( malloc( rowByteCount ) );
+            rows[y] = data.get() + rowByteCount * y;
 
-        png_read_image( png, row_pointers );
+        png_read_image( png, rows.data() );
 
         const bool isGrayScale = ( colorType == PNG_COLOR_TYPE_GRAY || colorType == PNG_COLOR_TYPE_GRAY_ALPHA );
 
@@ -124,7 +170,7 @@ namespace Png_Operation
 
         uint8_t * outY = image.data();
         for ( uint32_t y = 0; y < height; ++y, outY += image.rowSize() ) {
-            const uint8_t * column = row_pointers[y];
+            const uint8_t * column = rows[y];
             uint8_t * outX = outY;
 
             if ( isGrayScale ) {
@@ -140,14 +186,6 @@ namespace Png_Operation
             }
         }
 
-        fclose( file );
-
-        for ( uint32_t y = 0; y < height; ++y )
-            free( row_pointers[y] );
-        free( row_pointers );
-
-        png_destroy_read_struct( &png, &info, NULL );
-
         return image;
     }
 
@@ -165,19 +203,29 @@ namespace Png_Operation
     {
         Image_Function::ValidateImageParameters( image, startX, startY, width, height );
 
-        FILE * file = fopen( path.data(), "wb" );
-        if ( !file )
+        PngWriter writer;
+        std::vector<uint8_t> row;
+
+        writer.file = fopen( path.data(), "wb" );
+        if ( !writer.file )
             throw penguinVException( "Cannot create file for saving" );
 
-        png_structp png = png_create_write_struct( PNG_LIBPNG_VER_STRING, NULL, NULL, NULL );
-        if ( !png )
+        writer.png = png_create_write_struct( PNG_LIBPNG_VER_STRING, NULL, NULL, NULL );
+        if ( !writer.png )
             throw penguinVException( "Cannot create file for saving" );
 
-        png_infop info = png_create_info_struct( png );
-        if ( !info )
+        writer.info = png_create_info_struct( writer.png );
+        if ( !writer.info )
             throw penguinVException( "Cannot create file for saving" );
 
-        png_init_io( png, file );
+        png_structp png = writer.png;
+        png_infop info = writer.info;
+
+        // libpng jumps here in case of any error
+        if ( setjmp( png_jmpbuf( png ) ) )
+            throw penguinVException( "Failed to write data into file" );
+
+        png_init_io( png, writer.file );
 
         const bool grayScaleImage = image.colorCount() == penguinV::GRAY_SCALE;
 
@@ -187,16 +235,11 @@ namespace Png_Operation
 
         png_write_info( png, info );
 
-        uint8_t ** row_pointers = reinterpret_cast<uint8_t **>( malloc( sizeof( uint8_t * ) * height ) );
-
-        const size_t rowByteCount = png_get_rowbytes( png, info );
-
-        for ( uint32_t y = 0; y < height; ++y )
-            row_pointers[y] = reinterpret_cast<uint8_t *>( malloc( rowByteCount ) );
+        row.resize( png_get_rowbytes( png, info ) );
 
         const uint8_t * outY = image.data() + startY * image.rowSize() + startX * image.colorCount();
         for ( uint32_t y = 0; y < height; ++y, outY += image.rowSize() ) {
-            uint8_t * column = row_pointers[y];
+            uint8_t * column = row.data();
             const uint8_t * outX = outY;
 
             if ( grayScaleImage ) {
@@ -210,18 +253,11 @@ namespace Png_Operation
                     column[0] = *( outX++ );
                 }
             }
+
+            png_write_row( png, row.data() );
         }
 
-        png_write_image( png, row_pointers );
         png_write_end( png, NULL );
-
-        fclose( file );
-
-        for ( uint32_t y = 0; y < height; ++y )
-            free( row_pointers[y] );
-        free( row_pointers );
-
-        png_destroy_write_struct( &png, &info );
     }
 }
 
-- 
2.43.0


From 50adbd3b859313c107c9dae2a34213e33b65d0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 065/142] fix: PNG images with alpha channel were saved with
 displaced values

---
 src/file/png_image.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/file/png_image.cpp b/src/file/png_image.cpp
index 279e5de..6fd5b31 100644
--- a/src/file/png_image.cpp
+++ b/src/file/png_image.cpp
@@ -203,6 +203,9 @@ namespace Png_Operation
     {
         Image_Function::ValidateImageParameters( image, startX, startY, width, height );
 
+        if ( image.colorCount() != penguinV::GRAY_SCALE && image.colorCount() != penguinV::RGB && image.colorCount() != penguinV::RGBA )
+            throw penguinVException( "PNG supports only gray-scale, RGB and RGBA images" );
+
         PngWriter writer;
         std::vector<uint8_t> row;
 
@@ -247,10 +250,12 @@ namespace Png_Operation
                     *column = *( outX++ );
             }
             else {
-                for ( uint32_t x = 0; x < width; ++x, column += 3 ) {
-                    column[2] = *( outX++ );
-                    column[1] = *( outX++ );
-                    column[0] = *( outX++ );
+                const uint8_t colorCount = image.colorCount();
+
+                for ( uint32_t x = 0; x < width; ++x, column += 3, outX += colorCount ) {
+                    column[2] = outX[0];
+                    column[1] = outX[1];
+                    column[0] = outX[2];
                 }
             }
 
-- 
2.43.0


From 695bfcd6bd161b0aabd3d60f6c94e94983dbecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 066/142] fix: a corrupt JPEG file terminated the process;
 resources were lost on errors

---
 src/file/jpeg_image.cpp | 100 ++++++++++++++++++++++++++++++++--------
 1 file changed, 81 insertions(+), 19 deletions(-)

diff --git a/src/file/jpeg_image.cpp b/src/file/jpeg_image.cpp
index a7fb787..adb9ad4 100644
--- a/src/file/jpeg_image.cpp
+++ b/src/file/jpeg_image.cpp
@@ -73,8 +73,68 @@ namespace Jpeg_Operation
 
 #else
 
+#include <csetjmp>
 #include <jerror.h>
 #include <jpeglib.h>
+#include <vector>
+
+namespace
+{
+    struct JpegErrorManager
+    {
+        struct jpeg_error_mgr base; // must be the first member
+        jmp_buf returnPoint;
+    };
+
+    // By default libjpeg terminates the process in case of an error
+    void returnOnError( j_common_ptr info )
+    {
+        longjmp( reinterpret_cast<JpegErrorManager *>( info->err )->returnPoint, 1 );
+    }
+
+    // These classes release all resources regardless of the way how a function ends
+    struct JpegReader
+    {
+        FILE * file{ nullptr };
+        struct jpeg_decompress_struct info = {};
+        JpegErrorManager error = {};
+
+        JpegReader()
+        {
+            info.err = jpeg_std_error( &error.base );
+            error.base.error_exit = returnOnError;
+        }
+
+        ~JpegReader()
+        {
+            jpeg_destroy_decompress( &info );
+
+            if ( file )
+                fclose( file );
+        }
+    };
+
+    struct JpegWriter
+    {
+        FILE * file{ nullptr };
+        struct jpeg_compress_struct info = {};
+        JpegErrorManager error = {};
+
+        JpegWriter()
+        {
+            info.err = jpeg_std_error( &error.base );
+            error.base.error_exit = returnOnError;
+        }
+
+        ~JpegWriter()
+        {
+            jpeg_destroy_compress( &info );
+
+            if ( file )
+                fclose( file );
+        }
+    };
+}
 
 namespace Jpeg_Operation
 {
@@ -83,21 +143,25 @@ namespace Jpeg_Operation
         if ( path.empty() )
             throw penguinVException( "Incorrect parameters for Jpeg image loading" );
 
-        FILE * file = fopen( path.data(), "rb" );
-        if ( file == nullptr )
+        JpegReader reader;
+
+        reader.file = fopen( path.data(), "rb" );
+        if ( reader.file == nullptr )
             throw penguinVException( "Cannot open Jpeg image" );
 
-        struct jpeg_decompress_struct info;
-        struct jpeg_error_mgr error;
-        info.err = jpeg_std_error( &error );
+        // libjpeg jumps here in case of any error
+        if ( setjmp( reader.error.returnPoint ) )
+            throw penguinVException( "Jpeg image is invalid" );
+
+        struct jpeg_decompress_struct & info = reader.info;
         jpeg_create_decompress( &info );
 
-        jpeg_stdio_src( &info, file );
+        jpeg_stdio_src( &info, reader.file );
         jpeg_read_header( &info, TRUE );
 
         jpeg_start_decompress( &info );
 
-        const uint8_t colorCount = ( info.num_components > 0 && info.num_components < 256 ) ? static_cast<uint8_t>( info.num_components ) : 1u;
+        const uint8_t colorCount = ( info.output_components > 0 && info.output_components < 256 ) ? static_cast<uint8_t>( info.output_components ) : 1u;
         image.setColorCount( colorCount );
         image.resize( info.output_width, info.output_height );
 
@@ -108,26 +172,28 @@ namespace Jpeg_Operation
         }
 
         jpeg_finish_decompress( &info );
-        jpeg_destroy_decompress( &info );
-        fclose( file );
     }
 
     void Save( const std::string & path, const penguinV::Image & image, uint32_t startX, uint32_t startY, uint32_t width, uint32_t height )
     {
         Image_Function::ValidateImageParameters( image, startX, startY, width, height );
 
-        FILE * file = fopen( path.data(), "wb" );
-        if ( !file )
+        JpegWriter writer;
+
+        writer.file = fopen( path.data(), "wb" );
+        if ( !writer.file )
             throw penguinVException( "Cannot create file for saving" );
 
-        struct jpeg_compress_struct info;
-        struct jpeg_error_mgr jerr;
+        // libjpeg jumps here in case of any error
+        if ( setjmp( writer.error.returnPoint ) )
+            throw penguinVException( "Failed to write data into file" );
+
+        struct jpeg_compress_struct & info = writer.info;
         JSAMPROW row_pointer[1];
 
-        info.err = jpeg_std_error( &jerr );
         jpeg_create_compress( &info );
 
-        jpeg_stdio_dest( &info, file );
+        jpeg_stdio_dest( &info, writer.file );
 
         info.image_width = width;
         info.image_height = height;
@@ -145,10 +211,6 @@ namespace Jpeg_Operation
         }
 
         jpeg_finish_compress( &info );
-
-        fclose( file );
-
-        jpeg_destroy_compress( &info );
     }
 }
 #endif
-- 
2.43.0


From 3e962dea833d6077f5235bdfa39a4118adc1b0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 067/142] fix: JPEG saving ignored the position of the region

---
 src/file/jpeg_image.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file/jpeg_image.cpp b/src/file/jpeg_image.cpp
index adb9ad4..06c849c 100644
--- a/src/file/jpeg_image.cpp
+++ b/src/file/jpeg_image.cpp
@@ -206,7 +206,8 @@ namespace Jpeg_Operation
         jpeg_start_compress( &info, TRUE );
 
         while ( info.next_scanline < info.image_height ) {
-            row_pointer[0] = const_cast<uint8_t *>( image.data() + image.rowSize() * info.next_scanline ); // libjpeg is C based library so no choice
+            // libjpeg is C based library so no choice
+            row_pointer[0] = const_cast<uint8_t *>( image.data() + image.rowSize() * ( startY + info.next_scanline ) + startX * image.colorCount() );
             jpeg_write_scanlines( &info, row_pointer, 1 );
         }
 
-- 
2.43.0


From 1ea8158b529d8dce90c9c9b83d81ad460bd190a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 068/142] fix: saving of an image with alpha channel as JPEG
 terminated the process

---
 src/file/jpeg_image.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/file/jpeg_image.cpp b/src/file/jpeg_image.cpp
index 06c849c..b7790ed 100644
--- a/src/file/jpeg_image.cpp
+++ b/src/file/jpeg_image.cpp
@@ -178,7 +178,13 @@ namespace Jpeg_Operation
     {
         Image_Function::ValidateImageParameters( image, startX, startY, width, height );
 
+        if ( image.colorCount() != penguinV::GRAY_SCALE && image.colorCount() != penguinV::RGB && image.colorCount() != penguinV::RGBA )
+            throw penguinVException( "JPEG supports only gray-scale, RGB and RGBA images" );
+
         JpegWriter writer;
+        const uint8_t colorCount = image.colorCount();
+        const uint8_t outputCount = ( colorCount == penguinV::GRAY_SCALE ) ? penguinV::GRAY_SCALE : penguinV::RGB; // there is no alpha channel in JPEG
+        std::vector<uint8_t> row( static_cast<size_t>( width ) * outputCount );
 
         writer.file = fopen( path.data(), "wb" );
         if ( !writer.file )
@@ -197,7 +203,7 @@ namespace Jpeg_Operation
 
         info.image_width = width;
         info.image_height = height;
-        info.input_components = image.colorCount();
+        info.input_components = outputCount;
         info.in_color_space = ( ( image.colorCount() == 1 ) ? JCS_GRAYSCALE : JCS_RGB );
 
         jpeg_set_defaults( &info );
@@ -206,8 +212,15 @@ namespace Jpeg_Operation
         jpeg_start_compress( &info, TRUE );
 
         while ( info.next_scanline < info.image_height ) {
-            // libjpeg is C based library so no choice
-            row_pointer[0] = const_cast<uint8_t *>( image.data() + image.rowSize() * ( startY + info.next_scanline ) + startX * image.colorCount() );
+            const uint8_t * in = image.data() + image.rowSize() * ( startY + info.next_scanline ) + startX * colorCount;
+            uint8_t * out = row.data();
+
+            for ( uint32_t x = 0; x < width; ++x, in += colorCount ) {
+                for ( uint8_t i = 0; i < outputCount; ++i )
+                    *( out++ ) = in[i];
+            }
+
+            row_pointer[0] = row.data();
             jpeg_write_scanlines( &info, row_pointer, 1 );
         }
 
-- 
2.43.0


From b911cdaa74829bb20814db76e284e82f00529a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 069/142] fix: JPEG images were loaded and saved with exchanged
 red and blue channels unlike other formats

---
 src/file/jpeg_image.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/file/jpeg_image.cpp b/src/file/jpeg_image.cpp
index b7790ed..d736088 100644
--- a/src/file/jpeg_image.cpp
+++ b/src/file/jpeg_image.cpp
@@ -169,6 +169,12 @@ namespace Jpeg_Operation
         while ( info.output_scanline < info.output_height ) {
             line[0] = image.data() + image.rowSize() * info.output_scanline;
             jpeg_read_scanlines( &info, line, 1 );
+
+            // red and blue channels are stored in the opposite order like for other file formats
+            if ( colorCount == penguinV::RGB ) {
+                for ( uint32_t x = 0; x < info.output_width; ++x )
+                    std::swap( line[0][x * 3u], line[0][x * 3u + 2u] );
+            }
         }
 
         jpeg_finish_decompress( &info );
@@ -215,9 +221,10 @@ namespace Jpeg_Operation
             const uint8_t * in = image.data() + image.rowSize() * ( startY + info.next_scanline ) + startX * colorCount;
             uint8_t * out = row.data();
 
+            // red and blue channels are stored in the opposite order like for other file formats
             for ( uint32_t x = 0; x < width; ++x, in += colorCount ) {
                 for ( uint8_t i = 0; i < outputCount; ++i )
-                    *( out++ ) = in[i];
+                    *( out++ ) = in[outputCount - 1 - i];
             }
 
             row_pointer[0] = row.data();
-- 
2.43.0


From cc3fdec2e07996311267045b9548592b517d91c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 070/142] fix: images with unsupported number of channels were
 saved as unreadable bitmaps

---
 src/file/bmp_image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 4ccd37a..3bae2d6 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -544,6 +544,9 @@ namespace Bitmap_Operation
     {
         Image_Function::ValidateImageParameters( image, startX, startY, width, height );
 
+        if ( image.colorCount() != penguinV::GRAY_SCALE && image.colorCount() != penguinV::RGB && image.colorCount() != penguinV::RGBA )
+            throw penguinVException( "Bitmap supports only gray-scale, RGB and RGBA images" );
+
         uint32_t palleteSize = 0;
         std::vector<uint8_t> pallete;
 
-- 
2.43.0


From fec74fc4e99c97c696c74f601b1cc70f1b49f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 071/142] fix: complex multiplication into one of its inputs
 used already overwritten values

---
 src/fft.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index d13c2bf..6ee3304 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -197,8 +197,12 @@ namespace FFT
         const kiss_fft_cpx * outXEnd = outX + size;
 
         for ( ; outX != outXEnd; ++in1X, ++in2X, ++outX ) {
-            outX->r = in1X->r * in2X->r - in1X->i * in2X->i;
-            outX->i = in1X->r * in2X->i + in1X->i * in2X->r;
+            // output data could be the same as one of inputs so both parts must be calculated before being stored
+            const kiss_fft_scalar real = in1X->r * in2X->r - in1X->i * in2X->i;
+            const kiss_fft_scalar imaginary = in1X->r * in2X->i + in1X->i * in2X->r;
+
+            outX->r = real;
+            outX->i = imaginary;
         }
     }
 
-- 
2.43.0


From bb99e5d9d6c3f49dc2645df43d8e7453f17f9911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 072/142] fix: accumulated rounding of the angle made the Hough
 transform lose points of the best line

---
 src/math/hough_transform.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/math/hough_transform.cpp b/src/math/hough_transform.cpp
index e1ec68c..552d661 100644
--- a/src/math/hough_transform.cpp
+++ b/src/math/hough_transform.cpp
@@ -67,9 +67,8 @@ namespace
         size_t highestPointCount = 0u;
         _Type averageDistance = 0;
 
-        _Type angleVal = -( initialAngle - angleStep * static_cast<_Type>( angleStepPerSide ) ); // this should be an opposite angle
-
-        for ( int angleId = -angleStepPerSide; angleId <= angleStepPerSide; ++angleId, angleVal -= angleStep ) {
+        for ( int angleId = -angleStepPerSide; angleId <= angleStepPerSide; ++angleId ) {
+            const _Type angleVal = -( initialAngle + angleStep * static_cast<_Type>( angleId ) ); // this should be an opposite angle
             const _Type cosVal = std::cos( angleVal );
             const _Type sinVal = std::sin( angleVal );
 
@@ -116,7 +115,7 @@ namespace
         outOnLine.clear();
         outOffLine.clear();
 
-        angleVal = -( initialAngle + angleStep * static_cast<_Type>( bestAngleId ) );
+        const _Type angleVal = -( initialAngle + angleStep * static_cast<_Type>( bestAngleId ) );
 
         const _Type minDistance = averageDistance - lineTolerance;
         const _Type maxDistance = averageDistance + lineTolerance;
-- 
2.43.0


From d5ae0cb7414410966b987209ab83f4c301d22c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 073/142] fix: Hough transform lost counted points lying at the
 limit of the line tolerance due to rounding

---
 src/math/hough_transform.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/math/hough_transform.cpp b/src/math/hough_transform.cpp
index 552d661..be97eaa 100644
--- a/src/math/hough_transform.cpp
+++ b/src/math/hough_transform.cpp
@@ -66,6 +66,8 @@ namespace
         int bestAngleId = -angleStepPerSide;
         size_t highestPointCount = 0u;
         _Type averageDistance = 0;
+        _Type minDistance = 0;
+        _Type maxDistance = 0;
 
         for ( int angleId = -angleStepPerSide; angleId <= angleStepPerSide; ++angleId ) {
             const _Type angleVal = -( initialAngle + angleStep * static_cast<_Type>( angleId ) ); // this should be an opposite angle
@@ -108,6 +110,8 @@ namespace
                     highestPointCount = onLinePointCount;
                     bestAngleId = angleId;
                     averageDistance = currentDistance;
+                    minDistance = distanceToLine[initialPointId];
+                    maxDistance = distanceToLine[initialPointId + onLinePointCount - 1u];
                 }
             }
         }
@@ -117,8 +121,9 @@ namespace
 
         const _Type angleVal = -( initialAngle + angleStep * static_cast<_Type>( bestAngleId ) );
 
-        const _Type minDistance = averageDistance - lineTolerance;
-        const _Type maxDistance = averageDistance + lineTolerance;
+        // counted points must stay on the line even if they are at the very limit of tolerance
+        minDistance = std::min( minDistance, averageDistance - lineTolerance );
+        maxDistance = std::max( maxDistance, averageDistance + lineTolerance );
 
         // sort points
         const _Type cosVal = std::cos( angleVal );
-- 
2.43.0


From fdf0ad3f668d0314d80a68346faf254c265cd598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 074/142] fix: refused construction of complex data from
 numbers lost its memory

---
 src/fft.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fft.cpp b/src/fft.cpp
index 6ee3304..b2a2922 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -32,6 +32,10 @@ namespace FFT
 
     ComplexData::ComplexData( const std::vector<float> & data, uint32_t width, uint32_t height )
     {
+        // an exception from the constructor would leave allocated memory without an owner so parameters are verified in advance
+        if ( data.empty() || data.size() != static_cast<size_t>( width ) * height )
+            throw penguinVException( "Failed to allocate complex data for empty or coloured image" );
+
         resize( width, height );
         set( data );
     }
-- 
2.43.0


From 36b2eec371a9e3442877cac34185484048183aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 075/142] fix: complex data of more than 2^32 elements got a
 too small block of memory

---
 src/fft.cpp         | 14 +++++++-------
 src/math/fft_base.h |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index b2a2922..658b0b1 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -62,7 +62,7 @@ namespace FFT
 
         _clean();
 
-        const uint32_t size = image.width() * image.height();
+        const size_t size = static_cast<size_t>( image.width() ) * image.height();
 
         _allocateData( size * sizeof( kiss_fft_cpx ) );
 
@@ -90,12 +90,12 @@ namespace FFT
 
     void ComplexData::set( const std::vector<float> & data )
     {
-        if ( data.empty() || _width == 0 || _height == 0 || data.size() != _width * _height )
+        if ( data.empty() || _width == 0 || _height == 0 || data.size() != static_cast<size_t>( _width ) * _height )
             throw penguinVException( "Failed to allocate complex data for empty or coloured image" );
 
         const float * in = data.data();
         kiss_fft_cpx * out = _data;
-        const kiss_fft_cpx * outEnd = out + _width * _height;
+        const kiss_fft_cpx * outEnd = out + static_cast<size_t>( _width ) * _height;
 
         for ( ; out != outEnd; ++in, ++out ) {
             out->r = *in;
@@ -111,15 +111,15 @@ namespace FFT
         penguinV::Image image( _width, _height, 1u, 1u );
         uint8_t * out = image.data();
 
-        const uint32_t size = _width * _height;
+        const size_t size = static_cast<size_t>( _width ) * _height;
         const uint32_t middleX = _width / 2;
         const uint32_t middleY = _height / 2;
 
         for ( uint32_t inY = 0; inY < _height; ++inY ) {
             const uint32_t outY = ( inY < _height - middleY ) ? middleY + inY : inY - ( _height - middleY );
 
-            const uint32_t posYIn = inY * _width;
-            const uint32_t posYOut = outY * _width;
+            const size_t posYIn = static_cast<size_t>( inY ) * _width;
+            const size_t posYOut = static_cast<size_t>( outY ) * _width;
             for ( uint32_t inX = 0; inX < _width; ++inX ) {
                 const uint32_t outX = ( inX < _width - middleX ) ? middleX + inX : inX - ( _width - middleX );
                 const double value = _data[posYIn + inX].r / static_cast<float>( size ) + 0.5;
@@ -193,7 +193,7 @@ namespace FFT
         // in2 = C + iD
         // out = in1 * (-in2) = (A + iB) * (-C - iD) = - A * C - i(B * C) - i(A * D) + B * D
 
-        const uint32_t size = in1.width() * in1.height();
+        const size_t size = static_cast<size_t>( in1.width() ) * in1.height();
 
         const kiss_fft_cpx * in1X = in1.data();
         const kiss_fft_cpx * in2X = in2.data();
diff --git a/src/math/fft_base.h b/src/math/fft_base.h
index e88eeb3..6297af1 100644
--- a/src/math/fft_base.h
+++ b/src/math/fft_base.h
@@ -76,7 +76,7 @@ namespace FFT
             if ( ( _width != width_ || _height != height_ ) && width_ != 0 && height_ != 0 ) {
                 _clean();
 
-                const uint32_t size = width_ * height_;
+                const size_t size = static_cast<size_t>( width_ ) * height_;
                 _allocateData( size * sizeof( DataType ) );
 
                 _width = width_;
-- 
2.43.0


From 7790e226ed16e2946fda8d9052abce82909ea0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 076/142] fix: a PNG file which could not be written completely
 was reported as saved

---
 src/file/png_image.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/png_image.cpp b/src/file/png_image.cpp
index 6fd5b31..0465d6f 100644
--- a/src/file/png_image.cpp
+++ b/src/file/png_image.cpp
@@ -263,6 +263,10 @@ namespace Png_Operation
         }
 
         png_write_end( png, NULL );
+
+        // the last part of the file could be still in a buffer
+        if ( fflush( writer.file ) != 0 )
+            throw penguinVException( "Failed to write data into file" );
     }
 }
 
-- 
2.43.0


From ccd9ba1a0be6710e246818870c1b5f9582e900f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 077/142] fix: a missing or failed conversion of an output
 image terminated the process

---
 src/penguinv/image_manager.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/penguinv/image_manager.h b/src/penguinv/image_manager.h
index 1fb8ca6..7f43347 100644
--- a/src/penguinv/image_manager.h
+++ b/src/penguinv/image_manager.h
@@ -21,6 +21,7 @@
 #pragma once
 
 #include "../image_buffer.h"
+#include <exception>
 #include <list>
 #include <vector>
 
@@ -55,17 +56,30 @@ public:
         , _convertImage( convertImage )
     {}
 
-    ~ImageManager()
+    // Converting of images back can fail in the same way as of any other image so an exception has to reach the caller
+    ~ImageManager() noexcept( false )
     {
+        const bool isUnwinding = std::uncaught_exception();
+        std::exception_ptr error;
+
         for ( typename std::vector<ConstReferenceOwner<_Type> *>::iterator data = _input.begin(); data != _input.end(); ++data )
             delete *data;
 
         typename std::list<penguinV::ImageTemplate<_Type>>::const_iterator clone = _outputClone.begin();
         for ( size_t i = 0u; i < _output.size(); ++i, ++clone ) {
-            _restore( *clone, _output[i]->data );
+            try {
+                _restore( *clone, _output[i]->data );
+            }
+            catch ( ... ) {
+                if ( !error )
+                    error = std::current_exception();
+            }
 
             delete _output[i];
         }
+
+        if ( error && !isUnwinding )
+            std::rethrow_exception( error );
     }
 
     const penguinV::Image & operator()( const penguinV::ImageTemplate<_Type> & image )
-- 
2.43.0


From 2e599f17257b14052a7b25ab2cb1208d5a259cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 078/142] fix: only the last part was kept if parts of one
 converted image are different outputs of a function

---
 src/penguinv/image_manager.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/penguinv/image_manager.h b/src/penguinv/image_manager.h
index 7f43347..1873e26 100644
--- a/src/penguinv/image_manager.h
+++ b/src/penguinv/image_manager.h
@@ -96,6 +96,13 @@ public:
     penguinV::ImageTemplate<_Type> & operator()( penguinV::ImageTemplate<_Type> & image )
     {
         if ( image.type() != _type ) {
+            // parts of one image can be different outputs of a function
+            typename std::list<penguinV::ImageTemplate<_Type>>::iterator clone = _outputClone.begin();
+            for ( size_t i = 0u; i < _output.size(); ++i, ++clone ) {
+                if ( &_output[i]->data == &image )
+                    return *clone;
+            }
+
             _outputClone.push_back( _clone( image ) );
             _output.push_back( new ReferenceOwner<_Type>( image ) );
             return _outputClone.back();
-- 
2.43.0


From 67361f162bda059f59138822685527f615fbd082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 079/142] fix: OpenCL functions swapped column and row of the
 input region

---
 src/opencl/image_function_opencl.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index cbe877d..5b80672 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -640,7 +640,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, width, height );
@@ -678,7 +678,7 @@ namespace Image_Function_OpenCL
             const uint32_t rowSizeIn = in.rowSize();
             const uint32_t rowSizeOut = out.rowSize();
 
-            const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+            const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
             kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
@@ -712,7 +712,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * colorCount;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height );
@@ -750,7 +750,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, width, height, channelId );
@@ -772,7 +772,7 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "fillOpenCL" );
 
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = y * rowSize + x;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, value );
 
@@ -879,7 +879,7 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "histogramOpenCL" );
 
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = y * rowSize + x;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, histogramOpenCL.data() );
 
@@ -990,7 +990,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * colorCount;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, tableOpenCL.data() );
@@ -1289,7 +1289,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, threshold );
@@ -1324,7 +1324,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, minThreshold, maxThreshold );
-- 
2.43.0


From dafd2349a06253aad220e80db801f33a163cd4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 080/142] fix: OpenCL copying wrote a row below the requested
 output region

---
 src/opencl/image_function_opencl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 5b80672..e3de4a9 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -171,7 +171,7 @@ namespace
             const size_t y = get_global_id(1);
 
             if ( x < width && y < height ) {
-                out[rowSizeOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x];
+                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x];
             }
         }
 
-- 
2.43.0


From a87952313f584c926ef3ced70dbc678da201949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 081/142] fix: OpenCL channel extraction read wrong positions
 of the input image

---
 src/opencl/image_function_opencl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index e3de4a9..9e91028 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -182,7 +182,7 @@ namespace
             const size_t y = get_global_id(1);
 
             if( x < width && y < height )
-                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + (y * rowSizeIn + x) * colorCount + channelId];
+                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x * colorCount + channelId];
         }
 
         __kernel void fillOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uchar value )
-- 
2.43.0


From 2436bab22e337a3b37654513962af14897c34457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 082/142] fix: OpenCL colour conversions ignored the region if
 no conversion is needed

---
 src/opencl/image_function_opencl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 9e91028..a90a097 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -630,7 +630,7 @@ namespace Image_Function_OpenCL
         Image_Function::VerifyGrayScaleImage( out );
 
         if ( in.colorCount() == penguinV::GRAY_SCALE ) {
-            Copy( in, out );
+            Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
             return;
         }
 
@@ -669,7 +669,7 @@ namespace Image_Function_OpenCL
         Image_Function::VerifyRGBImage( out );
 
         if ( in.colorCount() == penguinV::RGB ) {
-            Copy( in, out );
+            Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         }
         else {
             const multiCL::OpenCLProgram & program = GetProgram();
-- 
2.43.0


From beea549e70829d7d7c96f2d0e33feb4ab83081b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 083/142] fix: OpenCL colour conversions of RGBA images mixed
 up components

---
 src/opencl/image_function_opencl.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index a90a097..f7d0047 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -136,31 +136,27 @@ namespace
             if( x < width && y < height ) {
                 __global const uchar * data = in + offsetIn + (rowSizeIn * y) + x * colorCount;
 
-                uint sum = 0;
-                for( uchar i = 0; i < colorCount; ++i, ++data )
-                {
-                    sum += (*data);
-                }
+                // average of red, green and blue components
+                const uint sum = (uint)data[0] + data[1] + data[2];
 
                 const size_t id = offsetOut + y * rowSizeOut + x;
-                out[id] = sum / colorCount;
+                out[id] = sum / 3;
             }
         }
 
-        __kernel void convertToRgbOpenCL( __global const uchar * in, uint offsetIn, uint rowSizeIn, __global uchar * out, uint offsetOut, uint rowSizeOut, uchar colorCount,
-                                          uint width, uint height )
+        __kernel void convertToRgbOpenCL( __global const uchar * in, uint offsetIn, uint rowSizeIn, uchar colorCountIn, __global uchar * out, uint offsetOut,
+                                          uint rowSizeOut, uchar colorCountOut, uint width, uint height )
         {
             const size_t x = get_global_id(0);
             const size_t y = get_global_id(1);
 
             if( x < width && y < height ) {
-                const size_t id = offsetIn + y * rowSizeIn + x;
-
-                __global uchar * data = out + offsetOut + (rowSizeOut * y) + x * colorCount;
+                __global const uchar * dataIn = in + offsetIn + (rowSizeIn * y) + x * colorCountIn;
+                __global uchar * dataOut = out + offsetOut + (rowSizeOut * y) + x * colorCountOut;
 
-                for( uchar i = 0; i < colorCount; ++i, ++data )
+                for( uchar i = 0; i < colorCountOut; ++i )
                 {
-                    (*data) = in[id];
+                    dataOut[i] = (colorCountIn == 1) ? dataIn[0] : dataIn[i];
                 }
             }
         }
@@ -681,7 +677,7 @@ namespace Image_Function_OpenCL
             const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
-            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
+            kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
 
             multiCL::launchKernel2D( kernel, width, height );
         }
-- 
2.43.0


From 71e9a0f214369a6dca4b4d05b4c7f340cfc5c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 084/142] fix: OpenCL flipping of a region used the size of the
 whole image

---
 src/opencl/image_function_opencl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index f7d0047..564bb1d 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -809,9 +809,9 @@ namespace Image_Function_OpenCL
             const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
-            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, in.width(), in.height(), horizontal, vertical );
+            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, horizontal, vertical );
 
-            multiCL::launchKernel2D( kernel, in.width(), in.height() );
+            multiCL::launchKernel2D( kernel, width, height );
         }
     }
 
-- 
2.43.0


From 9ba38acf9fb1d81ccd371aa144a32bc52fbb7dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 085/142] fix: OpenCL normalization always failed due to wrong
 kernel arguments

---
 src/opencl/image_function_opencl.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 564bb1d..d720839 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -1095,21 +1095,19 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "intensityRangeOpenCL" );
 
         const uint8_t colorCount = Image_Function::CheckCommonColorCount( in, out );
-        width = width * colorCount;
+        const uint32_t realWidth = width * colorCount;
 
         const uint32_t rowSizeIn = in.rowSize();
-        const uint32_t rowSizeOut = out.rowSize();
 
         const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
-        const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         std::vector<uint32_t> range = { 255, 0 };
 
         multiCL::Array<uint32_t> rangeOpenCL( range );
 
-        kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, rangeOpenCL.data() );
+        kernel.setArgument( in.data(), offsetIn, rowSizeIn, realWidth, height, rangeOpenCL.data() );
 
-        multiCL::launchKernel2D( kernel, width, height );
+        multiCL::launchKernel2D( kernel, realWidth, height );
 
         range = rangeOpenCL.get();
 
@@ -1122,7 +1120,8 @@ namespace Image_Function_OpenCL
             // We precalculate all values and store them in lookup table
             std::vector<uint8_t> value( 256 );
 
-            for ( uint16_t i = 0; i < 256; ++i )
+            // other values do not exist in the image and cannot be represented after the correction
+            for ( uint32_t i = range[0]; i <= range[1]; ++i )
                 value[i] = static_cast<uint8_t>( ( i - range[0] ) * correction + 0.5 );
 
             LookupTable( in, startXIn, startYIn, out, startXOut, startYOut, width, height, value );
-- 
2.43.0


From 0103b0a7b6e3e52dd3543e74e6de59735bbc9754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 086/142] fix: OpenCL setting of pixels always failed

---
 src/opencl/image_function_opencl.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index d720839..90f599d 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -56,6 +56,7 @@ namespace
             table.Minimum = &Image_Function_OpenCL::Minimum;
             table.ProjectionProfile = &Image_Function_OpenCL::ProjectionProfile;
             table.SetPixel = &Image_Function_OpenCL::SetPixel;
+            table.SetPixel2 = &Image_Function_OpenCL::SetPixel;
             table.Subtract = &Image_Function_OpenCL::Subtract;
             table.Threshold = &Image_Function_OpenCL::Threshold;
             table.Threshold2 = &Image_Function_OpenCL::Threshold;
@@ -322,15 +323,15 @@ namespace
             }
         }
 
-        __kernel void __attribute__(( overloadable )) setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uint x, uint y, uchar value )
+        __kernel void setPixelOpenCL( __global uchar * data, uint rowSize, uint width, uint height, uint x, uint y, uchar value )
         {
             if ( x < width && y < height ) {
-                data[offset + y * rowSize + x] = value;
+                data[y * rowSize + x] = value;
             }
         }
 
-        __kernel void __attribute__(( overloadable )) setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height,
-                                                                      __global const uint * pointX, __global const uint * pointY, uint pointSize, uint value )
+        __kernel void setPixelsOpenCL( __global uchar * data, uint rowSize, uint width, uint height, __global const uint * pointX, __global const uint * pointY,
+                                       uint pointSize, uchar value )
         {
             const size_t id = get_global_id(0);
 
@@ -338,7 +339,7 @@ namespace
                 const uint x = pointX[id];
                 const uint y = pointY[id];
                 if ( x < width && y < height ) {
-                    data[offset + y * rowSize + x] = value;
+                    data[y * rowSize + x] = value;
                 }
             }
         }
@@ -1212,6 +1213,7 @@ namespace Image_Function_OpenCL
     void SetPixel( Image & image, uint32_t x, uint32_t y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
         const multiCL::OpenCLProgram & program = GetProgram();
         multiCL::OpenCLKernel kernel( program, "setPixelOpenCL" );
@@ -1222,9 +1224,8 @@ namespace Image_Function_OpenCL
         const uint32_t width = image.width();
         const uint32_t height = image.height();
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
 
-        kernel.setArgument( image.data(), offset, rowSize, width, height, x, y, value );
+        kernel.setArgument( image.data(), rowSize, width, height, x, y, value );
 
         multiCL::launchKernel1D( kernel, 1 );
     }
@@ -1232,9 +1233,10 @@ namespace Image_Function_OpenCL
     void SetPixel( Image & image, const std::vector<uint32_t> & X, const std::vector<uint32_t> & Y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
         const multiCL::OpenCLProgram & program = GetProgram();
-        multiCL::OpenCLKernel kernel( program, "setPixelOpenCL" );
+        multiCL::OpenCLKernel kernel( program, "setPixelsOpenCL" );
 
         if ( image.empty() || X.empty() || X.size() != Y.size() )
             throw penguinVException( "Bad input parameters in image function" );
@@ -1252,7 +1254,7 @@ namespace Image_Function_OpenCL
         multiCL::Array<uint32_t> pointX( X );
         multiCL::Array<uint32_t> pointY( Y );
 
-        kernel.setArgument( image.data(), rowSize, width, height, pointX.data(), pointY.data(), X.size(), value );
+        kernel.setArgument( image.data(), rowSize, width, height, pointX.data(), pointY.data(), static_cast<uint32_t>( X.size() ), value );
 
         multiCL::launchKernel1D( kernel, static_cast<uint32_t>( X.size() ) );
     }
-- 
2.43.0


From 0cc44aa226e183323a899e20533c5537266a9c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 087/142] fix: images with different row sizes could not be
 transferred between CPU and OpenCL device

---
 src/opencl/image_function_opencl.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 90f599d..1331032 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -562,16 +562,16 @@ namespace Image_Function_OpenCL
         if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( in.alignment() == 1u || ( in.rowSize() == in.width() * in.colorCount() ) ) {
+        if ( in.rowSize() == out.rowSize() ) {
             const size_t size = static_cast<size_t>( in.rowSize() ) * in.height();
             multiCL::writeBuffer( reinterpret_cast<cl_mem>( out.data() ), size * sizeof( uint8_t ), in.data() );
         }
         else {
             const size_t origin[3] = { 0, 0, 0 };
-            const size_t region[3] = { in.width(), in.height(), 1 };
+            const size_t region[3] = { static_cast<size_t>( in.width() ) * in.colorCount() * sizeof( uint8_t ), in.height(), 1 };
 
-            multiCL::openCLCheck( clEnqueueWriteImage( multiCL::OpenCLDeviceManager::instance().device().queue()(), reinterpret_cast<cl_mem>( out.data() ), CL_TRUE,
-                                                       origin, region, in.rowSize(), 0, in.data(), 0, NULL, NULL ) );
+            multiCL::openCLCheck( clEnqueueWriteBufferRect( multiCL::OpenCLDeviceManager::instance().device().queue()(), reinterpret_cast<cl_mem>( out.data() ), CL_TRUE,
+                                                            origin, origin, region, out.rowSize(), 0, in.rowSize(), 0, in.data(), 0, NULL, NULL ) );
         }
     }
 
@@ -591,17 +591,17 @@ namespace Image_Function_OpenCL
         if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( out.alignment() == 1u || ( out.rowSize() == out.width() * out.colorCount() ) ) {
+        if ( in.rowSize() == out.rowSize() ) {
             const size_t size = static_cast<size_t>( in.rowSize() ) * in.height();
             multiCL::readBuffer( reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), size * sizeof( uint8_t ), out.data() );
         }
         else {
             const size_t origin[3] = { 0, 0, 0 };
-            const size_t region[3] = { out.width(), out.height(), 1 };
+            const size_t region[3] = { static_cast<size_t>( out.width() ) * out.colorCount() * sizeof( uint8_t ), out.height(), 1 };
 
-            multiCL::openCLCheck( clEnqueueReadImage( multiCL::OpenCLDeviceManager::instance().device().queue()(),
-                                                      reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), CL_TRUE, origin, region, out.rowSize(), 0,
-                                                      out.data(), 0, NULL, NULL ) );
+            multiCL::openCLCheck( clEnqueueReadBufferRect( multiCL::OpenCLDeviceManager::instance().device().queue()(),
+                                                           reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), CL_TRUE, origin, origin, region, in.rowSize(), 0,
+                                                           out.rowSize(), 0, out.data(), 0, NULL, NULL ) );
         }
     }
 
-- 
2.43.0


From 8833e20a1e5c9f71955bf0c6b6d7d9dafc47ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 088/142] fix: every launch of an OpenCL kernel leaked an event

---
 src/opencl/opencl_helper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opencl/opencl_helper.cpp b/src/opencl/opencl_helper.cpp
index 4e2079e..de0b0fb 100644
--- a/src/opencl/opencl_helper.cpp
+++ b/src/opencl/opencl_helper.cpp
@@ -80,7 +80,10 @@ namespace
         multiCL::openCLCheck( clEnqueueNDRangeKernel( multiCL::OpenCLDeviceManager::instance().device().queue()(), kernel(), parameters.dimensionCount, NULL,
                                                       parameters.dimensionSize, parameters.threadsPerBlock, 0, NULL, &waitingEvent ) );
 
-        multiCL::openCLCheck( clWaitForEvents( 1, &waitingEvent ) );
+        const cl_int waitingResult = clWaitForEvents( 1, &waitingEvent );
+        clReleaseEvent( waitingEvent );
+
+        multiCL::openCLCheck( waitingResult );
     }
 }
 
-- 
2.43.0


From e15fa77d5ef51168d6b04f1815bb04a4ded4f914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 089/142] fix: reading beyond the code of an OpenCL program
 loaded from a file

---
 src/opencl/opencl_helper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opencl/opencl_helper.cpp b/src/opencl/opencl_helper.cpp
index de0b0fb..eda0390 100644
--- a/src/opencl/opencl_helper.cpp
+++ b/src/opencl/opencl_helper.cpp
@@ -174,7 +174,8 @@ namespace multiCL
 
         file.seekg( 0, file.beg );
 
-        std::vector<char> fileContent( static_cast<size_t>( fileLength ) );
+        // the program code must be a null-terminated string
+        std::vector<char> fileContent( static_cast<size_t>( fileLength ) + 1u, '\0' );
 
         file.read( fileContent.data(), fileLength );
 
-- 
2.43.0


From 8c1d449bdbd83cfcb3be539cdca93c6bbf244ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 090/142] fix: an OpenCL device ID out of range was looked up
 outside of the list of devices

---
 src/opencl/opencl_device.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index bbd5357..3236e7d 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -389,6 +389,10 @@ namespace multiCL
             throw penguinVException( "Device manager does not contain any devices" );
         }
 
+        if ( deviceId >= _supportedDeviceId.size() ) {
+            throw penguinVException( "System does not contain a device with such ID" );
+        }
+
         auto foundDevice
             = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
@@ -405,6 +409,10 @@ namespace multiCL
             throw penguinVException( "Device manager does not contain any devices" );
         }
 
+        if ( deviceId >= _supportedDeviceId.size() ) {
+            throw penguinVException( "System does not contain a device with such ID" );
+        }
+
         auto foundDevice
             = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
@@ -417,6 +425,10 @@ namespace multiCL
 
     void OpenCLDeviceManager::setActiveDevice( uint32_t deviceId )
     {
+        if ( deviceId >= _supportedDeviceId.size() ) {
+            throw penguinVException( "System does not contain a device with such ID" );
+        }
+
         auto foundDevice
             = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
-- 
2.43.0


From fdf047d6f01128479bf40f587cb337e78b216558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 091/142] fix: OpenCL functions failed after the device was
 closed and initialized again

---
 src/opencl/image_function_opencl.cpp | 9 +++++----
 src/opencl/opencl_device.cpp         | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 1331032..dcafca5 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -370,19 +370,20 @@ namespace
 
     const multiCL::OpenCLProgram & GetProgram()
     {
-        static std::map<cl_device_id, std::shared_ptr<multiCL::OpenCLProgram>> deviceProgram;
+        // a device gets a new context if it is closed and initialized again
+        static std::map<cl_context, std::shared_ptr<multiCL::OpenCLProgram>> deviceProgram;
         static std::mutex mapGuard;
 
         std::lock_guard<std::mutex> lock( mapGuard );
         multiCL::OpenCLDevice & device = multiCL::OpenCLDeviceManager::instance().device();
 
-        std::map<cl_device_id, std::shared_ptr<multiCL::OpenCLProgram>>::const_iterator program = deviceProgram.find( device.deviceId() );
+        std::map<cl_context, std::shared_ptr<multiCL::OpenCLProgram>>::const_iterator program = deviceProgram.find( device.context()() );
         if ( program != deviceProgram.cend() )
             return *( program->second );
 
-        deviceProgram[device.deviceId()] = std::shared_ptr<multiCL::OpenCLProgram>( new multiCL::OpenCLProgram( device.context(), programCode.data() ) );
+        deviceProgram[device.context()()] = std::shared_ptr<multiCL::OpenCLProgram>( new multiCL::OpenCLProgram( device.context(), programCode.data() ) );
 
-        return *( deviceProgram[device.deviceId()] );
+        return *( deviceProgram[device.context()()] );
     }
 }
 
diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index 3236e7d..067dbc7 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -73,13 +73,14 @@ namespace
 
     multiCL::OpenCLKernel & getMemsetKernel()
     {
-        static std::map<cl_device_id, MemsetKernelHolder> deviceProgram;
+        // a device gets a new context if it is closed and initialized again
+        static std::map<cl_context, MemsetKernelHolder> deviceProgram;
         static std::mutex mapGuard;
         std::lock_guard<std::mutex> lock( mapGuard );
 
         multiCL::OpenCLDevice & device = multiCL::OpenCLDeviceManager::instance().device();
 
-        auto program = deviceProgram.find( device.deviceId() );
+        auto program = deviceProgram.find( device.context()() );
         if ( program != deviceProgram.cend() ) {
             return *( program->second.kernel );
         }
@@ -88,9 +89,9 @@ namespace
         holder.program = std::shared_ptr<multiCL::OpenCLProgram>( new multiCL::OpenCLProgram( device.context(), memsetCode.data() ) );
         holder.kernel = std::shared_ptr<multiCL::OpenCLKernel>( new multiCL::OpenCLKernel( *( holder.program ), "memsetOpenCL" ) );
 
-        deviceProgram[device.deviceId()] = holder;
+        deviceProgram[device.context()()] = holder;
 
-        return *( deviceProgram[device.deviceId()].kernel );
+        return *( deviceProgram[device.context()()].kernel );
     }
 }
 
-- 
2.43.0


From 4aabd2475af3e16c2ebd6d7e9799f83322ee378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 092/142] fix: threads filling OpenCL memory at the same time
 overwrote arguments of each other

---
 src/opencl/opencl_device.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index 067dbc7..1f5cecd 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -112,6 +112,10 @@ namespace multiCL
         void memorySet( cl_mem data, const void * pattern, size_t patternSize, size_t offset, size_t size )
         {
             if ( patternSize == 1u ) {
+                // the kernel is shared between threads
+                static std::mutex kernelGuard;
+                std::lock_guard<std::mutex> lock( kernelGuard );
+
                 multiCL::OpenCLKernel & kernel = getMemsetKernel();
                 kernel.reset();
                 const uint8_t value = *( static_cast<const uint8_t *>( pattern ) );
-- 
2.43.0


From 849b2e844ebe08265b908e6af857fd8f925e7657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 093/142] fix: OpenCL memory allocator could be damaged by
 several threads

---
 src/opencl/opencl_memory.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/opencl/opencl_memory.h b/src/opencl/opencl_memory.h
index c34177e..a7b2a3b 100644
--- a/src/opencl/opencl_memory.h
+++ b/src/opencl/opencl_memory.h
@@ -31,6 +31,7 @@
 
 #include "../memory/memory_allocator.h"
 #include <map>
+#include <mutex>
 
 namespace multiCL
 {
@@ -66,6 +67,8 @@ namespace multiCL
         {
             size = size * sizeof( _DataType );
 
+            std::unique_lock<std::mutex> lock( _lock ); // it must be released even if an exception is thrown
+
             if ( _data != NULL && size < _size ) {
                 const uint8_t level = _getAllocationLevel( size < _minimumSizeChunk ? _minimumSizeChunk : size );
 
@@ -86,6 +89,8 @@ namespace multiCL
                 }
             }
 
+            lock.unlock();
+
             // If no space is in preallocated memory just allocate as usual memory.
             cl_int error;
             cl_mem memory = clCreateBuffer( _context, CL_MEM_READ_WRITE, size, NULL, &error );
@@ -102,6 +107,8 @@ namespace multiCL
         // otherwise OpenCL specific function will be called.
         void free( cl_mem memory )
         {
+            std::unique_lock<std::mutex> lock( _lock ); // it must be released even if an exception is thrown
+
             if ( _data != NULL ) {
                 auto pos = _allocatedChunk.find( memory );
 
@@ -112,6 +119,8 @@ namespace multiCL
                 }
             }
 
+            lock.unlock();
+
             if ( clReleaseMemObject( memory ) != CL_SUCCESS ) {
                 throw std::logic_error( "Cannot deallocate a memory for OpenCL device" );
             }
@@ -127,6 +136,9 @@ namespace multiCL
         cl_context _context;
         cl_uint _minimumSizeChunk;
 
+        // Protects information about chunks if several threads use the same device.
+        std::mutex _lock;
+
         // A pointer to memory allocated chunk.
         cl_mem _data;
 
-- 
2.43.0


From 7b5aa16b7adfaec8e5ad81a0bed712893b490c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:07 +0000
Subject: [PATCH 094/142] fix: size of OpenCL memory for too many elements
 wrapped around

---
 src/opencl/opencl_memory.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opencl/opencl_memory.h b/src/opencl/opencl_memory.h
index a7b2a3b..ecf9990 100644
--- a/src/opencl/opencl_memory.h
+++ b/src/opencl/opencl_memory.h
@@ -65,6 +65,10 @@ namespace multiCL
         template <typename _DataType>
         cl_mem allocate( size_t size = 1 )
         {
+            if ( size > static_cast<size_t>( -1 ) / sizeof( _DataType ) ) {
+                throw std::logic_error( "Memory size to be allocated is bigger than available size on device" );
+            }
+
             size = size * sizeof( _DataType );
 
             std::unique_lock<std::mutex> lock( _lock ); // it must be released even if an exception is thrown
-- 
2.43.0


From ef0e82d765c115475528a45dbce6f5e1c03fbbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:07 +0000
Subject: [PATCH 095/142] fix: OpenCL array reported elements which it does not
 have after a failed resize

---
 src/opencl/opencl_types.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opencl/opencl_types.h b/src/opencl/opencl_types.h
index 886c37a..5a8ba73 100644
--- a/src/opencl/opencl_types.h
+++ b/src/opencl/opencl_types.h
@@ -246,6 +246,8 @@ namespace multiCL
                 MemoryManager::memory().free( _data );
                 _data = NULL;
             }
+
+            _size = 0;
         }
 
         void _allocate( size_t size )
-- 
2.43.0


From c878ce157d6e312e428233940bf6ce6d13627a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 096/142] fix: OpenCL images could not be copied by their
 constructor

---
 src/opencl/image_buffer_opencl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opencl/image_buffer_opencl.h b/src/opencl/image_buffer_opencl.h
index 5ebe84c..3ec7807 100644
--- a/src/opencl/image_buffer_opencl.h
+++ b/src/opencl/image_buffer_opencl.h
@@ -47,8 +47,9 @@ namespace penguinV
         }
 
         ImageTemplateOpenCL( const ImageTemplateOpenCL & image )
+            : ImageTemplate<TColorDepth>( image )
         {
-            ImageTemplate<TColorDepth>::operator=( image );
+            // Do nothing.
         }
 
         ImageTemplateOpenCL( ImageTemplateOpenCL && image )
-- 
2.43.0


From 1e07f217bdec218e5c28da845ad80c5d2e4d1bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 097/142] fix: OpenCL memory was never released if the first
 transfer to it failed

---
 src/opencl/opencl_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opencl/opencl_types.h b/src/opencl/opencl_types.h
index 5a8ba73..6764041 100644
--- a/src/opencl/opencl_types.h
+++ b/src/opencl/opencl_types.h
@@ -40,8 +40,8 @@ namespace multiCL
         }
 
         Type( const TData & in )
+            : Type()
         {
-            _allocate();
             _copyFrom( in );
         }
 
@@ -160,8 +160,8 @@ namespace multiCL
         Array() = default;
 
         Array( const std::vector<TData> & data )
+            : Array( data.size() )
         {
-            _allocate( data.size() );
             _copyFrom( data );
         }
 
-- 
2.43.0


From 37833a332ff068873f3522c1481c059cf16b6a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 098/142] fix: OpenCL double threshold accepted a minimum above
 the maximum

---
 src/opencl/image_function_opencl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index dcafca5..08577f1 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -1316,6 +1316,9 @@ namespace Image_Function_OpenCL
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyGrayScaleImage( in, out );
 
+        if ( minThreshold > maxThreshold )
+            throw penguinVException( "Minimum threshold value is bigger than maximum threshold value" );
+
         const multiCL::OpenCLProgram & program = GetProgram();
         multiCL::OpenCLKernel kernel( program, "thresholdDoubleOpenCL" );
 
-- 
2.43.0


From f1e658240ed773f4d3f422edad43e56c4c723450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 099/142] fix: every exception in the Python module terminated
 the interpreter

---
 src/python/penguinV.i | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/python/penguinV.i b/src/python/penguinV.i
index fca9749..47ee599 100644
--- a/src/python/penguinV.i
+++ b/src/python/penguinV.i
@@ -1,5 +1,6 @@
 %module penguinV
 
+%include "exception.i"
 %include "stdint.i"
 %include "std_string.i"
 %include "std_vector.i"
@@ -15,6 +16,16 @@
 
 %feature("autodoc", "1");
 
+// C++ exceptions become Python exceptions.
+%exception {
+    try {
+        $action
+    }
+    catch ( const std::exception & e ) {
+        SWIG_exception( SWIG_RuntimeError, e.what() );
+    }
+}
+
 namespace std {
     %template(vectorUInt32) vector<uint32_t>;
 };
-- 
2.43.0


From 7c08a0cac69c1694feb7b9148f4a26d532a81dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 100/142] fix: OpenCL device list must not contain devices
 without a context

---
 src/opencl/opencl_device.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index 1f5cecd..0159e99 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -479,6 +479,8 @@ namespace multiCL
                     cl_int error;
                     cl_context _context = clCreateContext( NULL, 1u, &_supportedDeviceId[supportedDeviceCount + deviceId], NULL, NULL, &error );
                     if ( error != CL_SUCCESS ) {
+                        // a device without a context cannot be used
+                        _supportedDeviceId.erase( _supportedDeviceId.begin() + static_cast<std::ptrdiff_t>( supportedDeviceCount + deviceId ) );
                         --deviceCount;
                     }
                     else {
-- 
2.43.0


From 25baf9d214ea6ccb4d3a338ce0418fc80f471f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 101/142] fix: OpenCL build log must be taken from the device
 the program is built for

---
 src/opencl/opencl_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index 0159e99..3b27279 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -193,7 +193,7 @@ namespace multiCL
                 std::vector<char> log( logSize );
 
                 // Get the log
-                clGetProgramBuildInfo( _program, OpenCLDeviceManager::instance().device().deviceId(), CL_PROGRAM_BUILD_LOG, logSize, log.data(), NULL );
+                clGetProgramBuildInfo( _program, *deviceId, CL_PROGRAM_BUILD_LOG, logSize, log.data(), NULL );
 
                 fullLog += std::string( log.begin(), log.end() );
                 fullLog += "\n";
-- 
2.43.0


From 60aa343e769974dc64c3c884bd6cf02d9e71c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 102/142] fix: pinned CUDA images of wider types could not be
 compiled

---
 src/cuda/image_buffer_cuda_pinned.cuh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cuda/image_buffer_cuda_pinned.cuh b/src/cuda/image_buffer_cuda_pinned.cuh
index 1995478..a3843d4 100644
--- a/src/cuda/image_buffer_cuda_pinned.cuh
+++ b/src/cuda/image_buffer_cuda_pinned.cuh
@@ -63,9 +63,9 @@ namespace penguinV
     private:
         static TColorDepth * _allocateMemory( size_t size )
         {
-            uint8_t * data = nullptr;
+            TColorDepth * data = nullptr;
 
-            cudaError_t error = cudaMallocHost( &data, sizeof(uint8_t) * size );
+            cudaError_t error = cudaMallocHost( &data, sizeof(TColorDepth) * size );
             if( error != cudaSuccess )
                 throw penguinVException( "Cannot allocate pinned memory on HOST" );
 
-- 
2.43.0


From f6b1ac4d7542abda274f24241c5d723c7409a5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 103/142] fix: images with different row sizes could not be
 transferred between CPU and CUDA device

---
 src/cuda/image_function_cuda.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index d038ec1..f8eb698 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -566,7 +566,7 @@ namespace Image_Function_Cuda
              in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( in.alignment() == 1u || (in.rowSize() == in.width() * in.colorCount()) )
+        if ( in.rowSize() == out.rowSize() && in.rowSize() == in.width() * in.colorCount() )
         {
             const uint32_t size = in.rowSize() * in.height();
 
@@ -599,7 +599,7 @@ namespace Image_Function_Cuda
              in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( out.alignment() == 1u || (out.rowSize() == out.width() * out.colorCount()) )
+        if ( in.rowSize() == out.rowSize() && out.rowSize() == out.width() * out.colorCount() )
         {
             const uint32_t size = in.rowSize() * in.height();
 
-- 
2.43.0


From dd30bd53d1c4113c48f94ea30dc8446300ba0125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 104/142] fix: CUDA colour conversions of RGBA images mixed up
 components

---
 src/cuda/image_function_cuda.cu | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index f8eb698..be4d2b3 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -128,34 +128,28 @@ namespace
 
         if ( x < width && y < height ) {
             const uint8_t * data = in + y * rowSizeIn + x * colorCount;
-            const uint8_t * dataEnd = data + colorCount;
 
-            uint32_t sum = 0;
-            for ( ; data != dataEnd; ++data )
-            {
-                sum += (*data);
-            }
+            // average of red, green and blue components
+            const uint32_t sum = static_cast<uint32_t>(data[0]) + data[1] + data[2];
 
             const uint32_t id = y * rowSizeOut + x;
-            out[id] = static_cast<uint8_t>(sum / colorCount);
+            out[id] = static_cast<uint8_t>(sum / 3u);
         }
     }
 
-    __global__ void convertToRgbCuda( const uint8_t * in, uint32_t rowSizeIn, uint8_t * out, uint32_t rowSizeOut, uint8_t colorCount,
+    __global__ void convertToRgbCuda( const uint8_t * in, uint32_t rowSizeIn, uint8_t colorCountIn, uint8_t * out, uint32_t rowSizeOut, uint8_t colorCountOut,
                                       uint32_t width, uint32_t height )
     {
         const uint32_t x = blockDim.x * blockIdx.x + threadIdx.x;
         const uint32_t y = blockDim.y * blockIdx.y + threadIdx.y;
 
         if ( x < width && y < height ) {
-            const uint8_t * dataIn = in + y * rowSizeIn + x;
-
-            uint8_t * dataOut = out + y * rowSizeOut + x * colorCount;
-            const uint8_t * dataOutEnd = dataOut + colorCount;
+            const uint8_t * dataIn = in + y * rowSizeIn + x * colorCountIn;
+            uint8_t * dataOut = out + y * rowSizeOut + x * colorCountOut;
 
-            for ( ; dataOut != dataOutEnd; ++dataOut )
+            for ( uint8_t i = 0; i < colorCountOut; ++i )
             {
-                (*dataOut) = (*dataIn);
+                dataOut[i] = (colorCountIn == 1u) ? dataIn[0] : dataIn[i];
             }
         }
     }
@@ -681,13 +675,14 @@ namespace Image_Function_Cuda
         const uint32_t rowSizeIn  = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint8_t colorCount = out.colorCount();
+        const uint8_t colorCountIn  = in.colorCount();
+        const uint8_t colorCountOut = out.colorCount();
 
-        const uint8_t * inY  = in.data()  + startYIn  * rowSizeIn  + startXIn;
-        uint8_t       * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
+        const uint8_t * inY  = in.data()  + startYIn  * rowSizeIn  + startXIn  * colorCountIn;
+        uint8_t       * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCountOut;
 
         launchKernel2D( convertToRgbCuda, width, height,
-                        inY, rowSizeIn, outY, rowSizeOut, colorCount, width, height );
+                        inY, rowSizeIn, colorCountIn, outY, rowSizeOut, colorCountOut, width, height );
     }
 
     void Copy( const Image & in, Image & out )
-- 
2.43.0


From 7215dc5fb79ae27e2a4aebb42f111aac04b66221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 105/142] fix: CUDA rotation took pixels from outside of the
 image for positions just before it

---
 src/cuda/image_function_cuda.cu | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index be4d2b3..ef14f59 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -291,7 +291,7 @@ namespace
     }
 
     __global__ void rotateCuda( const uint8_t * in, uint32_t rowSizeIn, uint8_t * out, uint32_t rowSizeOut,
-                                float inXStart, float inYStart, uint32_t width, uint32_t height, 
+                                float inXStart, float inYStart, uint32_t width, uint32_t height,
                                 float cosAngle, float sinAngle )
     {
         uint32_t outX = blockDim.x * blockIdx.x + threadIdx.x;
@@ -308,17 +308,18 @@ namespace
             const float exactInX = inXStart + cosAngle * outX + sinAngle * outY;
             const float exactInY = inYStart - sinAngle * outX + cosAngle * outY;
 
-            const int32_t inX = static_cast<int32_t>(exactInX);
-            const int32_t inY = static_cast<int32_t>(exactInY);
-
             // Shift to the output pixel
             out = out + outY * rowSizeOut + outX;
 
             // Note that we will be taking an average with next pixels, so next pixels need to be in the image too
-            if ( inX < 0 || inX >= width - 1 || inY < 0 || inY >= height - 1 ) {
+            // Positions must be compared before a conversion to integer values which removes fractions of negative values
+            if ( !( exactInX >= 0 && exactInY >= 0 && exactInX < width - 1 && exactInY < height - 1 ) ) {
                 *out = 0; // We do not actually know what is beyond the image, so set value to 0
             }
             else {
+                const uint32_t inX = static_cast<uint32_t>(exactInX);
+                const uint32_t inY = static_cast<uint32_t>(exactInY);
+
                 // Shift to the input pixel
                 in = in + inY * rowSizeIn + inX;
 
-- 
2.43.0


From 46d6acc53682b50f6eb8f0ff606851b49611148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:22 +0000
Subject: [PATCH 106/142] fix: CUDA setting of pixels accepted colour images
 and empty lists of points

---
 src/cuda/image_function_cuda.cu | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index ef14f59..7994962 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -1116,6 +1116,7 @@ namespace Image_Function_Cuda
     void SetPixel( Image & image, uint32_t x, uint32_t y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
         if ( x >= image.width() || y >= image.height() )
             throw penguinVException( "Bad input parameters in image function" );
@@ -1127,25 +1128,24 @@ namespace Image_Function_Cuda
     void SetPixel( Image & image, const std::vector<uint32_t> & X, const std::vector<uint32_t> & Y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
-        if ( X.size() != Y.size() )
+        if ( X.empty() || X.size() != Y.size() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( X.size() > 0 ) {
-            const uint32_t width = image.width();
-            const uint32_t height = image.height();
+        const uint32_t width = image.width();
+        const uint32_t height = image.height();
 
-            for ( size_t i = 0; i < X.size(); ++i ) {
-                if ( X[i] >= width || Y[i] >= height )
-                    throw penguinVException( "Bad input parameters in image function" );
-            }
+        for ( size_t i = 0; i < X.size(); ++i ) {
+            if ( X[i] >= width || Y[i] >= height )
+                throw penguinVException( "Bad input parameters in image function" );
+        }
 
-            multiCuda::Array<uint32_t> pointX( X );
-            multiCuda::Array<uint32_t> pointY( Y );
+        multiCuda::Array<uint32_t> pointX( X );
+        multiCuda::Array<uint32_t> pointY( Y );
 
-            launchKernel1D( setPixelCuda, static_cast<uint32_t>( X.size() ),
-                            image.data(), image.rowSize(), width, height, pointX.data(), pointY.data(), pointX.size(), value );
-        }
+        launchKernel1D( setPixelCuda, static_cast<uint32_t>( X.size() ),
+                        image.data(), image.rowSize(), width, height, pointX.data(), pointY.data(), pointX.size(), value );
     }
 
     Image Subtract( const Image & in1, const Image & in2 )
-- 
2.43.0


From b44fc6a467edd2d9dcf1dde0f834c292baa1fcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:22 +0000
Subject: [PATCH 107/142] fix: CUDA double threshold accepted a minimum above
 the maximum

---
 src/cuda/image_function_cuda.cu | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index 7994962..d01d1fe 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -1237,6 +1237,9 @@ namespace Image_Function_Cuda
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyGrayScaleImage( in, out );
 
+        if ( minThreshold > maxThreshold )
+            throw penguinVException( "Minimum threshold value is bigger than maximum threshold value" );
+
         const uint32_t rowSizeIn  = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-- 
2.43.0


From 176b159d64f26d073f14d8a9aa39b1fd00cf27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 108/142] fix: CUDA functions used within a stream copied
 results before they were computed

---
 src/cuda/cuda_device.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/cuda_device.cu b/src/cuda/cuda_device.cu
index 456a8c0..e9876d0 100644
--- a/src/cuda/cuda_device.cu
+++ b/src/cuda/cuda_device.cu
@@ -391,7 +391,8 @@ namespace multiCuda
     CudaStream::CudaStream()
         : _id( 0 )
     {
-        cudaCheck( cudaStreamCreateWithFlags( &_id, cudaStreamNonBlocking ) );
+        // The stream must be synchronized with the default stream which is used to copy, set and free memory
+        cudaCheck( cudaStreamCreateWithFlags( &_id, cudaStreamDefault ) );
     }
 
     CudaStream::~CudaStream()
-- 
2.43.0


From e7395e936130730c8ad1593efbb70f2453e259de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 109/142] fix: CUDA images could not be copied by their
 constructor

---
 src/cuda/image_buffer_cuda.cuh        | 2 +-
 src/cuda/image_buffer_cuda_pinned.cuh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cuda/image_buffer_cuda.cuh b/src/cuda/image_buffer_cuda.cuh
index b3cc49c..8f117f3 100644
--- a/src/cuda/image_buffer_cuda.cuh
+++ b/src/cuda/image_buffer_cuda.cuh
@@ -38,8 +38,8 @@ namespace penguinV
         }
 
         ImageTemplateCuda( const ImageTemplateCuda & image )
+            : ImageTemplate<TColorDepth>( image )
         {
-            ImageTemplate<TColorDepth>::operator=( image );
         }
 
         ImageTemplateCuda( ImageTemplateCuda && image )
diff --git a/src/cuda/image_buffer_cuda_pinned.cuh b/src/cuda/image_buffer_cuda_pinned.cuh
index a3843d4..7ecbae5 100644
--- a/src/cuda/image_buffer_cuda_pinned.cuh
+++ b/src/cuda/image_buffer_cuda_pinned.cuh
@@ -38,8 +38,8 @@ namespace penguinV
         }
 
         ImageTemplateCudaPinned( const ImageTemplateCudaPinned & image )
+            : ImageTemplate<TColorDepth>( image )
         {
-            ImageTemplate<TColorDepth>::operator=( image );
         }
 
         ImageTemplateCudaPinned( ImageTemplateCudaPinned && image )
-- 
2.43.0


From 1f57485b2a49d15d41e9f2c9c3a490ad85f6ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 110/142] fix: a failed CUDA allocation or copying made the
 next kernel launch fail

---
 src/cuda/cuda_memory.cuh              | 13 +++++--------
 src/cuda/cuda_types.cuh               | 19 +++++++------------
 src/cuda/image_buffer_cuda.cuh        |  7 +++----
 src/cuda/image_buffer_cuda_pinned.cuh |  7 +++----
 4 files changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/cuda/cuda_memory.cuh b/src/cuda/cuda_memory.cuh
index 1571ecd..f71eb70 100644
--- a/src/cuda/cuda_memory.cuh
+++ b/src/cuda/cuda_memory.cuh
@@ -23,6 +23,7 @@
 #include <cuda_runtime.h>
 #include <map>
 #include "../memory/memory_allocator.h"
+#include "cuda_helper.cuh"
 
 namespace multiCuda
 {
@@ -63,8 +64,7 @@ namespace multiCuda
 
             // if no space in preallocated memory just allocate as usual memory
             _DataType* address = nullptr;
-            cudaError_t error = cudaMalloc( &address, size );
-            if ( error != cudaSuccess )
+            if( !cudaSafeCheck( cudaMalloc( &address, size ) ) )
                 throw std::logic_error( "Cannot allocate a memory for CUDA device" );
 
             return address;
@@ -88,8 +88,7 @@ namespace multiCuda
                 }
             }
 
-            cudaError_t error = cudaFree( address );
-            if ( error != cudaSuccess )
+            if( !cudaSafeCheck( cudaFree( address ) ) )
                 throw std::logic_error( "Cannot deallocate memory for CUDA device" );
         }
 
@@ -118,8 +117,7 @@ namespace multiCuda
 
                 _free();
 
-                cudaError_t error = cudaMalloc( &_data, size );
-                if ( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMalloc( &_data, size ) ) )
                     throw std::logic_error( "Cannot allocate a memory for CUDA device" );
 
                 _size = size;
@@ -130,8 +128,7 @@ namespace multiCuda
         virtual void _deallocate()
         {
             if ( _data != nullptr ) {
-                cudaError_t error = cudaFree( _data );
-                if ( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaFree( _data ) ) )
                     throw std::logic_error( "Cannot deallocate memory for CUDA device" );
                 _data = nullptr;
             }
diff --git a/src/cuda/cuda_types.cuh b/src/cuda/cuda_types.cuh
index 2acb783..588d170 100644
--- a/src/cuda/cuda_types.cuh
+++ b/src/cuda/cuda_types.cuh
@@ -21,6 +21,7 @@
 #pragma once
 
 #include "cuda_device.cuh"
+#include "cuda_helper.cuh"
 #include "../penguinv_exception.h"
 
 namespace multiCuda
@@ -120,8 +121,7 @@ namespace multiCuda
         void _copy( const Type & in )
         {
             if( _data != NULL && in._data != NULL ) {
-                cudaError_t error = cudaMemcpy( _data, in._data, sizeof( TData ), cudaMemcpyDeviceToDevice );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( _data, in._data, sizeof( TData ), cudaMemcpyDeviceToDevice ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
             else {
@@ -137,8 +137,7 @@ namespace multiCuda
         void _copyFrom( const TData & in )
         {
             if( _data != NULL ) {
-                cudaError_t error = cudaMemcpy( _data, &in, sizeof( TData ), cudaMemcpyHostToDevice );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( _data, &in, sizeof( TData ), cudaMemcpyHostToDevice ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
             else {
@@ -151,8 +150,7 @@ namespace multiCuda
             TData out;
 
             if( _data != NULL ) {
-                cudaError_t error = cudaMemcpy( &out, _data, sizeof( TData ), cudaMemcpyDeviceToHost );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( &out, _data, sizeof( TData ), cudaMemcpyDeviceToHost ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
             else {
@@ -289,8 +287,7 @@ namespace multiCuda
             _allocate( in._size );
 
             if( in._data != NULL ) {
-                cudaError_t error = cudaMemcpy( _data, in._data, _size * sizeof( TData ), cudaMemcpyDeviceToDevice );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( _data, in._data, _size * sizeof( TData ), cudaMemcpyDeviceToDevice ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
             else {
@@ -307,8 +304,7 @@ namespace multiCuda
         void _copyFrom( const std::vector <TData> & data )
         {
             if( _data != NULL && _size == data.size() ) {
-                cudaError_t error = cudaMemcpy( _data, data.data(), _size * sizeof( TData ), cudaMemcpyHostToDevice );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( _data, data.data(), _size * sizeof( TData ), cudaMemcpyHostToDevice ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
         }
@@ -318,8 +314,7 @@ namespace multiCuda
             std::vector <TData> out( _size );
 
             if( _data != NULL ) {
-                cudaError_t error = cudaMemcpy( out.data(), _data, _size * sizeof( TData ), cudaMemcpyDeviceToHost );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( out.data(), _data, _size * sizeof( TData ), cudaMemcpyDeviceToHost ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
 
diff --git a/src/cuda/image_buffer_cuda.cuh b/src/cuda/image_buffer_cuda.cuh
index 8f117f3..422db79 100644
--- a/src/cuda/image_buffer_cuda.cuh
+++ b/src/cuda/image_buffer_cuda.cuh
@@ -22,6 +22,7 @@
 
 #include "../image_buffer.h"
 #include "cuda_device.cuh"
+#include "cuda_helper.cuh"
 
 namespace penguinV
 {
@@ -73,15 +74,13 @@ namespace penguinV
 
         static void _copyMemory( TColorDepth * out, TColorDepth * in, size_t size )
         {
-            cudaError error = cudaMemcpy( out, in, size, cudaMemcpyDeviceToDevice );
-            if( error != cudaSuccess )
+            if( !multiCuda::cudaSafeCheck( cudaMemcpy( out, in, size, cudaMemcpyDeviceToDevice ) ) )
                 throw penguinVException( "Cannot copy a memory in CUDA device" );
         }
 
         static void _setMemory( TColorDepth * data, TColorDepth value, size_t size )
         {
-            cudaError_t error = cudaMemset( data, value, size );
-            if( error != cudaSuccess )
+            if( !multiCuda::cudaSafeCheck( cudaMemset( data, value, size ) ) )
                 throw penguinVException( "Cannot fill a memory for CUDA device" );
         }
     };
diff --git a/src/cuda/image_buffer_cuda_pinned.cuh b/src/cuda/image_buffer_cuda_pinned.cuh
index 7ecbae5..b1a3480 100644
--- a/src/cuda/image_buffer_cuda_pinned.cuh
+++ b/src/cuda/image_buffer_cuda_pinned.cuh
@@ -22,6 +22,7 @@
 
 #include <cuda_runtime.h>
 #include "../image_buffer.h"
+#include "cuda_helper.cuh"
 
 namespace penguinV
 {
@@ -65,8 +66,7 @@ namespace penguinV
         {
             TColorDepth * data = nullptr;
 
-            cudaError_t error = cudaMallocHost( &data, sizeof(TColorDepth) * size );
-            if( error != cudaSuccess )
+            if( !multiCuda::cudaSafeCheck( cudaMallocHost( &data, sizeof(TColorDepth) * size ) ) )
                 throw penguinVException( "Cannot allocate pinned memory on HOST" );
 
             return data;
@@ -74,8 +74,7 @@ namespace penguinV
 
         static void _deallocateMemory( TColorDepth * data )
         {
-            cudaError_t error = cudaFreeHost( data );
-            if( error != cudaSuccess )
+            if( !multiCuda::cudaSafeCheck( cudaFreeHost( data ) ) )
                 throw penguinVException( "Cannot deallocate pinned memory on HOST" );
         }
     };
-- 
2.43.0


From 6f94705009f7c74bb40b5e171b9a91ea9d0c356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 111/142] fix: empty CUDA arrays could not be copied

---
 src/cuda/cuda_types.cuh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cuda/cuda_types.cuh b/src/cuda/cuda_types.cuh
index 588d170..e26a574 100644
--- a/src/cuda/cuda_types.cuh
+++ b/src/cuda/cuda_types.cuh
@@ -286,6 +286,9 @@ namespace multiCuda
         {
             _allocate( in._size );
 
+            if( in._size == 0 )
+                return;
+
             if( in._data != NULL ) {
                 if( !cudaSafeCheck( cudaMemcpy( _data, in._data, _size * sizeof( TData ), cudaMemcpyDeviceToDevice ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
-- 
2.43.0


From 0b25d40368b5866713ff94eed34b188989265f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 112/142] fix: CUDA array reported elements which it does not
 have after a failed resize

---
 src/cuda/cuda_types.cuh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cuda/cuda_types.cuh b/src/cuda/cuda_types.cuh
index e26a574..d430a0f 100644
--- a/src/cuda/cuda_types.cuh
+++ b/src/cuda/cuda_types.cuh
@@ -268,6 +268,8 @@ namespace multiCuda
                 MemoryManager::memory().free( _data );
                 _data = NULL;
             }
+
+            _size = 0;
         }
 
         void _allocate( size_t size )
-- 
2.43.0


From 0bb7e3b7264017e34432f9d1c7695c98eaec0c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 113/142] fix: CUDA memory was never released if the first
 transfer to it failed

---
 src/cuda/cuda_types.cuh | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/cuda/cuda_types.cuh b/src/cuda/cuda_types.cuh
index d430a0f..d56f0ba 100644
--- a/src/cuda/cuda_types.cuh
+++ b/src/cuda/cuda_types.cuh
@@ -43,14 +43,28 @@ namespace multiCuda
             : _data( NULL )
         {
             _allocate();
-            _copyFrom( in );
+
+            try {
+                _copyFrom( in );
+            }
+            catch( ... ) {
+                _free(); // destructor is not called for an object which is not constructed
+                throw;
+            }
         }
 
         Type( const Type & in )
             : _data( NULL )
         {
             _allocate();
-            _copy( in );
+
+            try {
+                _copy( in );
+            }
+            catch( ... ) {
+                _free(); // destructor is not called for an object which is not constructed
+                throw;
+            }
         }
 
         Type( Type && in )
@@ -177,7 +191,14 @@ namespace multiCuda
             , _size( 0 )
         {
             _allocate( data.size() );
-            _copyFrom( data );
+
+            try {
+                _copyFrom( data );
+            }
+            catch( ... ) {
+                _free(); // destructor is not called for an object which is not constructed
+                throw;
+            }
         }
 
         Array( size_t size )
@@ -191,7 +212,13 @@ namespace multiCuda
             : _data( NULL )
             , _size( 0 )
         {
-            _copy( in );
+            try {
+                _copy( in );
+            }
+            catch( ... ) {
+                _free(); // destructor is not called for an object which is not constructed
+                throw;
+            }
         }
 
         Array ( Array && in )
-- 
2.43.0


From 90f3b372d6b56976c251e2f7830eb0298b9df238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 114/142] fix: filling of CUDA images with values of several
 bytes repeated only one of the bytes

---
 src/cuda/image_buffer_cuda.cuh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cuda/image_buffer_cuda.cuh b/src/cuda/image_buffer_cuda.cuh
index 422db79..ca5f465 100644
--- a/src/cuda/image_buffer_cuda.cuh
+++ b/src/cuda/image_buffer_cuda.cuh
@@ -80,6 +80,15 @@ namespace penguinV
 
         static void _setMemory( TColorDepth * data, TColorDepth value, size_t size )
         {
+            if( sizeof( TColorDepth ) > 1u ) {
+                // memory can be set only by single bytes
+                const std::vector<TColorDepth> values( size / sizeof( TColorDepth ), value );
+                if( !multiCuda::cudaSafeCheck( cudaMemcpy( data, values.data(), size, cudaMemcpyHostToDevice ) ) )
+                    throw penguinVException( "Cannot fill a memory for CUDA device" );
+
+                return;
+            }
+
             if( !multiCuda::cudaSafeCheck( cudaMemset( data, value, size ) ) )
                 throw penguinVException( "Cannot fill a memory for CUDA device" );
         }
-- 
2.43.0


From 2f99fbc6c3564261123b8c79530a2c398eaa0706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 115/142] fix: size of CUDA memory for too many elements
 wrapped around

---
 src/cuda/cuda_memory.cuh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cuda/cuda_memory.cuh b/src/cuda/cuda_memory.cuh
index f71eb70..5235e02 100644
--- a/src/cuda/cuda_memory.cuh
+++ b/src/cuda/cuda_memory.cuh
@@ -49,6 +49,9 @@ namespace multiCuda
         template <typename _DataType = uint8_t>
         _DataType* allocate( size_t size = 1 )
         {
+            if ( size > static_cast<size_t>( -1 ) / sizeof( _DataType ) )
+                throw std::logic_error( "Memory size to be allocated is bigger than available size on device" );
+
             size = size * sizeof( _DataType );
 
             if ( _data != nullptr && size < _size ) {
-- 
2.43.0


From 7c75647975ae24baf81eed962df6aac425755199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 116/142] fix: CUDA memory allocator could be damaged by
 several threads

---
 src/cuda/cuda_memory.cuh | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cuda/cuda_memory.cuh b/src/cuda/cuda_memory.cuh
index 5235e02..070612b 100644
--- a/src/cuda/cuda_memory.cuh
+++ b/src/cuda/cuda_memory.cuh
@@ -22,6 +22,7 @@
 
 #include <cuda_runtime.h>
 #include <map>
+#include <mutex>
 #include "../memory/memory_allocator.h"
 #include "cuda_helper.cuh"
 
@@ -54,6 +55,8 @@ namespace multiCuda
 
             size = size * sizeof( _DataType );
 
+            std::unique_lock<std::mutex> lock( _lock ); // it must be released even if an exception is thrown
+
             if ( _data != nullptr && size < _size ) {
                 const uint8_t level = _getAllocationLevel( size );
 
@@ -65,6 +68,8 @@ namespace multiCuda
                 }
             }
 
+            lock.unlock();
+
             // if no space in preallocated memory just allocate as usual memory
             _DataType* address = nullptr;
             if( !cudaSafeCheck( cudaMalloc( &address, size ) ) )
@@ -79,6 +84,8 @@ namespace multiCuda
         // otherwise CUDA specific function will be called
         void free( void * address )
         {
+            std::unique_lock<std::mutex> lock( _lock ); // it must be released even if an exception is thrown
+
             if ( _data != nullptr && address >= _data ) {
                 std::map <size_t, uint8_t>::iterator pos =
                     _allocatedChunk.find( static_cast<uint8_t*>(address) - static_cast<uint8_t*>(_data) );
@@ -91,6 +98,8 @@ namespace multiCuda
                 }
             }
 
+            lock.unlock();
+
             if( !cudaSafeCheck( cudaFree( address ) ) )
                 throw std::logic_error( "Cannot deallocate memory for CUDA device" );
         }
@@ -108,6 +117,9 @@ namespace multiCuda
         // first parameter is an offset from preallocated memory, second parameter is a power of 2 (level)
         std::map <size_t, uint8_t> _allocatedChunk;
 
+        // protects information about chunks if several threads use the same device
+        std::mutex _lock;
+
         // true memory allocation on devices with CUDA support
         virtual void _allocate( size_t size )
         {
-- 
2.43.0


From d89ff44a33b92323f7244569971c5e010ee77b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 117/142] fix: closing of a CUDA device made the closed device
 active

---
 src/cuda/cuda_device.cu | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cuda/cuda_device.cu b/src/cuda/cuda_device.cu
index e9876d0..8c3a579 100644
--- a/src/cuda/cuda_device.cu
+++ b/src/cuda/cuda_device.cu
@@ -60,8 +60,7 @@ namespace
         ~DeviceAutoRestorer()
         {
             if( _currentDeviceId != _previousDeviceId ) {
-                multiCuda::cudaCheck( cudaSetDevice( _previousDeviceId ) );
-                setDefaultDeviceId( _previousDeviceId );
+                multiCuda::cudaSafeCheck( cudaSetDevice( _previousDeviceId ) ); // destructor must not throw an exception
             }
         }
 
@@ -122,7 +121,9 @@ namespace multiCuda
 
     CudaDevice::~CudaDevice()
     {
-        setActive();
+        // streams and memory belong to this device while any other device could be active
+        DeviceAutoRestorer restorer( _deviceId );
+
         delete _allocator;
 
         for( std::vector< CudaStream * >::iterator streamId = _stream.begin(); streamId != _stream.end(); ++streamId )
-- 
2.43.0


From 9c0ed4bf8665c01b3a2a823f8ff7e0b391424ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 118/142] fix: streams of a CUDA device which is not active
 were created on the active device

---
 src/cuda/cuda_device.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cuda/cuda_device.cu b/src/cuda/cuda_device.cu
index 8c3a579..6267dd7 100644
--- a/src/cuda/cuda_device.cu
+++ b/src/cuda/cuda_device.cu
@@ -243,6 +243,8 @@ namespace multiCuda
     {
         if( streamCount != _stream.size() ) {
             if( streamCount > _stream.size() ) {
+                DeviceAutoRestorer restorer( _deviceId ); // a stream belongs to a device which is active at the moment of its creation
+
                 while( streamCount != _stream.size() )
                     _stream.push_back( new CudaStream() );
             }
-- 
2.43.0


From 64586089dde22570478128b5359267b447ec462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 119/142] fix: synchronization of a CUDA device which is not
 active waited for the active device

---
 src/cuda/cuda_device.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cuda/cuda_device.cu b/src/cuda/cuda_device.cu
index 6267dd7..93fbb43 100644
--- a/src/cuda/cuda_device.cu
+++ b/src/cuda/cuda_device.cu
@@ -200,6 +200,8 @@ namespace multiCuda
 
     void CudaDevice::synchronize()
     {
+        DeviceAutoRestorer restorer( _deviceId ); // only the active device is synchronized
+
         cudaCheck( cudaDeviceSynchronize() );
     }
 
-- 
2.43.0


From dc7d50127059aff6ae8d3dcefa00cc9653a386c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 120/142] fix: CUDA transforms exchanged width and height of
 data

---
 src/cuda/cuda_fft.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 0f8ac54..103cde3 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -227,7 +227,8 @@ namespace FFT_Cuda
 
     void FFTExecutor::_makePlans()
     {
-        if ( cufftPlan2d( &_plan, _width, _height, CUFFT_C2C ) != CUFFT_SUCCESS )
+        // the last dimension is the one which is continuous in memory
+        if ( cufftPlan2d( &_plan, _height, _width, CUFFT_C2C ) != CUFFT_SUCCESS )
             throw penguinVException( "Cannot create FFT plan on CUDA device" );
     }
 }
-- 
2.43.0


From 16a378a658d7ede3ca54f0cc30ef97e0338e86a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 121/142] fix: CUDA complex data was taken from wrong positions
 of an image with aligned rows

---
 src/cuda/cuda_fft.cu | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 103cde3..7c0d63b 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -27,14 +27,14 @@
 
 namespace
 {
-    __global__ void copyFromImageCuda( const uint8_t * in, cufftComplex * out, uint32_t width, uint32_t height )
+    __global__ void copyFromImageCuda( const uint8_t * in, uint32_t rowSizeIn, cufftComplex * out, uint32_t width, uint32_t height )
     {
         const uint32_t x = blockDim.x * blockIdx.x + threadIdx.x;
         const uint32_t y = blockDim.y * blockIdx.y + threadIdx.y;
 
         if( x < width && y < height ) {
             const uint32_t id = y * width + x;
-            out[id].x = in[id];
+            out[id].x = in[y * rowSizeIn + x];
             out[id].y = 0;
         }
     }
@@ -125,7 +125,7 @@ namespace FFT_Cuda
         _height = image.height();
 
         launchKernel2D( copyFromImageCuda, _width, _height,
-                        image.data(), _data, _width, _height );
+                        image.data(), image.rowSize(), _data, _width, _height );
     }
 
     void ComplexData::set( const multiCuda::Array<float> & data )
-- 
2.43.0


From 74665ac1166188b0013c08abd22bad2b4d4cfab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 122/142] fix: CUDA complex data of odd sizes lost rows and
 columns while being converted into an image

---
 src/cuda/cuda_fft.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 7c0d63b..51efad5 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -62,8 +62,8 @@ namespace
             const uint32_t middleX = width / 2;
             const uint32_t middleY = height / 2;
 
-            const uint32_t outX = (inX < middleX) ? middleX + inX : inX - middleX;
-            const uint32_t outY = (inY < middleY) ? middleY + inY : inY - middleY;
+            const uint32_t outX = (inX < width  - middleX) ? middleX + inX : inX - (width  - middleX);
+            const uint32_t outY = (inY < height - middleY) ? middleY + inY : inY - (height - middleY);
 
             out[outY * width + outX] = static_cast<uint8_t>(in[id].x / size + 0.5f);
         }
-- 
2.43.0


From 45c745bf3362c881f2ea6ec2f81d798ed93b48f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 123/142] fix: CUDA complex values beyond the range of pixel
 values were converted without limits

---
 src/cuda/cuda_fft.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 51efad5..81066e1 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -65,7 +65,8 @@ namespace
             const uint32_t outX = (inX < width  - middleX) ? middleX + inX : inX - (width  - middleX);
             const uint32_t outY = (inY < height - middleY) ? middleY + inY : inY - (height - middleY);
 
-            out[outY * width + outX] = static_cast<uint8_t>(in[id].x / size + 0.5f);
+            const float value = in[id].x / size + 0.5f;
+            out[outY * width + outX] = (value >= 255.0f) ? 255 : (value > 0.0f ? static_cast<uint8_t>(value) : 0);
         }
     }
 
-- 
2.43.0


From e3bea836e7977e845a7d62e43ec1d64e4d792795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 124/142] fix: CUDA complex multiplication was wrong if output
 data was the same as one of inputs

---
 src/cuda/cuda_fft.cu | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 81066e1..e409d4f 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -81,8 +81,13 @@ namespace
 
         if( x < width && y < height ) {
             const uint32_t id = y * width + x;
-            out[id].x = in1[id].x * in2[id].x - in1[id].y * in2[id].y;
-            out[id].y = in1[id].x * in2[id].y + in1[id].y * in2[id].x;
+
+            // output data could be the same as one of inputs so both parts must be calculated before being stored
+            const float real      = in1[id].x * in2[id].x - in1[id].y * in2[id].y;
+            const float imaginary = in1[id].x * in2[id].y + in1[id].y * in2[id].x;
+
+            out[id].x = real;
+            out[id].y = imaginary;
         }
     }
 }
-- 
2.43.0


From 99232abbc1a4680e3a996adc20d85236da1effef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 125/142] fix: CUDA complex multiplication used the size of the
 executor instead of the size of data

---
 src/cuda/cuda_fft.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index e409d4f..58d7bcd 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -218,8 +218,8 @@ namespace FFT_Cuda
         if ( !FFT::equalSize( in1, in2 ) || !FFT::equalSize( in1, out ) || in1.width() == 0 || in2.height() == 0 )
             throw penguinVException( "Invalid parameters for FFTExecutor" );
 
-        launchKernel2D( complexMultiplicationCuda, _width, _height,
-                        in1.data(), in2.data(), out.data(), _width, _height );
+        launchKernel2D( complexMultiplicationCuda, in1.width(), in1.height(),
+                        in1.data(), in2.data(), out.data(), in1.width(), in1.height() );
     }
 
     void FFTExecutor::_cleanPlans()
-- 
2.43.0


From bc4a239f33a382a3609eb0acda05362dbf0c93cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 126/142] fix: CUDA transform executor could not be created
 without size

---
 src/cuda/cuda_fft.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 58d7bcd..820f5c0 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -177,7 +177,8 @@ namespace FFT_Cuda
     FFTExecutor::FFTExecutor( uint32_t width_, uint32_t height_ )
         : _plan ( 0 )
     {
-        initialize( width_, height_ );
+        if ( width_ != 0u || height_ != 0u )
+            initialize( width_, height_ );
     }
 
     FFTExecutor::~FFTExecutor()
-- 
2.43.0


From 66fd4ec0a1cc54b3f03b407e43323a2f918311c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 127/142] fix: CUDA complex data was never released if its
 creation failed

---
 src/cuda/cuda_fft.cu | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 820f5c0..1af8f25 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -100,12 +100,24 @@ namespace FFT_Cuda
 
     ComplexData::ComplexData( const penguinV::Image & image )
     {
-        set( image );
+        try {
+            set( image );
+        }
+        catch ( ... ) {
+            _clean(); // destructor is not called for an object which is not constructed
+            throw;
+        }
     }
 
     ComplexData::ComplexData( const ComplexData & data )
     {
-        _copy( data );
+        try {
+            _copy( data );
+        }
+        catch ( ... ) {
+            _clean(); // destructor is not called for an object which is not constructed
+            throw;
+        }
     }
 
     ComplexData::ComplexData( ComplexData && data )
-- 
2.43.0


From e8d33e0706ebceea0759decd5b2da2831a62fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 128/142] fix: CUDA Gaussian filter shifted images of odd sizes

---
 src/cuda/filtering_cuda.cu | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/cuda/filtering_cuda.cu b/src/cuda/filtering_cuda.cu
index 84b5311..cfa0496 100644
--- a/src/cuda/filtering_cuda.cu
+++ b/src/cuda/filtering_cuda.cu
@@ -18,6 +18,7 @@
  *   59 Temple Place - Suite 330, Boston, MA  02111-1307, USA.             *
  ***************************************************************************/
 
+#include <algorithm>
 #include <cmath>
 #include <cuda_runtime.h>
 #include "filtering_cuda.cuh"
@@ -47,7 +48,22 @@ namespace Image_Function_Cuda
             throw penguinVException( "Sigma value cannot be negative" );
 
         FFT_Cuda::ComplexData image( in );
-        FFT_Cuda::ComplexData filter = GetGaussianKernel( in.width(), in.height(), kernelSize, sigma );
+
+        std::vector<float> kernel;
+        Image_Function::GetGaussianKernel( kernel, in.width(), in.height(), kernelSize, sigma );
+
+        // quadrants of the result are swapped which compensates a position of the kernel in the middle only for even sizes
+        if ( in.width() % 2 != 0 ) {
+            for ( std::vector<float>::iterator row = kernel.begin(); row != kernel.end(); row += in.width() )
+                std::rotate( row, row + in.width() - 1, row + in.width() );
+        }
+
+        if ( in.height() % 2 != 0 )
+            std::rotate( kernel.begin(), kernel.end() - in.width(), kernel.end() );
+
+        FFT_Cuda::ComplexData filter;
+        filter.resize( in.width(), in.height() );
+        filter.set( multiCuda::Array<float>( kernel ) );
 
         FFT_Cuda::FFTExecutor executor( in.width(), in.height() );
 
-- 
2.43.0


From 9a61f750ab84139cb71f41c81c208ac4304df478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 129/142] fix: number of threads in a 3-dimensional CUDA block
 ignored its depth

---
 src/cuda/cuda_helper.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuda/cuda_helper.cu b/src/cuda/cuda_helper.cu
index b2021b8..e909cfb 100644
--- a/src/cuda/cuda_helper.cu
+++ b/src/cuda/cuda_helper.cu
@@ -73,7 +73,7 @@ namespace
             threadsPerBlock.y = threadTotalCount / (threadsPerBlock.x * threadsPerBlock.z);
         }
 
-        adjust2DThreadsPerBlock( threadTotalCount, blockDimension, threadsPerBlock );
+        adjust2DThreadsPerBlock( threadTotalCount / threadsPerBlock.z, blockDimension, threadsPerBlock );
     }
 }
 
-- 
2.43.0


From dac3b158152030ef93ef3981d9bb8459dde72060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:40 +0000
Subject: [PATCH 130/142] fix: memory of a device image was lost if its copying
 failed

---
 src/image_buffer.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index 608f20e..91dcdb3 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -221,7 +221,13 @@ namespace penguinV
             if ( image._data != nullptr ) {
                 _data = _allocate( static_cast<size_t>( image._height ) * static_cast<size_t>( image._rowSize ) );
 
-                _copy( _data, image._data, sizeof( TColorDepth ) * image._height * image._rowSize );
+                try {
+                    _copy( _data, image._data, sizeof( TColorDepth ) * image._height * image._rowSize );
+                }
+                catch ( ... ) {
+                    clear(); // memory must not be lost, also when it is a copy constructor whose destructor is not called
+                    throw;
+                }
             }
 
             _width = image._width;
-- 
2.43.0


From 532ea9d170e9bde211cc478b0e9e6d5e49478ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:09 +0000
Subject: [PATCH 131/142] fix: memory of a CUDA device which is not active was
 allocated on the active device

---
 src/cuda/cuda_memory.cuh | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/cuda/cuda_memory.cuh b/src/cuda/cuda_memory.cuh
index 070612b..9dd11c2 100644
--- a/src/cuda/cuda_memory.cuh
+++ b/src/cuda/cuda_memory.cuh
@@ -35,9 +35,12 @@ namespace multiCuda
         explicit MemoryAllocator( size_t availableSpace )
             : _data         ( nullptr )
             , _availableSize( availableSpace )
+            , _deviceId     ( 0 )
         {
             if ( _availableSize == 0 )
                 throw std::logic_error( "Available size cannot be 0" );
+
+            cudaCheck( cudaGetDevice( &_deviceId ) );
         }
 
         virtual ~MemoryAllocator()
@@ -72,8 +75,7 @@ namespace multiCuda
 
             // if no space in preallocated memory just allocate as usual memory
             _DataType* address = nullptr;
-            if( !cudaSafeCheck( cudaMalloc( &address, size ) ) )
-                throw std::logic_error( "Cannot allocate a memory for CUDA device" );
+            _allocateOnDevice( reinterpret_cast<void**>( &address ), size );
 
             return address;
         }
@@ -112,6 +114,7 @@ namespace multiCuda
     private:
         void * _data; // a pointer to memory allocated chunk
         const size_t _availableSize; // maximum available memory size
+        int _deviceId; // ID of the device which memory is allocated on, it is not necessarily the active device
 
         // a map which holds an information about allocated memory in preallocated memory chunk
         // first parameter is an offset from preallocated memory, second parameter is a power of 2 (level)
@@ -120,6 +123,24 @@ namespace multiCuda
         // protects information about chunks if several threads use the same device
         std::mutex _lock;
 
+        // allocates memory on the device of this allocator even if another device is active
+        void _allocateOnDevice( void ** address, size_t size )
+        {
+            int activeDeviceId = _deviceId;
+            cudaCheck( cudaGetDevice( &activeDeviceId ) );
+
+            if ( activeDeviceId != _deviceId )
+                cudaCheck( cudaSetDevice( _deviceId ) );
+
+            const bool allocated = cudaSafeCheck( cudaMalloc( address, size ) );
+
+            if ( activeDeviceId != _deviceId )
+                cudaCheck( cudaSetDevice( activeDeviceId ) );
+
+            if ( !allocated )
+                throw std::logic_error( "Cannot allocate a memory for CUDA device" );
+        }
+
         // true memory allocation on devices with CUDA support
         virtual void _allocate( size_t size )
         {
@@ -132,8 +153,7 @@ namespace multiCuda
 
                 _free();
 
-                if( !cudaSafeCheck( cudaMalloc( &_data, size ) ) )
-                    throw std::logic_error( "Cannot allocate a memory for CUDA device" );
+                _allocateOnDevice( &_data, size );
 
                 _size = size;
             }
@@ -153,6 +173,7 @@ namespace multiCuda
 
         MemoryAllocator( const MemoryAllocator & )
             : _availableSize( 0 )
+            , _deviceId     ( 0 )
         {
         }
 
-- 
2.43.0


From c3635ae4dc36860c4f800ce6a721955ac04bb3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 132/142] fix: size of a CUDA grid was calculated modulo 2^32

---
 src/cuda/cuda_helper.cu | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cuda/cuda_helper.cu b/src/cuda/cuda_helper.cu
index e909cfb..d67a5f7 100644
--- a/src/cuda/cuda_helper.cu
+++ b/src/cuda/cuda_helper.cu
@@ -164,10 +164,10 @@ namespace multiCuda
 
         const uint32_t threadsPerBlockX = (threadTotalCount <= blockDimension.x) ? threadTotalCount : blockDimension.x;
 
-        if( threadsPerBlockX * dimensionSize.x < sizeX )
+        if( static_cast<uint64_t>(threadsPerBlockX) * dimensionSize.x < sizeX )
             throw penguinVException( "Input parameters for kernel execution are out of limits" );
 
-        return GridParameters( (sizeX + threadsPerBlockX - 1) / threadsPerBlockX, threadsPerBlockX );
+        return GridParameters( sizeX / threadsPerBlockX + (sizeX % threadsPerBlockX != 0 ? 1 : 0), threadsPerBlockX );
     }
 
     GridParameters getGridParameters( uint32_t sizeX, uint32_t sizeY )
@@ -180,11 +180,11 @@ namespace multiCuda
         dim3 threadsPerBlock = get2DThreadsPerBlock( threadTotalCount );
         adjust2DThreadsPerBlock( threadTotalCount, blockDimension, threadsPerBlock );
 
-        if( (threadsPerBlock.x * dimensionSize.x < sizeX) || (threadsPerBlock.y * dimensionSize.y < sizeY) )
+        if( (static_cast<uint64_t>(threadsPerBlock.x) * dimensionSize.x < sizeX) || (static_cast<uint64_t>(threadsPerBlock.y) * dimensionSize.y < sizeY) )
             throw penguinVException( "Input parameters for kernel execution are out of limits" );
 
-        const dim3 blocksPerGrid( (sizeX + threadsPerBlock.x - 1) / threadsPerBlock.x,
-                                  (sizeY + threadsPerBlock.y - 1) / threadsPerBlock.y );
+        const dim3 blocksPerGrid( sizeX / threadsPerBlock.x + (sizeX % threadsPerBlock.x != 0 ? 1 : 0),
+                                  sizeY / threadsPerBlock.y + (sizeY % threadsPerBlock.y != 0 ? 1 : 0) );
 
         return GridParameters( blocksPerGrid, threadsPerBlock );
     }
@@ -199,12 +199,12 @@ namespace multiCuda
         dim3 threadsPerBlock = get3DThreadsPerBlock( threadTotalCount );
         adjust3DThreadsPerBlock( threadTotalCount, blockDimension, threadsPerBlock );
 
-        if( (threadsPerBlock.x * dimensionSize.x < sizeX) || (threadsPerBlock.y * dimensionSize.y < sizeY) || (threadsPerBlock.z * dimensionSize.z < sizeZ) )
+        if( (static_cast<uint64_t>(threadsPerBlock.x) * dimensionSize.x < sizeX) || (static_cast<uint64_t>(threadsPerBlock.y) * dimensionSize.y < sizeY) || (static_cast<uint64_t>(threadsPerBlock.z) * dimensionSize.z < sizeZ) )
             throw penguinVException( "Input parameters for kernel execution are out of limits" );
 
-        const dim3 blocksPerGrid( (sizeX + threadsPerBlock.x - 1) / threadsPerBlock.x,
-                                  (sizeY + threadsPerBlock.y - 1) / threadsPerBlock.y,
-                                  (sizeZ + threadsPerBlock.z - 1) / threadsPerBlock.z );
+        const dim3 blocksPerGrid( sizeX / threadsPerBlock.x + (sizeX % threadsPerBlock.x != 0 ? 1 : 0),
+                                  sizeY / threadsPerBlock.y + (sizeY % threadsPerBlock.y != 0 ? 1 : 0),
+                                  sizeZ / threadsPerBlock.z + (sizeZ % threadsPerBlock.z != 0 ? 1 : 0) );
 
         return GridParameters( blocksPerGrid, threadsPerBlock );
     }
-- 
2.43.0


From 83a2f7660aeca4dff834740158164e14c30f31f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 133/142] fix: X11 window was not displayed if the default
 screen is not the first screen

---
 src/ui/x11/x11_ui.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ui/x11/x11_ui.cpp b/src/ui/x11/x11_ui.cpp
index aaf1fd5..c0e04bd 100644
--- a/src/ui/x11/x11_ui.cpp
+++ b/src/ui/x11/x11_ui.cpp
@@ -38,6 +38,7 @@ UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & tit
     if ( _uiDisplay == nullptr )
         throw penguinVException( "Cannot create window for display" );
 
+    _screen = DefaultScreen( _uiDisplay );
     _window = XCreateSimpleWindow( _uiDisplay, RootWindow( _uiDisplay, _screen ), 10, 10, _width, _height, 1, BlackPixel( _uiDisplay, _screen ),
                                    WhitePixel( _uiDisplay, _screen ) );
     XSelectInput( _uiDisplay, _window, ExposureMask | KeyPressMask );
@@ -122,9 +123,8 @@ void UiWindowX11::_setupImage( const penguinV::Image & image )
         }
     }
 
-    const int defaultScreen = DefaultScreen( _uiDisplay );
-    _image = XCreateImage( _uiDisplay, DefaultVisual( _uiDisplay, defaultScreen ), static_cast<uint32_t>( DefaultDepth( _uiDisplay, defaultScreen ) ), ZPixmap, 0,
-                           _data.data(), _width, _height, 32, 0 );
+    _image = XCreateImage( _uiDisplay, DefaultVisual( _uiDisplay, _screen ), static_cast<uint32_t>( DefaultDepth( _uiDisplay, _screen ) ), ZPixmap, 0, _data.data(),
+                           _width, _height, 32, 0 );
 }
 
 void UiWindowX11::drawPoint( const Point2d & point, const PaintColor & color )
-- 
2.43.0


From 9bde429d980f404f745c4f6973c55f6900f63a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 134/142] fix: X11 window with an empty image led to an error
 of X server

---
 src/ui/x11/x11_ui.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ui/x11/x11_ui.cpp b/src/ui/x11/x11_ui.cpp
index c0e04bd..d3ca938 100644
--- a/src/ui/x11/x11_ui.cpp
+++ b/src/ui/x11/x11_ui.cpp
@@ -23,6 +23,7 @@
 #ifndef _WIN32 // Not for Windows
 
 #include "../../penguinv_exception.h"
+#include <algorithm>
 
 UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & title )
     : UiWindow( image, title )
@@ -39,8 +40,8 @@ UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & tit
         throw penguinVException( "Cannot create window for display" );
 
     _screen = DefaultScreen( _uiDisplay );
-    _window = XCreateSimpleWindow( _uiDisplay, RootWindow( _uiDisplay, _screen ), 10, 10, _width, _height, 1, BlackPixel( _uiDisplay, _screen ),
-                                   WhitePixel( _uiDisplay, _screen ) );
+    _window = XCreateSimpleWindow( _uiDisplay, RootWindow( _uiDisplay, _screen ), 10, 10, std::max( _width, 1u ), std::max( _height, 1u ), 1,
+                                   BlackPixel( _uiDisplay, _screen ), WhitePixel( _uiDisplay, _screen ) );
     XSelectInput( _uiDisplay, _window, ExposureMask | KeyPressMask );
     XMapWindow( _uiDisplay, _window );
 
@@ -68,7 +69,8 @@ void UiWindowX11::_display()
         XNextEvent( _uiDisplay, &e );
         if ( e.type == Expose ) {
             GC defaultGC = DefaultGC( _uiDisplay, _screen );
-            XPutImage( _uiDisplay, _window, defaultGC, _image, 0, 0, 0, 0, _width, _height );
+            if ( _image != nullptr )
+                XPutImage( _uiDisplay, _window, defaultGC, _image, 0, 0, 0, 0, _width, _height );
 
             for ( size_t i = 0u; i < _point.size(); ++i ) {
                 const Point2d & point = _point[i].first;
-- 
2.43.0


From 23a4e4c5052311a77755a1abb271ec8b644b115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 135/142] fix: X11 window did not release its image as well as
 its display if it could not be created

---
 src/ui/x11/x11_ui.cpp | 28 +++++++++++++++++++++++++---
 src/ui/x11/x11_ui.h   |  2 ++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/ui/x11/x11_ui.cpp b/src/ui/x11/x11_ui.cpp
index d3ca938..0ffa55a 100644
--- a/src/ui/x11/x11_ui.cpp
+++ b/src/ui/x11/x11_ui.cpp
@@ -23,6 +23,7 @@
 #ifndef _WIN32 // Not for Windows
 
 #include "../../penguinv_exception.h"
+#include <X11/Xutil.h>
 #include <algorithm>
 
 UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & title )
@@ -50,13 +51,18 @@ UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & tit
     _deleteWindowEvent = XInternAtom( _uiDisplay, "WM_DELETE_WINDOW", False );
     XSetWMProtocols( _uiDisplay, _window, &_deleteWindowEvent, 1 );
 
-    _setupImage( image );
+    try {
+        _setupImage( image );
+    }
+    catch ( ... ) {
+        _free();
+        throw;
+    }
 }
 
 UiWindowX11::~UiWindowX11()
 {
-    XDestroyWindow( _uiDisplay, _window );
-    XCloseDisplay( _uiDisplay );
+    _free();
 }
 
 void UiWindowX11::_display()
@@ -129,6 +135,22 @@ void UiWindowX11::_setupImage( const penguinV::Image & image )
                            _width, _height, 32, 0 );
 }
 
+void UiWindowX11::_freeImage()
+{
+    if ( _image != nullptr ) {
+        _image->data = nullptr; // the memory belongs to _data
+        XDestroyImage( _image );
+        _image = nullptr;
+    }
+}
+
+void UiWindowX11::_free()
+{
+    _freeImage();
+    XDestroyWindow( _uiDisplay, _window );
+    XCloseDisplay( _uiDisplay );
+}
+
 void UiWindowX11::drawPoint( const Point2d & point, const PaintColor & color )
 {
     _point.push_back( std::make_pair( point, ( color.red << 16 ) + ( color.green << 8 ) + color.blue ) );
diff --git a/src/ui/x11/x11_ui.h b/src/ui/x11/x11_ui.h
index dfee3c1..d74f971 100644
--- a/src/ui/x11/x11_ui.h
+++ b/src/ui/x11/x11_ui.h
@@ -51,6 +51,8 @@ private:
     std::vector<std::pair<Point2d, uint32_t>> _point;
 
     void _setupImage( const penguinV::Image & image );
+    void _freeImage();
+    void _free();
 };
 
 #endif
-- 
2.43.0


From 9e6106f8d80ad205bf953f6888ec172c9175c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 136/142] fix: X11 window continued to show the previous image
 after an image was set

---
 src/ui/x11/x11_ui.cpp | 25 +++++++++++++++++++++++--
 src/ui/x11/x11_ui.h   |  2 ++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/ui/x11/x11_ui.cpp b/src/ui/x11/x11_ui.cpp
index 0ffa55a..76c9167 100644
--- a/src/ui/x11/x11_ui.cpp
+++ b/src/ui/x11/x11_ui.cpp
@@ -65,6 +65,21 @@ UiWindowX11::~UiWindowX11()
     _free();
 }
 
+void UiWindowX11::setImage( const penguinV::Image & image )
+{
+    _validateImage( image );
+
+    _freeImage();
+    _width = image.width();
+    _height = image.height();
+    _setupImage( image );
+
+    XResizeWindow( _uiDisplay, _window, std::max( _width, 1u ), std::max( _height, 1u ) );
+    XClearArea( _uiDisplay, _window, 0, 0, 0, 0, True );
+
+    UiWindow::setImage( image );
+}
+
 void UiWindowX11::_display()
 {
     if ( !_shown ) // we don't need to display anything
@@ -90,8 +105,16 @@ void UiWindowX11::_display()
     }
 }
 
+void UiWindowX11::_validateImage( const penguinV::Image & image )
+{
+    if ( !image.empty() && image.colorCount() != penguinV::GRAY_SCALE && image.colorCount() != penguinV::RGB )
+        throw penguinVException( "Color image has different than 3 color channels." );
+}
+
 void UiWindowX11::_setupImage( const penguinV::Image & image )
 {
+    _validateImage( image );
+
     if ( image.empty() )
         return;
 
@@ -116,8 +139,6 @@ void UiWindowX11::_setupImage( const penguinV::Image & image )
         }
     }
     else {
-        if ( image.colorCount() != penguinV::RGB )
-            throw penguinVException( "Color image has different than 3 color channels." );
         for ( ; imageY != imageYEnd; imageY += rowSize ) {
             const uint8_t * imageX = imageY;
             const uint8_t * imageXEnd = imageX + _width * 3u;
diff --git a/src/ui/x11/x11_ui.h b/src/ui/x11/x11_ui.h
index d74f971..13e4667 100644
--- a/src/ui/x11/x11_ui.h
+++ b/src/ui/x11/x11_ui.h
@@ -33,6 +33,7 @@ public:
     explicit UiWindowX11( const penguinV::Image & image = penguinV::Image(), const std::string & title = std::string() );
     virtual ~UiWindowX11();
 
+    virtual void setImage( const penguinV::Image & image );
     virtual void drawPoint( const Point2d & point, const PaintColor & color );
 
 protected:
@@ -50,6 +51,7 @@ private:
 
     std::vector<std::pair<Point2d, uint32_t>> _point;
 
+    static void _validateImage( const penguinV::Image & image );
     void _setupImage( const penguinV::Image & image );
     void _freeImage();
     void _free();
-- 
2.43.0


From b7cbacc51400e61fa13b0762129ebd732b06d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 137/142] fix: Qt window continued to show the previous image
 after an image was set

---
 src/ui/qt/qt_ui.cpp | 19 ++++++++++++++++---
 src/ui/qt/qt_ui.h   |  3 +++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/ui/qt/qt_ui.cpp b/src/ui/qt/qt_ui.cpp
index ef7a6e7..08b588c 100644
--- a/src/ui/qt/qt_ui.cpp
+++ b/src/ui/qt/qt_ui.cpp
@@ -25,16 +25,29 @@
 
 UiWindowQt::UiWindowQt( const penguinV::Image & image, const std::string & title )
     : UiWindow( image, title )
+{
+    _setupImage();
+    _window.window()->setWindowTitle( QString::fromStdString( _title ) );
+}
+
+UiWindowQt::~UiWindowQt() {}
+
+void UiWindowQt::setImage( const penguinV::Image & image )
+{
+    _image = image;
+    _setupImage();
+    _window.adjustSize();
+    _display();
+}
+
+void UiWindowQt::_setupImage()
 {
     const QImage imageQt( _image.data(), static_cast<int>( _image.width() ), static_cast<int>( _image.height() ), static_cast<int>( _image.rowSize() ),
                           ( _image.colorCount() == 1u ) ? QImage::Format_Grayscale8 : QImage::Format_RGB888 );
     _pixmap = QPixmap::fromImage( imageQt );
     _window.setPixmap( _pixmap );
-    _window.window()->setWindowTitle( QString::fromStdString( _title ) );
 }
 
-UiWindowQt::~UiWindowQt() {}
-
 void UiWindowQt::_display()
 {
     if ( !_shown ) // we don't need to display anything
diff --git a/src/ui/qt/qt_ui.h b/src/ui/qt/qt_ui.h
index 312f4b3..b0a9e13 100644
--- a/src/ui/qt/qt_ui.h
+++ b/src/ui/qt/qt_ui.h
@@ -30,6 +30,7 @@ public:
     explicit UiWindowQt( const penguinV::Image & image = penguinV::Image(), const std::string & title = std::string() );
     virtual ~UiWindowQt();
 
+    virtual void setImage( const penguinV::Image & image );
     virtual void drawPoint( const Point2d & point, const PaintColor & color );
     virtual void drawLine( const Point2d & start, const Point2d & end, const PaintColor & color );
     virtual void drawEllipse( const Point2d & center, double xRadius, double yRadius, const PaintColor & color );
@@ -41,4 +42,6 @@ protected:
 private:
     QPixmap _pixmap;
     QLabel _window;
+
+    void _setupImage();
 };
-- 
2.43.0


From 1ed844f8dee160118301ddff3f6ec5737f7030a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 138/142] fix: Qt window showed an image with 4 color channels
 as an image with 3 color channels

---
 src/ui/qt/qt_ui.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ui/qt/qt_ui.cpp b/src/ui/qt/qt_ui.cpp
index 08b588c..bbed13b 100644
--- a/src/ui/qt/qt_ui.cpp
+++ b/src/ui/qt/qt_ui.cpp
@@ -42,8 +42,13 @@ void UiWindowQt::setImage( const penguinV::Image & image )
 
 void UiWindowQt::_setupImage()
 {
-    const QImage imageQt( _image.data(), static_cast<int>( _image.width() ), static_cast<int>( _image.height() ), static_cast<int>( _image.rowSize() ),
-                          ( _image.colorCount() == 1u ) ? QImage::Format_Grayscale8 : QImage::Format_RGB888 );
+    QImage::Format format = QImage::Format_RGB888;
+    if ( _image.colorCount() == penguinV::GRAY_SCALE )
+        format = QImage::Format_Grayscale8;
+    else if ( _image.colorCount() == penguinV::RGBA )
+        format = QImage::Format_RGBA8888;
+
+    const QImage imageQt( _image.data(), static_cast<int>( _image.width() ), static_cast<int>( _image.height() ), static_cast<int>( _image.rowSize() ), format );
     _pixmap = QPixmap::fromImage( imageQt );
     _window.setPixmap( _pixmap );
 }
-- 
2.43.0


From 4b5ca69d82c3020eb9746731d3ae4fae0bbf226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 139/142] fix: histogram with big or floating point values was
 displayed wrongly

---
 src/tool/ui/tool_ui.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tool/ui/tool_ui.h b/src/tool/ui/tool_ui.h
index 5700b2d..3bbf300 100644
--- a/src/tool/ui/tool_ui.h
+++ b/src/tool/ui/tool_ui.h
@@ -34,7 +34,7 @@ void DisplayHistogram( UiWindow & window, const std::vector<_Type> & histogram )
     if ( minValue >= maxValue )
         return;
 
-    const _Type range = maxValue - minValue;
+    const double range = static_cast<double>( maxValue ) - static_cast<double>( minValue );
 
     penguinV::Image image( histogram.size(), 100 );
     image.fill( 0u );
@@ -43,9 +43,9 @@ void DisplayHistogram( UiWindow & window, const std::vector<_Type> & histogram )
     uint8_t * dataX = image.data() + ( image.height() - 1u ) * rowSize;
 
     for ( size_t i = 0u; i < histogram.size(); ++i, ++dataX ) {
-        const _Type limit = ( histogram[i] - minValue ) * 100 / range;
+        const uint32_t limit = static_cast<uint32_t>( ( static_cast<double>( histogram[i] ) - static_cast<double>( minValue ) ) * 100 / range );
         uint8_t * dataY = dataX;
-        for ( _Type y = 0; y < limit; ++y, dataY -= rowSize )
+        for ( uint32_t y = 0; y < limit; ++y, dataY -= rowSize )
             *dataY = 255;
     }
 
-- 
2.43.0


From 20cc87baa97e57eb4e339f266ce5b883f1389bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:42 +0000
Subject: [PATCH 140/142] fix: add up the upper half of values in the vertical
 projection profile for NEON

Function: simd::ProjectionProfile. The sums of columns 8 to 15 of every 16 were those of columns 0 to 7.
---
 src/image_function_simd.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 03ea447..52938d7 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2234,11 +2234,12 @@ namespace neon
                     const uint8x16_t data = vld1q_u8( src );
 
                     const uint16x8_t dataLo = vaddl_u8( vget_low_u8( data ), zero );
+                    const uint16x8_t dataHi = vaddl_u8( vget_high_u8( data ), zero );
 
                     const uint32x4_t data_1 = vaddl_u16( vget_low_u16( dataLo ), zero_16 );
                     const uint32x4_t data_2 = vaddl_u16( vget_high_u16( dataLo ), zero_16 );
-                    const uint32x4_t data_3 = vaddl_u16( vget_low_u16( dataLo ), zero_16 );
-                    const uint32x4_t data_4 = vaddl_u16( vget_high_u16( dataLo ), zero_16 );
+                    const uint32x4_t data_3 = vaddl_u16( vget_low_u16( dataHi ), zero_16 );
+                    const uint32x4_t data_4 = vaddl_u16( vget_high_u16( dataHi ), zero_16 );
 
                     simdSum_1 = vaddq_u32( simdSum_1, data_1 );
                     simdSum_2 = vaddq_u32( simdSum_2, data_2 );
-- 
2.43.0


From 5537d350e5757f90134aa3b3ce88899594bd5e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:42 +0000
Subject: [PATCH 141/142] fix: Flip, ConvertToRgb and RgbToBgr work in builds
 for SSE2 without SSSE3

They threw 'function has incorrect logic' for images of 16 pixels and wider, as no vector code was compiled for them.
---
 src/image_function_simd.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 52938d7..4c37f6c 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2804,6 +2804,11 @@ namespace simd
     void ConvertToRgb( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                        SIMDType simdType )
     {
+#ifndef PENGUINV_SSSE3_SET
+        if ( simdType == sse_function ) // the vector code below needs SSSE3
+            simdType = cpu_function;
+#endif
+
         uint32_t simdSize = getSimdSize( simdType );
         if ( simdType == neon_function ) // for neon, because the algorithm used work with packet of 64 bit
             simdSize = 8u;
@@ -2851,6 +2856,11 @@ namespace simd
     void Flip( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                bool horizontal, bool vertical, SIMDType simdType )
     {
+#ifndef PENGUINV_SSSE3_SET
+        if ( simdType == sse_function ) // the vector code below needs SSSE3
+            simdType = cpu_function;
+#endif
+
         uint32_t simdSize = getSimdSize( simdType );
 
         if ( simdType == neon_function ) // for neon, because the algorithm used work with packet of 64 bit
@@ -3045,6 +3055,11 @@ namespace simd
     void RgbToBgr( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                    SIMDType simdType )
     {
+#ifndef PENGUINV_SSSE3_SET
+        if ( simdType == sse_function ) // the vector code below needs SSSE3
+            simdType = cpu_function;
+#endif
+
         uint32_t simdSize = getSimdSize( simdType );
 
         if ( simdType == neon_function ) // for neon, because the algorithm used work with packet of 64 bit
-- 
2.43.0


From 2e35784bae0c2f1d4cf49b94b35ca08837c67e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:45 +0000
Subject: [PATCH 142/142] fix: AVX-512 must be reported by the processor in
 full to be used

---
 src/penguinv/cpu_id_unix.h    | 3 ++-
 src/penguinv/cpu_id_windows.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/penguinv/cpu_id_unix.h b/src/penguinv/cpu_id_unix.h
index 54f6246..c0472d0 100644
--- a/src/penguinv/cpu_id_unix.h
+++ b/src/penguinv/cpu_id_unix.h
@@ -65,7 +65,8 @@ struct CpuInformation
 
         if ( id >= 0x00000007 ) {
             __cpuid_count( 0x00000007, 0, info[0], info[1], info[2], info[3] );
-            return ( info[1] & ( ( (int)1 << 31 ) | ( (int)1 << 30 ) | ( (int)1 << 28 ) | ( (int)1 << 17 ) | ( (int)1 << 16 ) ) ) != 0;
+            const int features = ( (int)1 << 31 ) | ( (int)1 << 30 ) | ( (int)1 << 28 ) | ( (int)1 << 17 ) | ( (int)1 << 16 );
+            return ( info[1] & features ) == features;
         }
 #endif
         return false;
diff --git a/src/penguinv/cpu_id_windows.h b/src/penguinv/cpu_id_windows.h
index e4abf36..74465d1 100644
--- a/src/penguinv/cpu_id_windows.h
+++ b/src/penguinv/cpu_id_windows.h
@@ -60,7 +60,8 @@ struct CpuInformation
 
         if ( id >= 0x00000007 ) {
             __cpuidex( info, 0x00000007, 0 );
-            return ( info[1] & ( ( (int)1 << 31 ) | ( (int)1 << 30 ) | ( (int)1 << 28 ) | ( (int)1 << 17 ) | ( (int)1 << 16 ) ) ) != 0;
+            const int features = ( (int)1 << 31 ) | ( (int)1 << 30 ) | ( (int)1 << 28 ) | ( (int)1 << 17 ) | ( (int)1 << 16 );
+            return ( info[1] & features ) == features;
         }
 
         return false;
-- 
2.43.0

