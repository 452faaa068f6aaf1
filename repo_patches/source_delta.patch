From 291ed2c4551964bb92a5de91825963e262da1991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 01/73] fix: take the colour count into account for the X
 offset of depth conversions

---
 src/image_function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index f0abeab..5ad1970 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -472,7 +472,7 @@ namespace Image_Function
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint16_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint16_t * outYEnd = outY + height * rowSizeOut;
@@ -528,7 +528,7 @@ namespace Image_Function
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint8_t * outYEnd = outY + height * rowSizeOut;
-- 
2.43.0


From 836ec0aa55c178fe0c11fcf02740e9188e82e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 02/73] fix: step over the alpha channel when converting RGBA
 images to gray-scale

---
 src/image_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 5ad1970..a1e6ee3 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -574,7 +574,7 @@ namespace Image_Function
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint8_t colorCount = RGB;
+        const uint8_t colorCount = in.colorCount();
 
         const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut;
-- 
2.43.0


From 488205abf4fa15a995db66d1c1d5a1732e7bd429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 03/73] fix: convert RGBA images to RGB by dropping the alpha
 channel

---
 src/image_function.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index a1e6ee3..66c96f8 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -621,8 +621,9 @@ namespace Image_Function
         const uint32_t rowSizeOut = out.rowSize();
 
         const uint8_t colorCount = RGB;
+        const uint8_t colorCountIn = in.colorCount();
 
-        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCountIn;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint8_t * outYEnd = outY + height * rowSizeOut;
@@ -637,8 +638,14 @@ namespace Image_Function
 
             const uint8_t * outXEnd = outX + width;
 
-            for ( ; outX != outXEnd; outX += colorCount, ++inX )
-                memset( outX, *inX, rgbSize );
+            if ( colorCountIn == GRAY_SCALE ) {
+                for ( ; outX != outXEnd; outX += colorCount, ++inX )
+                    memset( outX, *inX, rgbSize );
+            }
+            else {
+                for ( ; outX != outXEnd; outX += colorCount, inX += colorCountIn )
+                    memcpy( outX, inX, rgbSize );
+            }
         }
     }
 
-- 
2.43.0


From 229cc021a530efe9e1436cdca25b9d705530bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 04/73] fix: histogram of colour images must cover the whole
 region

---
 src/image_function.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 66c96f8..a908d8e 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -874,9 +874,11 @@ namespace Image_Function
     void Histogram( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, std::vector<uint32_t> & histogram )
     {
         ValidateImageParameters( image, x, y, width, height );
-        OptimiseRoi( width, height, image );
 
         const uint32_t colorCount = image.colorCount();
+        width = width * colorCount;
+
+        OptimiseRoi( width, height, image );
 
         histogram.resize( 256u * colorCount );
         std::fill( histogram.begin(), histogram.end(), 0u );
@@ -927,9 +929,13 @@ namespace Image_Function
                     std::vector<uint32_t> & histogram )
     {
         ValidateImageParameters( image, x, y, mask, maskX, maskY, width, height );
-        OptimiseRoi( width, height, image, mask );
+        VerifyGrayScaleImage( mask );
 
         const uint32_t colorCount = image.colorCount();
+        if ( colorCount == GRAY_SCALE )
+            OptimiseRoi( width, height, image, mask );
+
+        width = width * colorCount;
 
         histogram.resize( 256u * colorCount );
         std::fill( histogram.begin(), histogram.end(), 0u );
-- 
2.43.0


From 28e8e43e39a6984b3974d492768fe44e7083e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 05/73] fix: check the row size of the second image before
 merging rows in Subtract

---
 src/image_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index a908d8e..a2fc0ff 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1928,7 +1928,7 @@ namespace Image_Function
         const uint8_t colorCount = CheckCommonColorCount( in1, in2, out );
         width = width * colorCount;
 
-        OptimiseRoi( width, height, in1, in1, out );
+        OptimiseRoi( width, height, in1, in2, out );
 
         const uint32_t rowSize1 = in1.rowSize();
         const uint32_t rowSize2 = in2.rowSize();
-- 
2.43.0


From fd5d054d0bd9a487758632985eb664b578ab9630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 06/73] fix: keep the colour count when a function returns a
 new image, refuse Resize of different colour counts

---
 src/image_function.cpp        |  2 +-
 src/image_function_helper.cpp | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index a2fc0ff..3d9a4b8 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1458,7 +1458,7 @@ namespace Image_Function
         ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
         ValidateImageParameters( out, startXOut, startYOut, widthOut, heightOut );
 
-        const uint8_t colorCount = in.colorCount();
+        const uint8_t colorCount = CheckCommonColorCount( in, out );
 
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index 62ef931..fa6aa82 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -352,7 +352,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         gammaCorrection( in, 0, 0, out, 0, 0, out.width(), out.height(), a, gamma );
 
@@ -371,7 +371,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         gammaCorrection( in, startXIn, startYIn, out, 0, 0, width, height, a, gamma );
 
@@ -536,7 +536,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         lookupTable( in, 0, 0, out, 0, 0, out.width(), out.height(), table );
 
@@ -555,7 +555,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         lookupTable( in, startXIn, startYIn, out, 0, 0, width, height, table );
 
@@ -657,7 +657,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         normalize( in, 0, 0, out, 0, 0, out.width(), out.height() );
 
@@ -675,7 +675,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         normalize( in, startXIn, startYIn, out, 0, 0, width, height );
 
@@ -710,7 +710,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( widthOut, heightOut );
+        Image out = in.generate( widthOut, heightOut, in.colorCount() );
 
         resize( in, 0, 0, in.width(), in.height(), out, 0, 0, widthOut, heightOut );
 
@@ -730,7 +730,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
 
-        Image out = in.generate( widthOut, heightOut );
+        Image out = in.generate( widthOut, heightOut, in.colorCount() );
 
         resize( in, startXIn, startYIn, widthIn, heightIn, out, 0, 0, widthOut, heightOut );
 
-- 
2.43.0


From 84c020b45c7594eb05f7e7415c37e507c01f76e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 07/73] fix: validate all points before SetPixel changes the
 image

---
 src/image_function.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 3d9a4b8..6c73e59 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1749,7 +1749,9 @@ namespace Image_Function
         for ( ; x != end; ++x, ++y ) {
             if ( ( *x ) >= width || ( *y ) >= height )
                 throw penguinVException( "Position of point [x, y] is out of image" );
+        }
 
+        for ( x = X.begin(), y = Y.begin(); x != end; ++x, ++y ) {
             *( data + ( *y ) * rowSize + ( *x ) ) = value;
         }
     }
-- 
2.43.0


From ccd80be7420a363706fbf6c3f0cb60cc8afdb135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 08/73] fix: shift images by whole pixels exactly and never
 read beyond the image

---
 src/image_function.cpp | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 6c73e59..128f769 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1793,8 +1793,8 @@ namespace Image_Function
         if ( shiftY > 0.0 )
             --shiftYIntegral;
 
-        const double coeffX = ( shiftX < 0.0 ) ? ( 1.0 + shiftX ) : shiftX;
-        const double coeffY = ( shiftY < 0.0 ) ? ( 1.0 + shiftY ) : shiftY;
+        const double coeffX = ( shiftX > 0.0 ) ? shiftX : ( 1.0 + shiftX );
+        const double coeffY = ( shiftY > 0.0 ) ? shiftY : ( 1.0 + shiftY );
 
         // 2^23 = 8388608, 2^23 * 256 is a integer limit
         const uint32_t coeff0 = static_cast<uint32_t>( ( coeffX ) * (coeffY)*16384 + 0.5 );
@@ -1802,21 +1802,24 @@ namespace Image_Function
         const uint32_t coeff2 = static_cast<uint32_t>( ( 1.0 - coeffX ) * ( 1.0 - coeffY ) * 16384 + 0.5 );
         const uint32_t coeff3 = static_cast<uint32_t>( ( coeffX ) * ( 1.0 - coeffY ) * 16384 + 0.5 );
 
-        const uint32_t limitX = in.width() - 1u; // we need 2 subsequent pixels so we cannot use last pixel
-        const uint32_t limitY = in.height() - 1u;
+        // a fractional shift needs 2 subsequent pixels so we cannot use last pixel
+        const uint32_t nextX = ( coeffX < 1.0 ) ? 1u : 0u;
+        const uint32_t nextY = ( coeffY < 1.0 ) ? 1u : 0u;
+
+        const int64_t limitX = static_cast<int64_t>( in.width() ) - nextX;
+        const int64_t limitY = static_cast<int64_t>( in.height() ) - nextY;
+
+        const int64_t endX = static_cast<int64_t>( startXIn ) + width + shiftXIntegral;
+        const int64_t endY = static_cast<int64_t>( startYIn ) + height + shiftYIntegral;
 
         const uint32_t emptyLeftArea
             = ( shiftXIntegral < 0 && startXIn < static_cast<uint32_t>( -shiftXIntegral ) ) ? ( static_cast<uint32_t>( -shiftXIntegral ) - startXIn ) : 0u;
-        const uint32_t emptyRightArea = ( shiftXIntegral > 0 && limitX < startXIn + width + static_cast<uint32_t>( shiftXIntegral ) )
-                                            ? ( startXIn + width + static_cast<uint32_t>( shiftXIntegral ) - limitX )
-                                            : 0u;
+        const uint32_t emptyRightArea = ( limitX < endX ) ? static_cast<uint32_t>( endX - limitX ) : 0u;
         const uint32_t realWidth = width - emptyLeftArea - emptyRightArea;
 
         const uint32_t emptyTopArea
             = ( shiftYIntegral < 0 && startYIn < static_cast<uint32_t>( -shiftYIntegral ) ) ? ( static_cast<uint32_t>( -shiftYIntegral ) - startYIn ) : 0u;
-        const uint32_t emptyBottomArea = ( shiftYIntegral > 0 && limitY < startYIn + height + static_cast<uint32_t>( shiftYIntegral ) )
-                                             ? ( startYIn + height + static_cast<uint32_t>( shiftYIntegral ) - limitY )
-                                             : 0u;
+        const uint32_t emptyBottomArea = ( limitY < endY ) ? static_cast<uint32_t>( endY - limitY ) : 0u;
         const uint32_t realHeight = height - emptyTopArea - emptyBottomArea;
 
         const uint32_t rowSizeIn = in.rowSize();
@@ -1841,12 +1844,13 @@ namespace Image_Function
 
             memset( outX, 0, emptyLeftArea );
             inX += emptyLeftArea;
+            outX += emptyLeftArea;
 
-            for ( ; outX != outXEnd; ++outX ) {
+            for ( ; outX != outXEnd; ++outX, ++inX ) {
                 uint32_t data = ( *( inX ) ) * coeff0;
-                data += ( *( inX + rowSizeIn ) ) * coeff3;
-                data += ( *( ++inX ) ) * coeff1; // here we increment inX
-                data += ( *( inX + rowSizeIn ) ) * coeff2;
+                data += ( *( inX + nextY * rowSizeIn ) ) * coeff3;
+                data += ( *( inX + nextX ) ) * coeff1;
+                data += ( *( inX + nextX + nextY * rowSizeIn ) ) * coeff2;
 
                 *outX = static_cast<uint8_t>( ( data + 8192 ) >> 14 ); // 8192 is 0.5 after calculations
             }
-- 
2.43.0


From ceedae6df9b5deaee47b7f694b22281bdde84317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 09/73] fix: copying an image onto itself must keep its
 contents

---
 src/image_buffer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index 6ed23b0..aee4f9b 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -211,6 +211,10 @@ namespace penguinV
 
         void copy( const ImageTemplate & image )
         {
+            if ( this == &image ) {
+                return;
+            }
+
             if ( _deviceType != image._deviceType ) {
                 throw penguinVException( "Cannot copy image of one type to another type." );
             }
-- 
2.43.0


From d9b050a113075ba7b52a35dbd5c6c14c65954a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 10/73] fix: refuse image geometry whose row size does not fit,
 compare whole buffer sizes in mutate()

---
 src/image_buffer.h | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index aee4f9b..1d957b3 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -83,15 +83,13 @@ namespace penguinV
         void resize( uint32_t width_, uint32_t height_ )
         {
             if ( width_ > 0 && height_ > 0 && ( width_ != _width || height_ != _height ) ) {
+                const uint32_t rowSize_ = _calculateRowSize( width_, colorCount(), alignment() );
+
                 clear();
 
                 _width = width_;
                 _height = height_;
-
-                _rowSize = width() * colorCount();
-                if ( _rowSize % alignment() != 0 ) {
-                    _rowSize = ( _rowSize / alignment() + 1 ) * alignment();
-                }
+                _rowSize = rowSize_;
 
                 _data = _allocate( static_cast<size_t>( _height ) * static_cast<size_t>( _rowSize ) );
             }
@@ -125,6 +123,8 @@ namespace penguinV
                 throw penguinVException( "Invalid image assignment parameters" );
             }
 
+            const uint32_t rowSize_ = _calculateRowSize( width_, colorCount_, alignment_ );
+
             clear();
 
             _width = width_;
@@ -135,10 +135,7 @@ namespace penguinV
 
             _data = data_;
 
-            _rowSize = width() * colorCount();
-            if ( _rowSize % alignment() != 0 ) {
-                _rowSize = ( _rowSize / alignment() + 1 ) * alignment();
-            }
+            _rowSize = rowSize_;
         }
 
         bool empty() const
@@ -238,12 +235,9 @@ namespace penguinV
         bool mutate( uint32_t width_, uint32_t height_, uint8_t colorCount_, uint8_t alignment_ )
         {
             if ( colorCount_ > 0 && alignment_ > 0 ) {
-                uint32_t rowSize_ = width_ * colorCount_;
-                if ( rowSize_ % alignment_ != 0 ) {
-                    rowSize_ = ( rowSize_ / alignment_ + 1 ) * alignment_;
-                }
+                const uint32_t rowSize_ = _calculateRowSize( width_, colorCount_, alignment_ );
 
-                if ( rowSize_ * height_ != _rowSize * _height ) {
+                if ( static_cast<uint64_t>( rowSize_ ) * height_ != static_cast<uint64_t>( _rowSize ) * _height ) {
                     return false;
                 }
 
@@ -290,6 +284,16 @@ namespace penguinV
         }
 
     private:
+        static uint32_t _calculateRowSize( const uint64_t width_, const uint64_t colorCount_, const uint64_t alignment_ )
+        {
+            const uint64_t rowSize_ = ( width_ * colorCount_ + alignment_ - 1u ) / alignment_ * alignment_;
+            if ( rowSize_ > UINT32_MAX ) {
+                throw penguinVException( "Image row size is too big" );
+            }
+
+            return static_cast<uint32_t>( rowSize_ );
+        }
+
         TColorDepth * _allocate( size_t size ) const
         {
             return FunctionFacade::instance().allocate( _deviceType )( size );
-- 
2.43.0


From 81fef3011e53bead5c904db83b947683e076c05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:50 +0000
Subject: [PATCH 11/73] fix: hold the allocator lock during the whole reserve()
 and release it when reserve() throws

---
 src/memory/cpu_memory.h       | 10 +++++++---
 src/memory/memory_allocator.h |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 33eb783..8e99917 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -48,6 +48,12 @@ namespace cpu_Memory
             _lock.unlock();
         }
 
+        virtual void reserve( size_t size ) override
+        {
+            std::lock_guard<std::mutex> guard( _lock );
+            BaseMemoryAllocator::reserve( size );
+        }
+
         // Returns a pointer to an allocated memory. If memory size of allocated memory chuck is enough for requested size
         // then return a point from preallocated memory, otherwise allocate heap memory
         template <typename _DataType = uint8_t>
@@ -107,10 +113,9 @@ namespace cpu_Memory
         // first parameter is an offset from preallocated memory, second parameter is a power of 2 (level)
         std::map<size_t, uint8_t> _allocatedChunk;
 
-        // true memory allocation on CPU
+        // true memory allocation on CPU, _lock is held by reserve()
         virtual void _allocate( size_t size )
         {
-            _lock.lock();
             if ( _size != size && size > 0 ) {
                 if ( !_allocatedChunk.empty() ) {
                     throw std::logic_error( "Cannot free a memory on CPU. Not all objects were previously deallocated from allocator." );
@@ -125,7 +130,6 @@ namespace cpu_Memory
 
                 _size = size;
             }
-            _lock.unlock();
         }
 
         // true memory deallocation on CPU
diff --git a/src/memory/memory_allocator.h b/src/memory/memory_allocator.h
index d59dba1..50e1dcf 100644
--- a/src/memory/memory_allocator.h
+++ b/src/memory/memory_allocator.h
@@ -35,7 +35,7 @@ public:
 
     // Allocates a chunk of memory. We recommend to call this function only one time at the startup of an application.
     // Do not reallocate memory if some objects in your source code are allocated through this allocator.
-    void reserve( size_t size )
+    virtual void reserve( size_t size )
     {
         if ( size == 0 ) {
             throw std::logic_error( "Memory size cannot be 0" );
-- 
2.43.0


From 6cc83e6ae1c21f051f97758a25e9006587ee800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:50 +0000
Subject: [PATCH 12/73] fix: merge only chunks made by the same split so all
 reserved memory is recovered

---
 src/memory/memory_allocator.h | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/memory/memory_allocator.h b/src/memory/memory_allocator.h
index 50e1dcf..e90189e 100644
--- a/src/memory/memory_allocator.h
+++ b/src/memory/memory_allocator.h
@@ -130,32 +130,18 @@ protected:
         size_t memorySize = static_cast<size_t>( 1 ) << from;
 
         for ( std::vector<std::set<size_t>>::iterator level = _freeChunk.begin() + from; level < _freeChunk.end(); ++level, memorySize <<= 1 ) {
-            std::set<size_t>::iterator pos = level->find( offset );
-            std::set<size_t>::iterator neighbour = pos;
-            ++neighbour;
-
-            if ( neighbour != level->end() ) {
-                if ( *( neighbour ) - *( pos ) == memorySize ) {
-                    offset = *pos;
-                    ( level + 1 )->insert( offset );
-                    level->erase( pos, ++neighbour );
-                    continue;
-                }
-            }
-
-            if ( pos != level->begin() ) {
-                neighbour = pos;
-                --neighbour;
+            // Only the chunk which was created by the same split can be merged, any other neighbour would leave memory which cannot be merged back.
+            std::set<size_t>::iterator neighbour = level->find( offset ^ memorySize );
 
-                if ( *( pos ) - *( neighbour ) == memorySize ) {
-                    offset = *neighbour;
-                    ( level + 1 )->insert( offset );
-                    level->erase( neighbour, ++pos );
-                    continue;
-                }
+            if ( neighbour == level->end() ) {
+                return;
             }
 
-            return;
+            level->erase( neighbour );
+            level->erase( offset );
+
+            offset &= ~memorySize;
+            ( level + 1 )->insert( offset );
         }
     }
 
-- 
2.43.0


From e62e28e5df1228ee133f04694181cb2e4d084a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:50 +0000
Subject: [PATCH 13/73] fix: an allocation whose byte size overflows must not
 be served from reserved memory

---
 src/memory/cpu_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 8e99917..d7c982d 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -63,7 +63,7 @@ namespace cpu_Memory
             if ( _data != nullptr ) {
                 const size_t overallSize = size * sizeof( _DataType );
 
-                if ( overallSize < _size ) {
+                if ( size < _size && overallSize < _size ) {
                     const uint8_t level = _getAllocationLevel( overallSize );
 
                     if ( _split( level ) ) {
-- 
2.43.0


From 4e75184b2f83ed36f036984a4bebe8a5ccb34f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 14/73] fix: keep the order of pixels in AVX, AVX512 and SSE
 functions which unpack or pack data

---
 src/image_function_simd.cpp | 38 ++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index d4a8764..1cf197a 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -115,6 +115,8 @@ namespace avx512
                      uint32_t nonSimdWidth )
     {
         simd zero = _mm512_setzero_si512();
+        // unpack functions work within each 128-bit lane so data must be reordered to keep pixels in the original order after unpacking
+        const simd order = _mm512_setr_epi32( 0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15 );
 
         const uint32_t width = totalSimdWidth + nonSimdWidth;
 
@@ -124,7 +126,7 @@ namespace avx512
             simd * dst = reinterpret_cast<simd *>( outY );
 
             for ( ; src != srcEnd; ++src ) {
-                simd data = _mm512_loadu_si512( src );
+                simd data = _mm512_permutexvar_epi32( order, _mm512_loadu_si512( src ) );
 
                 const simd dataLo = _mm512_unpacklo_epi8( data, zero );
                 const simd dataHi = _mm512_unpackhi_epi8( data, zero );
@@ -237,16 +239,18 @@ namespace avx512
                          uint32_t totalSimdWidth, uint32_t nonSimdWidth )
     {
         const simd zero = _mm512_setzero_si512();
+        // unpack functions work within each 128-bit lane so data must be reordered to keep pixels in the original order after unpacking
+        const simd order = _mm512_setr_epi64( 0, 4, 1, 5, 2, 6, 3, 7 );
         for ( ; outY != outYEnd; outY += rowSizeOut, inY += rowSizeIn ) {
             const simd * src = reinterpret_cast<const simd *>( inY );
             simd * dst = reinterpret_cast<simd *>( outY );
             const simd * srcEnd = src + simdWidth;
 
             for ( ; src != srcEnd; ++src ) {
-                const simd srcData = _mm512_loadu_si512( src );
+                const simd srcData = _mm512_permutexvar_epi64( order, _mm512_loadu_si512( src ) );
 
                 _mm512_storeu_si512( dst++, _mm512_unpacklo_epi8( zero, srcData ) );
-                _mm512_storeu_si512( dst++, _mm512_unpacklo_epi8( zero, srcData ) );
+                _mm512_storeu_si512( dst++, _mm512_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -263,6 +267,8 @@ namespace avx512
     void ConvertTo8Bit( uint8_t * outY, const uint8_t * outYEnd, const uint16_t * inY, uint32_t rowSizeOut, uint32_t rowSizeIn, uint32_t simdWidth,
                         uint32_t totalSimdWidth, uint32_t nonSimdWidth )
     {
+        // pack functions work within each 128-bit lane so data must be reordered to restore the original order of pixels
+        const simd order = _mm512_setr_epi64( 0, 2, 4, 6, 1, 3, 5, 7 );
         for ( ; outY != outYEnd; outY += rowSizeOut, inY += rowSizeIn ) {
             const simd * src = reinterpret_cast<const simd *>( inY );
             simd * dst = reinterpret_cast<simd *>( outY );
@@ -274,7 +280,8 @@ namespace avx512
                 const simd srcData2 = _mm512_loadu_si512( src );
                 ++src;
 
-                _mm512_storeu_si512( dst, _mm512_packus_epi16( _mm512_srli_epi16( srcData1, 8 ), _mm512_srli_epi16( srcData2, 8 ) ) );
+                const simd packed = _mm512_packus_epi16( _mm512_srli_epi16( srcData1, 8 ), _mm512_srli_epi16( srcData2, 8 ) );
+                _mm512_storeu_si512( dst, _mm512_permutexvar_epi64( order, packed ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -381,6 +388,8 @@ namespace avx512
         const simd zero = _mm512_setzero_si512();
 
         if ( horizontal ) {
+            // unpack functions work within each 128-bit lane so data must be reordered to keep pixels in the original order after unpacking
+            const simd order = _mm512_setr_epi32( 0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15 );
             const uint8_t * imageSimdXEnd = imageStart + totalSimdWidth;
 
             for ( ; imageStart != imageSimdXEnd; imageStart += simdSize, out += simdSize ) {
@@ -396,7 +405,7 @@ namespace avx512
                 for ( ; imageSimdY != imageSimdYEnd; imageSimdY += rowSize ) {
                     const simd * src = reinterpret_cast<const simd *>( imageSimdY );
 
-                    const simd data = _mm512_loadu_si512( src );
+                    const simd data = _mm512_permutexvar_epi32( order, _mm512_loadu_si512( src ) );
 
                     const simd dataLo = _mm512_unpacklo_epi8( data, zero );
                     const simd dataHi = _mm512_unpackhi_epi8( data, zero );
@@ -575,6 +584,8 @@ namespace avx
                      uint32_t nonSimdWidth )
     {
         simd zero = _mm256_setzero_si256();
+        // unpack functions work within each 128-bit lane so data must be reordered to keep pixels in the original order after unpacking
+        const simd order = _mm256_setr_epi32( 0, 2, 4, 6, 1, 3, 5, 7 );
 
         const uint32_t width = totalSimdWidth + nonSimdWidth;
 
@@ -584,7 +595,7 @@ namespace avx
             simd * dst = reinterpret_cast<simd *>( outY );
 
             for ( ; src != srcEnd; ++src ) {
-                simd data = _mm256_loadu_si256( src );
+                simd data = _mm256_permutevar8x32_epi32( _mm256_loadu_si256( src ), order );
 
                 const simd dataLo = _mm256_unpacklo_epi8( data, zero );
                 const simd dataHi = _mm256_unpackhi_epi8( data, zero );
@@ -703,10 +714,11 @@ namespace avx
             const simd * srcEnd = src + simdWidth;
 
             for ( ; src != srcEnd; ++src ) {
-                const simd srcData = _mm256_loadu_si256( src );
+                // unpack functions work within each 128-bit lane so data must be reordered to keep pixels in the original order after unpacking
+                const simd srcData = _mm256_permute4x64_epi64( _mm256_loadu_si256( src ), 0xD8 );
 
                 _mm256_storeu_si256( dst++, _mm256_unpacklo_epi8( zero, srcData ) );
-                _mm256_storeu_si256( dst++, _mm256_unpacklo_epi8( zero, srcData ) );
+                _mm256_storeu_si256( dst++, _mm256_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -734,7 +746,9 @@ namespace avx
                 const simd srcData2 = _mm256_loadu_si256( src );
                 ++src;
 
-                _mm256_storeu_si256( dst, _mm256_packus_epi16( _mm256_srli_epi16( srcData1, 8 ), _mm256_srli_epi16( srcData2, 8 ) ) );
+                // pack functions work within each 128-bit lane so data must be reordered to restore the original order of pixels
+                const simd packed = _mm256_packus_epi16( _mm256_srli_epi16( srcData1, 8 ), _mm256_srli_epi16( srcData2, 8 ) );
+                _mm256_storeu_si256( dst, _mm256_permute4x64_epi64( packed, 0xD8 ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -843,6 +857,8 @@ namespace avx
         const simd zero = _mm256_setzero_si256();
 
         if ( horizontal ) {
+            // unpack functions work within each 128-bit lane so data must be reordered to keep pixels in the original order after unpacking
+            const simd order = _mm256_setr_epi32( 0, 2, 4, 6, 1, 3, 5, 7 );
             const uint8_t * imageSimdXEnd = imageStart + totalSimdWidth;
 
             for ( ; imageStart != imageSimdXEnd; imageStart += simdSize, out += simdSize ) {
@@ -858,7 +874,7 @@ namespace avx
                 for ( ; imageSimdY != imageSimdYEnd; imageSimdY += rowSize ) {
                     const simd * src = reinterpret_cast<const simd *>( imageSimdY );
 
-                    const simd data = _mm256_loadu_si256( src );
+                    const simd data = _mm256_permutevar8x32_epi32( _mm256_loadu_si256( src ), order );
 
                     const simd dataLo = _mm256_unpacklo_epi8( data, zero );
                     const simd dataHi = _mm256_unpackhi_epi8( data, zero );
@@ -1323,7 +1339,7 @@ namespace sse
                 const simd srcData = _mm_loadu_si128( src );
 
                 _mm_storeu_si128( dst++, _mm_unpacklo_epi8( zero, srcData ) );
-                _mm_storeu_si128( dst++, _mm_unpacklo_epi8( zero, srcData ) );
+                _mm_storeu_si128( dst++, _mm_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
-- 
2.43.0


From db24804faa2028424ac1922d1c695321f35285ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 15/73] fix: SIMD conversions and accumulation take the colour
 count of images into account

---
 src/image_function_simd.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 1cf197a..a56653c 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2578,7 +2578,6 @@ namespace simd
         }
 
         Image_Function::ValidateImageParameters( image, x, y, width, height );
-        Image_Function::VerifyGrayScaleImage( image );
         width = width * colorCount;
 
         if ( result.size() != width * height )
@@ -2745,7 +2744,7 @@ namespace simd
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint16_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint16_t * outYEnd = outY + height * rowSizeOut;
@@ -2784,7 +2783,7 @@ namespace simd
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint8_t * outYEnd = outY + height * rowSizeOut;
@@ -2822,8 +2821,8 @@ namespace simd
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyRGBImage( out );
 
-        if ( in.colorCount() == RGB ) {
-            Image_Function::Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        if ( in.colorCount() != GRAY_SCALE ) {
+            Image_Function::ConvertToRgb( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
             return;
         }
 
-- 
2.43.0


From 783ec08411d05e21f07661c0d265106293b5f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 16/73] fix: do not access a task provider after reporting
 completion of its non-last task

---
 src/thread_pool.cpp | 6 ++++--
 src/thread_pool.h   | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index af9a214..5676d20 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -50,9 +50,11 @@ AbstractTaskProvider & AbstractTaskProvider::operator=( const AbstractTaskProvid
 
 void AbstractTaskProvider::_taskRun( bool skip )
 {
+    // the provider must not be accessed after completion of a non-last task because it could be already destroyed or reused
+    const size_t taskCount = _taskCount;
     const size_t taskId = _givenTaskCount++;
 
-    if ( taskId < _taskCount ) {
+    if ( taskId < taskCount ) {
         if ( !skip ) {
             try {
                 _task( taskId );
@@ -66,7 +68,7 @@ void AbstractTaskProvider::_taskRun( bool skip )
 
         const size_t completedTasks = ( ++_completedTaskCount );
 
-        if ( completedTasks == _taskCount ) {
+        if ( completedTasks == taskCount ) {
             _completion.lock();
 
             _running = false;
diff --git a/src/thread_pool.h b/src/thread_pool.h
index 3a05aa0..242b420 100644
--- a/src/thread_pool.h
+++ b/src/thread_pool.h
@@ -55,12 +55,12 @@ private:
     std::atomic<size_t> _givenTaskCount; // number of tasks which were given to thread pool
     std::atomic<size_t> _completedTaskCount; // number of completed tasks
 
-    bool _running; // boolean variable specifies the state of tasks processing
+    std::atomic<bool> _running; // boolean variable specifies the state of tasks processing
     std::mutex _completion; // mutex for synchronization reporting about completion of all tasks
                             // this mutex is waited in _wait() function
     std::condition_variable _waiting; // condition variable for verification that all tasks are really completed
 
-    bool _exceptionRaised; // notifies whether an exception raised during task execution
+    std::atomic<bool> _exceptionRaised; // notifies whether an exception raised during task execution
 
     void _taskRun( bool skip ); // function is called only by thread pool to call _task() function and increment counters
 };
-- 
2.43.0


From 5d8ef339754d64af5c7280a31dc926612195df95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 17/73] fix: complete tasks removed from thread pool instead of
 executing or losing them

---
 src/thread_pool.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 5676d20..a4a6653 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -242,8 +242,13 @@ void ThreadPool::remove( AbstractTaskProvider * provider )
 {
     _taskInfo.lock();
 
+    const size_t totalTasks = _task.size();
     _task.remove( provider );
 
+    // complete all removed tasks without real computations. It helps to avoid a deadlock of those who wait for the provider
+    for ( size_t i = _task.size(); i < totalTasks; ++i )
+        provider->_taskRun( true );
+
     _taskInfo.unlock();
 }
 
@@ -251,7 +256,7 @@ void ThreadPool::clear()
 {
     _taskInfo.lock();
     // complete all tasks without real computations. It helps to avoid a deadlock in a case when thread pool is destroyed
-    std::for_each( _task.begin(), _task.end(), []( AbstractTaskProvider * task ) { task->_task( true ); } );
+    std::for_each( _task.begin(), _task.end(), []( AbstractTaskProvider * task ) { task->_taskRun( true ); } );
     _task.clear();
 
     _taskInfo.unlock();
-- 
2.43.0


From 854184c110972cff5dbfe76268eed3e59b7c02b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 18/73] fix: thread pool must be able to work after stop() and
 must wait for all new threads

---
 src/thread_pool.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index a4a6653..0328f43 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -168,7 +168,10 @@ void ThreadPool::resize( size_t threads )
         _exit.resize( threads, 0 );
         _taskInfo.unlock();
 
+        _creation.lock();
         _threadCount = threads;
+        _threadsCreated = false;
+        _creation.unlock();
 
         while ( threads > threadCount() )
             _worker.push_back( std::thread( ThreadPool::_workerThread, this, threadCount() ) );
@@ -279,6 +282,14 @@ void ThreadPool::stop()
             thread->join();
 
         _worker.clear();
+
+        // reset the state of threads to allow to use the pool again
+        _taskInfo.lock();
+
+        _run.clear();
+        _exit.clear();
+
+        _taskInfo.unlock();
     }
 }
 
-- 
2.43.0


From 696474ecc6b5595727b1b967950a7ce1e4ba1fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 19/73] fix: access thread indicators only under the lock as
 resize() reallocates them

---
 src/thread_pool.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 0328f43..56fb54a 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -302,29 +302,25 @@ void ThreadPool::_workerThread( ThreadPool * pool, size_t threadId )
         pool->_creation.unlock();
     }
 
-    while ( !pool->_exit[threadId] ) {
+    while ( true ) {
+        // arrays of indicators could be resized at any time so they must be accessed only under the lock
         std::unique_lock<std::mutex> _mutexLock( pool->_taskInfo );
         pool->_waiting.wait( _mutexLock, [&] { return pool->_run[threadId]; } );
-        _mutexLock.unlock();
 
         if ( pool->_exit[threadId] )
             break;
 
-        pool->_taskInfo.lock();
-
         if ( !pool->_task.empty() ) {
             AbstractTaskProvider * task = pool->_task.front();
 
             pool->_task.pop_front();
 
-            pool->_taskInfo.unlock();
+            _mutexLock.unlock();
 
             task->_taskRun( false );
         }
         else {
             pool->_run[threadId] = 0;
-
-            pool->_taskInfo.unlock();
         }
     }
 
-- 
2.43.0


From 9fe6f694731dd270d6d5a25a21c69e4655672b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 20/73] fix: convert foreign images in all image functions and
 keep references to converted images valid

---
 src/penguinv/image_manager.h | 11 ++++---
 src/penguinv/penguinv.cpp    | 58 +++++++++++++++++++-----------------
 2 files changed, 37 insertions(+), 32 deletions(-)

diff --git a/src/penguinv/image_manager.h b/src/penguinv/image_manager.h
index b5fbd0f..02b80cd 100644
--- a/src/penguinv/image_manager.h
+++ b/src/penguinv/image_manager.h
@@ -21,6 +21,7 @@
 #pragma once
 
 #include "../image_buffer.h"
+#include <list>
 #include <vector>
 
 template <typename _Type>
@@ -59,8 +60,9 @@ public:
         for ( typename std::vector<ConstReferenceOwner<_Type> *>::iterator data = _input.begin(); data != _input.end(); ++data )
             delete *data;
 
-        for ( size_t i = 0u; i < _output.size(); ++i ) {
-            _restore( _outputClone[i], _output[i]->data );
+        typename std::list<penguinV::ImageTemplate<_Type>>::const_iterator clone = _outputClone.cbegin();
+        for ( size_t i = 0u; i < _output.size(); ++i, ++clone ) {
+            _restore( *clone, _output[i]->data );
 
             delete _output[i];
         }
@@ -95,8 +97,9 @@ private:
     ConvertImage _convertImage;
     std::vector<ConstReferenceOwner<_Type> *> _input;
     std::vector<ReferenceOwner<_Type> *> _output;
-    std::vector<penguinV::ImageTemplate<_Type>> _inputClone;
-    std::vector<penguinV::ImageTemplate<_Type>> _outputClone;
+    // references to elements of these containers are given outside so they must stay valid after addition of new elements
+    std::list<penguinV::ImageTemplate<_Type>> _inputClone;
+    std::list<penguinV::ImageTemplate<_Type>> _outputClone;
 
     penguinV::Image _clone( const penguinV::ImageTemplate<_Type> & in )
     {
diff --git a/src/penguinv/penguinv.cpp b/src/penguinv/penguinv.cpp
index c0adb93..a35f2c4 100644
--- a/src/penguinv/penguinv.cpp
+++ b/src/penguinv/penguinv.cpp
@@ -94,7 +94,7 @@ namespace penguinV
 
     void Accumulate( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, std::vector<uint32_t> & result )
     {
-        initialize( image, Accumulate ) func( image, x, y, width, height, result );
+        initialize( image, Accumulate ) func( manager( image ), x, y, width, height, result );
     }
 
     Image BitwiseAnd( const Image & in1, const Image & in2 )
@@ -115,7 +115,7 @@ namespace penguinV
     void BitwiseAnd( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                      uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseAnd ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseAnd ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image BitwiseOr( const Image & in1, const Image & in2 )
@@ -136,7 +136,7 @@ namespace penguinV
     void BitwiseOr( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                     uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseOr ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseOr ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image BitwiseXor( const Image & in1, const Image & in2 )
@@ -157,7 +157,7 @@ namespace penguinV
     void BitwiseXor( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                      uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseXor ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseXor ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image ConvertToGrayScale( const Image & in )
@@ -198,7 +198,7 @@ namespace penguinV
 
     void ConvertToRgb( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, ConvertToRgb ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, ConvertToRgb ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     void Copy( const Image & in, Image & out )
@@ -213,7 +213,7 @@ namespace penguinV
 
     void Copy( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Copy ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Copy ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image ExtractChannel( const Image & in, uint8_t channelId )
@@ -234,7 +234,7 @@ namespace penguinV
     void ExtractChannel( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                          uint8_t channelId )
     {
-        initialize( in, ExtractChannel ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, channelId );
+        initialize( in, ExtractChannel ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, channelId );
     }
 
     void Fill( Image & image, uint8_t value )
@@ -244,7 +244,7 @@ namespace penguinV
 
     void Fill( Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, uint8_t value )
     {
-        initialize( image, Fill ) func( image, x, y, width, height, value );
+        initialize( image, Fill ) func( manager( image ), x, y, width, height, value );
     }
 
     Image Flip( const Image & in, bool horizontal, bool vertical )
@@ -265,7 +265,7 @@ namespace penguinV
     void Flip( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                bool horizontal, bool vertical )
     {
-        initialize( in, Flip ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, horizontal, vertical );
+        initialize( in, Flip ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, horizontal, vertical );
     }
 
     Image GammaCorrection( const Image & in, double a, double gamma )
@@ -286,13 +286,13 @@ namespace penguinV
     void GammaCorrection( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                           double a, double gamma )
     {
-        initialize( in, GammaCorrection ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, a, gamma );
+        initialize( in, GammaCorrection ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, a, gamma );
     }
 
     uint8_t GetPixel( const Image & image, uint32_t x, uint32_t y )
     {
         initialize( image, GetPixel );
-        return func( image, x, y );
+        return func( manager( image ), x, y );
     }
 
     uint8_t GetThreshold( const std::vector<uint32_t> & histogram )
@@ -337,7 +337,7 @@ namespace penguinV
 
     void Invert( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Invert ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Invert ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     bool IsEqual( const Image & in1, const Image & in2 )
@@ -348,7 +348,7 @@ namespace penguinV
     bool IsEqual( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, uint32_t width, uint32_t height )
     {
         initialize( in1, IsEqual );
-        return func( in1, startX1, startY1, in2, startX2, startY2, width, height );
+        return func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, width, height );
     }
 
     Image LookupTable( const Image & in, const std::vector<uint8_t> & table )
@@ -369,7 +369,7 @@ namespace penguinV
     void LookupTable( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                       const std::vector<uint8_t> & table )
     {
-        initialize( in, LookupTable ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, table );
+        initialize( in, LookupTable ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, table );
     }
 
     Image Maximum( const Image & in1, const Image & in2 )
@@ -390,7 +390,7 @@ namespace penguinV
     void Maximum( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                   uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Maximum ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Maximum ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image Merge( const Image & in1, const Image & in2, const Image & in3 )
@@ -412,7 +412,8 @@ namespace penguinV
     void Merge( const Image & in1, uint32_t startXIn1, uint32_t startYIn1, const Image & in2, uint32_t startXIn2, uint32_t startYIn2, const Image & in3,
                 uint32_t startXIn3, uint32_t startYIn3, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Merge ) func( in1, startXIn1, startYIn1, in2, startXIn2, startYIn2, in3, startXIn3, startYIn3, out, startXOut, startYOut, width, height );
+        initialize( in1, Merge ) func( manager( in1 ), startXIn1, startYIn1, manager( in2 ), startXIn2, startYIn2, manager( in3 ), startXIn3, startYIn3, manager( out ),
+                                       startXOut, startYOut, width, height );
     }
 
     Image Minimum( const Image & in1, const Image & in2 )
@@ -433,7 +434,7 @@ namespace penguinV
     void Minimum( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                   uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Minimum ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Minimum ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     Image Normalize( const Image & in )
@@ -453,7 +454,7 @@ namespace penguinV
 
     void Normalize( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Normalize ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Normalize ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     std::vector<uint32_t> ProjectionProfile( const Image & image, bool horizontal )
@@ -473,7 +474,7 @@ namespace penguinV
 
     void ProjectionProfile( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, bool horizontal, std::vector<uint32_t> & projection )
     {
-        initialize( image, ProjectionProfile ) func( image, x, y, width, height, horizontal, projection );
+        initialize( image, ProjectionProfile ) func( manager( image ), x, y, width, height, horizontal, projection );
     }
 
     Image Resize( const Image & in, uint32_t widthOut, uint32_t heightOut )
@@ -494,7 +495,7 @@ namespace penguinV
     void Resize( const Image & in, uint32_t startXIn, uint32_t startYIn, uint32_t widthIn, uint32_t heightIn, Image & out, uint32_t startXOut, uint32_t startYOut,
                  uint32_t widthOut, uint32_t heightOut )
     {
-        initialize( in, Resize ) func( in, startXIn, startYIn, widthIn, heightIn, out, startXOut, startYOut, widthOut, heightOut );
+        initialize( in, Resize ) func( manager( in ), startXIn, startYIn, widthIn, heightIn, manager( out ), startXOut, startYOut, widthOut, heightOut );
     }
 
     Image RgbToBgr( const Image & in )
@@ -514,17 +515,17 @@ namespace penguinV
 
     void RgbToBgr( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, RgbToBgr ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, RgbToBgr ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 
     void SetPixel( Image & image, uint32_t x, uint32_t y, uint8_t value )
     {
-        initialize( image, SetPixel ) func( image, x, y, value );
+        initialize( image, SetPixel ) func( manager( image ), x, y, value );
     }
 
     void SetPixel( Image & image, const std::vector<uint32_t> & X, const std::vector<uint32_t> & Y, uint8_t value )
     {
-        initialize( image, SetPixel2 ) func( image, X, Y, value );
+        initialize( image, SetPixel2 ) func( manager( image ), X, Y, value );
     }
 
     void Split( const Image & in, Image & out1, Image & out2, Image & out3 )
@@ -535,7 +536,8 @@ namespace penguinV
     void Split( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out1, uint32_t startXOut1, uint32_t startYOut1, Image & out2, uint32_t startXOut2,
                 uint32_t startYOut2, Image & out3, uint32_t startXOut3, uint32_t startYOut3, uint32_t width, uint32_t height )
     {
-        initialize( in, Split ) func( in, startXIn, startYIn, out1, startXOut1, startYOut1, out2, startXOut2, startYOut2, out3, startXOut3, startYOut3, width, height );
+        initialize( in, Split ) func( manager( in ), startXIn, startYIn, manager( out1 ), startXOut1, startYOut1, manager( out2 ), startXOut2, startYOut2,
+                                      manager( out3 ), startXOut3, startYOut3, width, height );
     }
 
     Image Subtract( const Image & in1, const Image & in2 )
@@ -556,7 +558,7 @@ namespace penguinV
     void Subtract( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                    uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Subtract ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Subtract ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
     }
 
     uint32_t Sum( const Image & image )
@@ -567,7 +569,7 @@ namespace penguinV
     uint32_t Sum( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height )
     {
         initialize( image, Sum );
-        return func( image, x, y, width, height );
+        return func( manager( image ), x, y, width, height );
     }
 
     Image Threshold( const Image & in, uint8_t threshold )
@@ -609,7 +611,7 @@ namespace penguinV
     void Threshold( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                     uint8_t minThreshold, uint8_t maxThreshold )
     {
-        initialize( in, Threshold2 ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, minThreshold, maxThreshold );
+        initialize( in, Threshold2 ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, minThreshold, maxThreshold );
     }
 
     Image Transpose( const Image & in )
@@ -629,6 +631,6 @@ namespace penguinV
 
     void Transpose( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Transpose ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Transpose ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
     }
 }
-- 
2.43.0


From 483dd24eb00eccdf0b8a2920941261100ad93fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 21/73] fix: multi-threaded ProjectionProfile and Normalize
 must support color images

---
 src/function_pool.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index 8a43caf..b366b04 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -310,7 +310,7 @@ namespace Function_Pool
             _dataIn.horizontalProjection = horizontal;
             _process( _ProjectionProfile );
 
-            projection.resize( horizontal ? width : height );
+            projection.resize( horizontal ? width * image.colorCount() : height );
             _dataOut.getProjection( projection );
         }
 
@@ -896,18 +896,21 @@ namespace Function_Pool
     void Normalize( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
         const std::vector<uint32_t> histogram = Function_Pool::Histogram( in, startXIn, startYIn, width, height );
-        if ( histogram.size() != 256u )
-            throw penguinVException( "Histogram size is not equal to 256" );
+        if ( histogram.empty() || ( histogram.size() % 256u ) != 0u )
+            throw penguinVException( "Histogram size is not multiple of 256" );
 
         uint16_t minimum = 255u;
         uint16_t maximum = 0u;
 
-        for ( uint16_t i = 0u; i < 256u; ++i ) {
+        // histogram of a color image has a value per each color channel for every intensity
+        const size_t channelCount = histogram.size() / 256u;
+        for ( size_t i = 0u; i < histogram.size(); ++i ) {
             if ( histogram[i] > 0u ) {
-                if ( maximum < i )
-                    maximum = i;
-                if ( minimum > i )
-                    minimum = i;
+                const uint16_t value = static_cast<uint16_t>( i / channelCount );
+                if ( maximum < value )
+                    maximum = value;
+                if ( minimum > value )
+                    minimum = value;
             }
         }
 
-- 
2.43.0


From f2a2900437983da1cb4621b75065a5713c7a4ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 22/73] fix: multi-threaded Resize must split images only where
 positions of pixels are the same as in a single-threaded version

---
 src/function_pool_task.cpp | 53 ++++++++++++++++++++++++++++++++++++--
 src/function_pool_task.h   |  3 +++
 2 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/src/function_pool_task.cpp b/src/function_pool_task.cpp
index dc9afcf..bad08cf 100644
--- a/src/function_pool_task.cpp
+++ b/src/function_pool_task.cpp
@@ -31,6 +31,16 @@ namespace
         return count;
     }
 
+    uint32_t greatestCommonDivisor( uint32_t a, uint32_t b )
+    {
+        while ( b != 0 ) {
+            const uint32_t remainder = a % b;
+            a = b;
+            b = remainder;
+        }
+        return a;
+    }
+
     const uint32_t cacheSize = 16; // Remember: every CPU has it's own caching technique so processing time of subsequent memory cells is much faster!
                                    // Change this value if you need to adjust to specific CPU. 16 bytes are set for proper SSE/NEON support
 }
@@ -63,6 +73,31 @@ namespace Function_Pool
         }
     }
 
+    void AreaInfo::_split( uint32_t x, uint32_t y, uint32_t width_, uint32_t height_, uint32_t unitCount, uint32_t count, bool yAxis )
+    {
+        if ( count > unitCount )
+            count = unitCount;
+
+        if ( yAxis ) { // process by rows
+            _fill( x, 0, width_, unitCount, count, true );
+
+            const uint32_t unitSize = height_ / unitCount;
+            for ( size_t i = 0; i < count; ++i ) {
+                startY[i] = y + startY[i] * unitSize;
+                height[i] *= unitSize;
+            }
+        }
+        else { // process by columns
+            _fill( 0, y, unitCount, height_, count, false );
+
+            const uint32_t unitSize = width_ / unitCount;
+            for ( size_t i = 0; i < count; ++i ) {
+                startX[i] = x + startX[i] * unitSize;
+                width[i] *= unitSize;
+            }
+        }
+    }
+
     void AreaInfo::_calculate( uint32_t x, uint32_t y, uint32_t width_, uint32_t height_, uint32_t count )
     {
         uint32_t maximumXTaskCount = width_ / cacheSize;
@@ -177,8 +212,22 @@ namespace Function_Pool
             new InputImageInfo( in, startXIn, startYIn, std::min( widthIn, widthOut ), std::min( heightIn, heightOut ), threadCount() ) );
         _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, startXOut, startYOut, widthOut, heightOut, threadCount() ) );
 
-        _infoOut1->_copy( *_infoIn1, startXOut, startYOut, widthOut, heightOut, oppositeAxis );
-        _infoIn1->_copy( *_infoOut1, startXIn, startYIn, widthIn, heightIn, oppositeAxis );
+        if ( oppositeAxis ) {
+            _infoOut1->_copy( *_infoIn1, startXOut, startYOut, widthOut, heightOut, oppositeAxis );
+            _infoIn1->_copy( *_infoOut1, startXIn, startYIn, widthIn, heightIn, oppositeAxis );
+        }
+        else {
+            // position of an input pixel for every output pixel depends on the ratio of sizes
+            // so all parts must have exactly the same ratio of sizes as the whole area to get the same result
+            const uint32_t unitCountX = greatestCommonDivisor( widthIn, widthOut );
+            const uint32_t unitCountY = greatestCommonDivisor( heightIn, heightOut );
+            const bool yAxis = unitCountY >= unitCountX || unitCountY >= threadCount();
+            const uint32_t unitCount = yAxis ? unitCountY : unitCountX;
+            const uint32_t count = threadCount();
+
+            _infoIn1->_split( startXIn, startYIn, widthIn, heightIn, unitCount, count, yAxis );
+            _infoOut1->_split( startXOut, startYOut, widthOut, heightOut, unitCount, count, yAxis );
+        }
     }
 
     void FunctionPoolTask::_setup( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out,
diff --git a/src/function_pool_task.h b/src/function_pool_task.h
index 306f5a2..c00cc85 100644
--- a/src/function_pool_task.h
+++ b/src/function_pool_task.h
@@ -42,6 +42,9 @@ namespace Function_Pool
         // makes a similar input data sorting like it is done in info parameter
         void _copy( const AreaInfo & info, uint32_t x, uint32_t y, uint32_t width_, uint32_t height_, bool oppositeAxis = false );
 
+        // splits the area into parts, size of each part is multiple of the area size divided by unitCount
+        void _split( uint32_t x, uint32_t y, uint32_t width_, uint32_t height_, uint32_t unitCount, uint32_t count, bool yAxis );
+
     private:
         // sorts out all input data into arrays for multithreading execution
         void _calculate( uint32_t x, uint32_t y, uint32_t width_, uint32_t height_, uint32_t count );
-- 
2.43.0


From c1988f8436877dc3022b5a6c5e1b79fdc1f84991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 23/73] fix: calculate Otsu threshold without overflow for big
 images

---
 src/image_function_helper.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index fa6aa82..e3f6252 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -402,15 +402,16 @@ namespace Image_Function_Helper
             throw penguinVException( "Histogram size is not 256" );
 
         // It is well-known Otsu's method to find threshold
-        uint32_t pixelCount = histogram[0] + histogram[1];
-        uint32_t sum = histogram[1];
+        // intermediate values could be bigger than a 32-bit number
+        uint64_t pixelCount = static_cast<uint64_t>( histogram[0] ) + histogram[1];
+        uint64_t sum = histogram[1];
         for ( uint16_t i = 2; i < 256; ++i ) {
-            sum = sum + i * histogram[i];
+            sum = sum + static_cast<uint64_t>( i ) * histogram[i];
             pixelCount += histogram[i];
         }
 
-        uint32_t sumTemp = 0;
-        uint32_t pixelCountTemp = 0;
+        uint64_t sumTemp = 0;
+        uint64_t pixelCountTemp = 0;
 
         double maximumSigma = -1;
 
@@ -423,10 +424,11 @@ namespace Image_Function_Helper
                 break;
 
             if ( pixelCountTemp > 0 ) {
-                sumTemp += i * histogram[i];
+                sumTemp += static_cast<uint64_t>( i ) * histogram[i];
 
-                const double w1 = static_cast<double>( pixelCountTemp ) / pixelCount;
-                const double a = static_cast<double>( sumTemp ) / pixelCountTemp - static_cast<double>( sum - sumTemp ) / ( pixelCount - pixelCountTemp );
+                const double w1 = static_cast<double>( pixelCountTemp ) / static_cast<double>( pixelCount );
+                const double a = static_cast<double>( sumTemp ) / static_cast<double>( pixelCountTemp )
+                                 - static_cast<double>( sum - sumTemp ) / static_cast<double>( pixelCount - pixelCountTemp );
                 const double sigma = w1 * ( 1 - w1 ) * a * a;
 
                 if ( sigma > maximumSigma ) {
-- 
2.43.0


From 4f4c46eb9f9988d799d88159e39c2d426b9ee548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 24/73] fix: calculate positions of pixels in Resize without
 overflow for big images

---
 src/image_function.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 128f769..765c8d9 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1472,7 +1472,7 @@ namespace Image_Function
         // Precalculation of X position
         std::vector<uint32_t> positionX( widthOut );
         for ( uint32_t x = 0; x < widthOut; ++x )
-            positionX[x] = ( x * widthIn / widthOut ) * colorCount;
+            positionX[x] = static_cast<uint32_t>( static_cast<uint64_t>( x ) * widthIn / widthOut ) * colorCount;
 
         widthOut *= colorCount;
 
@@ -1481,7 +1481,7 @@ namespace Image_Function
                 uint8_t * outX = outY;
                 const uint8_t * outXEnd = outX + widthOut;
 
-                const uint8_t * inX = inY + ( idY * heightIn / heightOut ) * rowSizeIn;
+                const uint8_t * inX = inY + static_cast<uint32_t>( static_cast<uint64_t>( idY ) * heightIn / heightOut ) * rowSizeIn;
                 const uint32_t * idX = positionX.data();
 
                 for ( ; outX != outXEnd; ++outX, ++idX )
@@ -1495,7 +1495,7 @@ namespace Image_Function
                 uint8_t * outX = outY;
                 const uint8_t * outXEnd = outX + widthOut;
 
-                const uint8_t * inX = inY + ( idY * heightIn / heightOut ) * rowSizeIn;
+                const uint8_t * inX = inY + static_cast<uint32_t>( static_cast<uint64_t>( idY ) * heightIn / heightOut ) * rowSizeIn;
                 const uint32_t * idX = positionX.data();
 
                 for ( ; outX != outXEnd; outX += colorCount, ++idX )
-- 
2.43.0


From e1d6860583d91dc7597821826550bdc51623e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 25/73] fix: SIMD Threshold refuses a minimum value which is
 bigger than the maximum one

---
 src/image_function_simd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index a56653c..73429b6 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -3227,6 +3227,9 @@ namespace simd
 
         Image_Function::OptimiseRoi( width, height, in, out );
 
+        if ( minThreshold > maxThreshold )
+            throw penguinVException( "Minimum threshold value is bigger than maximum threshold value" );
+
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-- 
2.43.0


From 53f72af2ecc09080eb1618a08117634038641e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 26/73] fix: number of threads in pool is accessed by new
 threads without a lock so it must be atomic

---
 src/thread_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_pool.h b/src/thread_pool.h
index 242b420..f4bbc71 100644
--- a/src/thread_pool.h
+++ b/src/thread_pool.h
@@ -113,7 +113,7 @@ private:
     std::mutex _creation; // mutex for thread creation verification
     std::atomic<size_t> _runningThreadCount; // variable used to calculate a number of running threads
     std::condition_variable _completeCreation; // condition variable for verification that all threads are created
-    std::size_t _threadCount; // current number of threads in pool
+    std::atomic<size_t> _threadCount; // current number of threads in pool
     bool _threadsCreated; // indicator for pool that all threads are created
 
     std::list<AbstractTaskProvider *> _task; // a list of tasks to perform
-- 
2.43.0


From 476d37a6ee0e7b2caf2514d17c0d1988a194d3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 27/73] fix: failed conversion of an output image left
 ImageManager unable to be destroyed and terminated the program

---
 src/penguinv/image_manager.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/penguinv/image_manager.h b/src/penguinv/image_manager.h
index 02b80cd..5441134 100644
--- a/src/penguinv/image_manager.h
+++ b/src/penguinv/image_manager.h
@@ -82,8 +82,10 @@ public:
     penguinV::ImageTemplate<_Type> & operator()( penguinV::ImageTemplate<_Type> & image )
     {
         if ( image.type() != _type ) {
-            _output.push_back( new ReferenceOwner<_Type>( image ) );
             _outputClone.push_back( _clone( image ) );
+            // destructor is not able to report that the result cannot be converted back so make sure in advance that it is possible
+            _restore( _outputClone.back(), image );
+            _output.push_back( new ReferenceOwner<_Type>( image ) );
             return _outputClone.back();
         }
         else {
-- 
2.43.0


From b1debc9e177c855b4d5d08bac2017b688241ec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 28/73] fix: registration of a function table ignored
 RgbToRgba, RgbaToRgb and Shift functions for a known image type

---
 src/image_function_helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index e3f6252..3daaaec 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -63,8 +63,11 @@ namespace
         SET_FUNCTION( ProjectionProfile )
         SET_FUNCTION( Resize )
         SET_FUNCTION( RgbToBgr )
+        SET_FUNCTION( RgbToRgba )
+        SET_FUNCTION( RgbaToRgb )
         SET_FUNCTION( SetPixel )
         SET_FUNCTION( SetPixel2 )
+        SET_FUNCTION( Shift )
         SET_FUNCTION( Split )
         SET_FUNCTION( Subtract )
         SET_FUNCTION( Sum )
-- 
2.43.0


From 2b4210ebebce9bc61c37e1dc2a94853dafdc6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 29/73] fix: elongation of a blob was calculated along a wrong
 axis

---
 src/blob_detection.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index a9d6e3a..d355826 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -64,7 +64,7 @@ namespace
                     startPoint.y = *y;
 
                     endPoint.x = *xx;
-                    endPoint.y = *xx;
+                    endPoint.y = *yy;
                 }
             }
         }
@@ -126,7 +126,8 @@ namespace Blob_Detection
                 PointBase2D<uint32_t> startPoint;
                 PointBase2D<uint32_t> endPoint;
                 const double length = getLengthFromCountour( _contourX, _contourY, startPoint, endPoint );
-                const double angle = -atan2( static_cast<double>( endPoint.y - startPoint.y ), static_cast<double>( endPoint.x - startPoint.x ) );
+                const double angle = -atan2( static_cast<double>( endPoint.y ) - static_cast<double>( startPoint.y ),
+                                             static_cast<double>( endPoint.x ) - static_cast<double>( startPoint.x ) );
 
                 const double _cos = cos( angle );
                 const double _sin = sin( angle );
@@ -138,7 +139,8 @@ namespace Blob_Detection
                 auto endRotated = _contourX.end();
 
                 for ( ; xRotated != endRotated; ++xRotated, ++yRotated ) {
-                    ( *yRotated ) = ( *xRotated - startPoint.x ) * _sin + ( *yRotated - startPoint.y ) * _cos;
+                    ( *yRotated ) = ( static_cast<double>( *xRotated ) - static_cast<double>( startPoint.x ) ) * _sin
+                                    + ( *yRotated - static_cast<double>( startPoint.y ) ) * _cos;
                 }
 
                 double height = *( std::max_element( contourYTemp.begin(), contourYTemp.end() ) ) - *( std::min_element( contourYTemp.begin(), contourYTemp.end() ) );
-- 
2.43.0


From 9fda8564a923660f079737f809d3a05681f4e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 30/73] fix: center and length of big blobs overflowed 32-bit
 integers

---
 src/blob_detection.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index d355826..f2c1562 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -47,15 +47,16 @@ namespace
         auto y = contourY.cbegin();
         auto end = contourX.cend();
 
-        int32_t maximumDistance = 0;
+        int64_t maximumDistance = 0;
 
         for ( ; x != ( end - 1 ); ++x, ++y ) {
             auto xx = x + 1;
             auto yy = y + 1;
 
             for ( ; xx != end; ++xx, ++yy ) {
-                const int32_t distance
-                    = static_cast<int32_t>( *x - *xx ) * static_cast<int32_t>( *x - *xx ) + static_cast<int32_t>( *y - *yy ) * static_cast<int32_t>( *y - *yy );
+                const int64_t distanceX = static_cast<int64_t>( *x ) - static_cast<int64_t>( *xx );
+                const int64_t distanceY = static_cast<int64_t>( *y ) - static_cast<int64_t>( *yy );
+                const int64_t distance = distanceX * distanceX + distanceY * distanceY;
 
                 if ( maximumDistance < distance ) {
                     maximumDistance = distance;
@@ -90,8 +91,8 @@ namespace Blob_Detection
     void BlobInfo::_getCenter()
     {
         if ( !_center.found && !_pointX.empty() && !_pointY.empty() ) {
-            _center.value.x = static_cast<double>( std::accumulate( _pointX.begin(), _pointX.end(), 0 ) ) / static_cast<double>( size() );
-            _center.value.y = static_cast<double>( std::accumulate( _pointY.begin(), _pointY.end(), 0 ) ) / static_cast<double>( size() );
+            _center.value.x = static_cast<double>( std::accumulate( _pointX.begin(), _pointX.end(), static_cast<uint64_t>( 0 ) ) ) / static_cast<double>( size() );
+            _center.value.y = static_cast<double>( std::accumulate( _pointY.begin(), _pointY.end(), static_cast<uint64_t>( 0 ) ) ) / static_cast<double>( size() );
 
             _center.found = true;
         }
-- 
2.43.0


From d84710d86f9258ae86525b5aa59382a28fd06ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 31/73] fix: edge detection read outside of the image when the
 group factor exceeded the number of lines

---
 src/edge_detection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edge_detection.cpp b/src/edge_detection.cpp
index 03c3ac4..c400f9e 100644
--- a/src/edge_detection.cpp
+++ b/src/edge_detection.cpp
@@ -268,6 +268,11 @@ namespace
             return;
         }
 
+        // there are not enough rows or columns to form a group
+        if ( edgeParameter.groupFactor > ( horizontalEdgeDetectionBase ? height : width ) ) {
+            return;
+        }
+
         const uint32_t rowSize = image.rowSize();
 
         if ( horizontalEdgeDetectionBase ) {
-- 
2.43.0


From 3178d3d3b32e288cf2120927ffcccd5649cf7ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 32/73] fix: overflow of a contrast check offset in edge
 detection read outside of the profile

---
 src/edge_detection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edge_detection.cpp b/src/edge_detection.cpp
index c400f9e..298fa60 100644
--- a/src/edge_detection.cpp
+++ b/src/edge_detection.cpp
@@ -87,7 +87,7 @@ namespace
             return false;
         }
 
-        if ( checkContrast && leftSideContrastCheck <= position && ( rightSideContrastCheck + position ) < size ) {
+        if ( checkContrast && leftSideContrastCheck <= position && rightSideContrastCheck < size - position ) {
             const uint32_t blackContrastEnd = position;
             const uint32_t whiteContrastStart = position + 1;
 
-- 
2.43.0


From 685849414d9f68e9316c750359eedeb4d473b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 33/73] fix: bitmap files of tiny images were refused because
 sizes of structures in memory were compared

---
 src/file/bmp_image.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 1fb3550..ad1a17c 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -396,14 +396,15 @@ namespace Bitmap_Operation
         file.seekg( 0, file.end );
         std::streamoff length = file.tellg();
 
-        if ( length == std::char_traits<char>::pos_type( -1 ) || static_cast<size_t>( length ) < sizeof( BitmapFileHeader ) + sizeof( BitmapInfoHeader ) )
+        // read bitmap header
+        BitmapFileHeader header;
+
+        // a file must have at least a bitmap header and the size of dib header, the rest depends on the size
+        if ( length == std::char_traits<char>::pos_type( -1 ) || length < static_cast<std::streamoff>( header.overallSize + sizeof( uint32_t ) ) )
             return penguinV::Image();
 
         file.seekg( 0, file.beg );
 
-        // read bitmap header
-        BitmapFileHeader header;
-
         std::vector<uint8_t> data( sizeof( BitmapFileHeader ) );
 
         file.read( reinterpret_cast<char *>( data.data() ), static_cast<std::streamsize>( header.overallSize ) );
-- 
2.43.0


From 1562d604d07ed4ea236c924e59d657ffd3f4e8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 34/73] fix: one row of a bitmap image with palette was not
 converted

---
 src/file/bmp_image.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index ad1a17c..b17d47c 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -497,10 +497,9 @@ namespace Bitmap_Operation
         // A special case for 256 color bitmap files
         if ( convertFrom256Color ) {
             const uint8_t * inY = image.data() + rowSize * ( info->height() - 1 );
-            const uint8_t * inYEnd = image.data();
             uint8_t * outY = image.data() + image.rowSize() * ( image.height() - 1 );
 
-            for ( ; inY != inYEnd; inY -= rowSize, outY -= image.rowSize() ) {
+            for ( uint32_t rowId = 0; rowId < image.height(); ++rowId, inY -= rowSize, outY -= image.rowSize() ) {
                 const uint8_t * inX = inY + ( info->width() - 1u );
                 const uint8_t * inXEnd = inY;
                 uint8_t * outX = outY + 3u * ( image.width() - 1u );
-- 
2.43.0


From b5d2ff166068cf3df65100117ff0214dd65a72b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 35/73] fix: size of bitmap data was compared with overflow so
 wrong files were accepted

---
 src/file/bmp_image.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index b17d47c..9b209b5 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -21,6 +21,7 @@
 #include "bmp_image.h"
 #include "../parameter_validation.h"
 #include "../penguinv_exception.h"
+#include <cstdint>
 #include <fstream>
 #include <memory>
 #include <vector>
@@ -284,7 +285,7 @@ namespace Bitmap_Operation
             get_value( data, offset, biClrImportant );
 
             if ( biHeight < 0 ) {
-                biHeight = -biHeight;
+                biHeight = ( biHeight == INT32_MIN ) ? 0 : -biHeight; // the opposite value does not exist
                 flipped = false;
             }
             else {
@@ -441,13 +442,15 @@ namespace Bitmap_Operation
         if ( info->validate( header ) )
             return penguinV::Image();
 
-        uint32_t rowSize = info->width() * info->colorCount();
-        if ( rowSize % BITMAP_ALIGNMENT != 0 )
-            rowSize = ( rowSize / BITMAP_ALIGNMENT + 1 ) * BITMAP_ALIGNMENT;
+        uint64_t fileRowSize = static_cast<uint64_t>( info->width() ) * info->colorCount();
+        if ( fileRowSize % BITMAP_ALIGNMENT != 0 )
+            fileRowSize = ( fileRowSize / BITMAP_ALIGNMENT + 1 ) * BITMAP_ALIGNMENT;
 
-        if ( length != header.bfOffBits + rowSize * info->height() )
+        if ( fileRowSize > UINT32_MAX || static_cast<uint64_t>( length ) != header.bfOffBits + fileRowSize * info->height() )
             return penguinV::Image();
 
+        const uint32_t rowSize = static_cast<uint32_t>( fileRowSize );
+
         const uint32_t palleteSize = header.bfOffBits - info->size() - header.overallSize;
         std::vector<uint8_t> pallete( palleteSize );
 
-- 
2.43.0


From dceaba2c96542fb2dff6a7e2ecd333120955141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 36/73] fix: size of a raw image overflowed so files of another
 size were accepted

---
 src/file/raw_image.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/file/raw_image.h b/src/file/raw_image.h
index e7c7bda..98c6526 100644
--- a/src/file/raw_image.h
+++ b/src/file/raw_image.h
@@ -40,16 +40,16 @@ namespace Raw_Operation
         file.seekg( 0, file.end );
         std::streamoff length = file.tellg();
 
-        const uint32_t overallImageSize = width * height * colorCount * static_cast<uint32_t>( sizeof( _Type ) );
+        const uint64_t rowSize = static_cast<uint64_t>( width ) * colorCount * sizeof( _Type );
 
-        if ( length != overallImageSize )
+        if ( length < 0 || static_cast<uint64_t>( length ) % rowSize != 0 || static_cast<uint64_t>( length ) / rowSize != height )
             return penguinV::ImageTemplate<_Type>();
 
         file.seekg( 0, file.beg );
 
         penguinV::ImageTemplate<_Type> image( width, height, colorCount );
 
-        size_t dataToRead = overallImageSize;
+        size_t dataToRead = static_cast<size_t>( length );
         size_t dataReaded = 0;
 
         const size_t blockSize = 4 * 1024 * 1024; // read by 4 MB blocks
-- 
2.43.0


From 345e09ee7e848985bc4a8ea9e981c8025b9d6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 37/73] fix: a raw image with padded rows was saved with the
 padding and could not be loaded

---
 src/file/raw_image.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/file/raw_image.h b/src/file/raw_image.h
index 98c6526..876f0e9 100644
--- a/src/file/raw_image.h
+++ b/src/file/raw_image.h
@@ -78,21 +78,16 @@ namespace Raw_Operation
         if ( !file )
             throw penguinVException( "Cannot create file for saving" );
 
-        size_t dataToWrite = sizeof( _Type ) * image.rowSize() * image.height();
-        size_t dataWritten = 0;
+        // rows are written one by one since they could be padded in memory
+        const size_t lineSize = sizeof( _Type ) * image.width() * image.colorCount();
 
-        const size_t blockSize = 4 * 1024 * 1024; // read by 4 MB blocks
-
-        const char * output = reinterpret_cast<const char *>( image.data() );
-        while ( dataToWrite > 0 ) {
-            size_t writeSize = dataToWrite > blockSize ? blockSize : dataToWrite;
+        const _Type * imageY = image.data();
+        const _Type * imageYEnd = imageY + static_cast<size_t>( image.rowSize() ) * image.height();
 
-            file.write( output + dataWritten, static_cast<std::streamsize>( writeSize ) );
-            file.flush();
+        for ( ; imageY != imageYEnd; imageY += image.rowSize() )
+            file.write( reinterpret_cast<const char *>( imageY ), static_cast<std::streamsize>( lineSize ) );
 
-            dataWritten += writeSize;
-            dataToWrite -= writeSize;
-        }
+        file.flush();
 
         if ( !file )
             throw penguinVException( "failed to write data into file" );
-- 
2.43.0


From 391cf43a5a916af543ffd01d4a55877ef631528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:14 +0000
Subject: [PATCH 38/73] fix: JPEG saving of an area always wrote the top left
 corner of the image

---
 src/file/jpeg_image.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file/jpeg_image.cpp b/src/file/jpeg_image.cpp
index a7fb787..91d88c9 100644
--- a/src/file/jpeg_image.cpp
+++ b/src/file/jpeg_image.cpp
@@ -139,8 +139,10 @@ namespace Jpeg_Operation
 
         jpeg_start_compress( &info, TRUE );
 
+        const uint8_t * imageStart = image.data() + static_cast<size_t>( image.rowSize() ) * startY + static_cast<size_t>( startX ) * image.colorCount();
+
         while ( info.next_scanline < info.image_height ) {
-            row_pointer[0] = const_cast<uint8_t *>( image.data() + image.rowSize() * info.next_scanline ); // libjpeg is C based library so no choice
+            row_pointer[0] = const_cast<uint8_t *>( imageStart + static_cast<size_t>( image.rowSize() ) * info.next_scanline ); // libjpeg is C based library so no choice
             jpeg_write_scanlines( &info, row_pointer, 1 );
         }
 
-- 
2.43.0


From 26ed19b950503fd7654ac25417a81fdeb01ed2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:14 +0000
Subject: [PATCH 39/73] fix: JPEG saving of a RGBA image made the library end
 the program

---
 src/file/jpeg_image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file/jpeg_image.cpp b/src/file/jpeg_image.cpp
index 91d88c9..300c398 100644
--- a/src/file/jpeg_image.cpp
+++ b/src/file/jpeg_image.cpp
@@ -116,6 +116,9 @@ namespace Jpeg_Operation
     {
         Image_Function::ValidateImageParameters( image, startX, startY, width, height );
 
+        if ( image.colorCount() != penguinV::GRAY_SCALE && image.colorCount() != penguinV::RGB )
+            throw penguinVException( "JPEG supports only gray-scale and RGB images" );
+
         FILE * file = fopen( path.data(), "wb" );
         if ( !file )
             throw penguinVException( "Cannot create file for saving" );
-- 
2.43.0


From 3541b2d31433198728a6b041709018149bf62776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:14 +0000
Subject: [PATCH 40/73] fix: pixels of a RGBA image were shifted in a saved PNG
 file

---
 src/file/png_image.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/file/png_image.cpp b/src/file/png_image.cpp
index adc71bb..830f7a7 100644
--- a/src/file/png_image.cpp
+++ b/src/file/png_image.cpp
@@ -204,10 +204,12 @@ namespace Png_Operation
                     *column = *( outX++ );
             }
             else {
-                for ( uint32_t x = 0; x < width; ++x, column += 3 ) {
-                    column[2] = *( outX++ );
-                    column[1] = *( outX++ );
-                    column[0] = *( outX++ );
+                // alpha channel, if an image has it, is not stored
+                const uint8_t colorCount = image.colorCount();
+                for ( uint32_t x = 0; x < width; ++x, column += 3, outX += colorCount ) {
+                    column[2] = outX[0];
+                    column[1] = outX[1];
+                    column[0] = outX[2];
                 }
             }
         }
-- 
2.43.0


From 4a16781854ff6fd6ae26893d11cc70d21b5c59b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 41/73] fix: light correction accessed memory outside of its
 data for an image of another size

---
 src/tool/light_correction.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index 828ec22..9b22d78 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -85,6 +85,9 @@ void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y,
     if ( _width == 0 || _height == 0 )
         throw penguinVException( "Image is not being analyzed before calling correction. Analyze first." );
 
+    if ( width > _width || height > _height || x > _width - width || y > _height - height )
+        throw penguinVException( "Area for correction is out of the analyzed image" );
+
     const uint32_t rowSize = image.rowSize();
 
     uint8_t * imageY = image.data() + y * rowSize + x;
@@ -109,6 +112,10 @@ void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y,
 
 std::vector<PointBase2D<uint32_t>> LightCorrection::findIncorrectPixels( const penguinV::Image & image ) const
 {
+    Image_Function::ValidateImageParameters( image );
+    if ( image.width() != _width || image.height() != _height )
+        throw penguinVException( "Image size differs from the size of the analyzed image" );
+
     std::vector<PointBase2D<uint32_t>> point;
 
     const uint32_t rowSize = image.rowSize();
-- 
2.43.0


From 074a61a4117204c55d9a963c3f27e716a8edd489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 42/73] fix: light correction divided by zero after an
 unsuccessful analysis

---
 src/tool/light_correction.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index 9b22d78..32d0e13 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -25,21 +25,19 @@ void LightCorrection::analyze( const penguinV::Image & image )
 {
     Image_Function::ValidateImageParameters( image );
 
-    _width = image.width();
-    _height = image.height();
-
-    _data.resize( _width * _height );
+    const uint32_t width = image.width();
+    const uint32_t height = image.height();
 
     uint8_t minValue = 255u;
     uint8_t maxValue = 0u;
 
     const uint32_t rowSize = image.rowSize();
     const uint8_t * imageY = image.data();
-    const uint8_t * imageYEnd = imageY + _height * rowSize;
+    const uint8_t * imageYEnd = imageY + height * rowSize;
 
     for ( ; imageY != imageYEnd; imageY += rowSize ) {
         const uint8_t * imageX = imageY;
-        const uint8_t * imageXEnd = imageX + _width;
+        const uint8_t * imageXEnd = imageX + width;
 
         for ( ; imageX != imageXEnd; ++imageX ) {
             if ( ( *imageX ) < minValue && ( *imageX ) > 0 )
@@ -53,6 +51,10 @@ void LightCorrection::analyze( const penguinV::Image & image )
     if ( minValue >= maxValue )
         throw penguinVException( "Image in invalid. Minimum value cannot be greater or equal to maximum value." );
 
+    _width = width;
+    _height = height;
+    _data.resize( _width * _height );
+
     imageY = image.data();
     imageYEnd = imageY + _height * rowSize;
     uint32_t * data = _data.data();
-- 
2.43.0


From 1d7a0503a78af7696651bbdb7e0b9ba1d2b376fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 43/73] fix: light correction handled only a third of colour
 images

---
 src/tool/light_correction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index 32d0e13..f96e096 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -24,6 +24,7 @@
 void LightCorrection::analyze( const penguinV::Image & image )
 {
     Image_Function::ValidateImageParameters( image );
+    Image_Function::VerifyGrayScaleImage( image );
 
     const uint32_t width = image.width();
     const uint32_t height = image.height();
@@ -84,6 +85,7 @@ void LightCorrection::correct( penguinV::Image & image ) const
 void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height ) const
 {
     Image_Function::ValidateImageParameters( image, x, y, width, height );
+    Image_Function::VerifyGrayScaleImage( image );
     if ( _width == 0 || _height == 0 )
         throw penguinVException( "Image is not being analyzed before calling correction. Analyze first." );
 
@@ -115,6 +117,7 @@ void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y,
 std::vector<PointBase2D<uint32_t>> LightCorrection::findIncorrectPixels( const penguinV::Image & image ) const
 {
     Image_Function::ValidateImageParameters( image );
+    Image_Function::VerifyGrayScaleImage( image );
     if ( image.width() != _width || image.height() != _height )
         throw penguinVException( "Image size differs from the size of the analyzed image" );
 
-- 
2.43.0


From 3882b4e7b39ac7635121df6b18bcd7f30cf2395f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 44/73] fix: comparison of lines could not be compiled

---
 src/math/math_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/math_base.h b/src/math/math_base.h
index cfbedc9..56d4ec0 100644
--- a/src/math/math_base.h
+++ b/src/math/math_base.h
@@ -194,7 +194,7 @@ public:
 
     bool operator==( const LineBase2D & line ) const
     {
-        return parallel( line ) && pvmath::isEqual<_Type>( distance( line._position ), 0 );
+        return isParallel( line ) && pvmath::isEqual<_Type>( distance( line._position ), 0 );
     }
 
     // This is translation (shift) function
-- 
2.43.0


From e92c2643fac21bfd58134b86a5d9558e91f62af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 45/73] fix: inequality of 3D points ignored the third
 coordinate

---
 src/math/math_base.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math/math_base.h b/src/math/math_base.h
index 56d4ec0..84dbe29 100644
--- a/src/math/math_base.h
+++ b/src/math/math_base.h
@@ -137,6 +137,11 @@ struct PointBase3D : public PointBase2D<_Type>
         return PointBase2D<_Type>::operator==( point ) && pvmath::isEqual( z, point.z );
     }
 
+    bool operator!=( const PointBase3D & point ) const
+    {
+        return !( *this == point );
+    }
+
     PointBase3D & operator+=( const PointBase3D & point )
     {
         PointBase2D<_Type>::operator+=( point );
-- 
2.43.0


From 46fbf420c0873c0eb2146faa4e309e19e94c6396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 46/73] fix: roots of a matrix were written outside of an
 output array of another size

---
 src/math/math_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/math_base.cpp b/src/math/math_base.cpp
index ac870f2..ec90899 100644
--- a/src/math/math_base.cpp
+++ b/src/math/math_base.cpp
@@ -137,6 +137,7 @@ namespace pvmath
         }
 
         // Results
+        roots.resize( size );
         for ( size_t i = 0; i < size; ++i )
             roots[matrixIndices[i + i * size]] = unsortedRoots[i];
     }
-- 
2.43.0


From 536626bc3fc9900b50440952ee119b800b3a8154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 47/73] fix: Haar transform of double values had only float
 accuracy

---
 src/math/haar_transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/haar_transform.cpp b/src/math/haar_transform.cpp
index 7332d8a..5e66b63 100644
--- a/src/math/haar_transform.cpp
+++ b/src/math/haar_transform.cpp
@@ -39,7 +39,7 @@ namespace
         // a =  x * (1 / sqrt(2)) + y * (1 / sqrt(2)) = (y + x) * (1 / sqrt(2))
         // b = -x * (1 / sqrt(2)) + y * (1 / sqrt(2)) = (y - x) * (1 / sqrt(2))
 
-        const _Type coefficient = 1.0f / std::sqrt( 2.0f );
+        const _Type coefficient = 1 / std::sqrt( static_cast<_Type>( 2 ) );
         std::vector<_Type> temp( input.size() );
 
         // Transform by X
@@ -91,7 +91,7 @@ namespace
         // a = x * (1 / sqrt(2)) - y * (1 / sqrt(2)) = (x - y) * (1 / sqrt(2))
         // b = x * (1 / sqrt(2)) + y * (1 / sqrt(2)) = (x + y) * (1 / sqrt(2))
 
-        const _Type coefficient = 1.0f / std::sqrt( 2.0f );
+        const _Type coefficient = 1 / std::sqrt( static_cast<_Type>( 2 ) );
         std::vector<_Type> temp( input.size() );
 
         // Transform by X
-- 
2.43.0


From 9c982e2c30fd00677ea6e6c82fc5cbf3152b10e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 48/73] fix: complex multiplication gave a wrong result when an
 output is one of inputs

---
 src/fft.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index 24cf13b..5fcfc31 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -195,8 +195,10 @@ namespace FFT
         const kiss_fft_cpx * outXEnd = outX + size;
 
         for ( ; outX != outXEnd; ++in1X, ++in2X, ++outX ) {
-            outX->r = in1X->r * in2X->r - in1X->i * in2X->i;
+            // output could be one of inputs
+            const kiss_fft_scalar real = in1X->r * in2X->r - in1X->i * in2X->i;
             outX->i = in1X->r * in2X->i + in1X->i * in2X->r;
+            outX->r = real;
         }
     }
 
-- 
2.43.0


From 476ea1d6a6a81717f828922d9c80691d7900935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 49/73] fix: width and height were confused in Fourier
 transform of a non-square image

---
 src/fft.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index 5fcfc31..ca729a1 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -204,7 +204,7 @@ namespace FFT
 
     void FFTExecutor::_makePlans()
     {
-        const int dims[2] = { static_cast<int>( _width ), static_cast<int>( _height ) };
+        const int dims[2] = { static_cast<int>( _height ), static_cast<int>( _width ) };
         _planDirect = kiss_fftnd_alloc( dims, 2, false, 0, 0 );
         _planInverse = kiss_fftnd_alloc( dims, 2, true, 0, 0 );
     }
-- 
2.43.0


From ff7a1d5d556c1fd4055112a2c0aaa58bc5e0afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 50/73] fix: Fourier data of odd width or height was not fully
 converted to an image

---
 src/fft.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index ca729a1..d580a63 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -110,14 +110,16 @@ namespace FFT
         const uint32_t size = _width * _height;
         const uint32_t middleX = _width / 2;
         const uint32_t middleY = _height / 2;
+        const uint32_t restX = _width - middleX;
+        const uint32_t restY = _height - middleY;
 
         for ( uint32_t inY = 0; inY < _height; ++inY ) {
-            const uint32_t outY = ( inY < middleY ) ? middleY + inY : inY - middleY;
+            const uint32_t outY = ( inY < restY ) ? middleY + inY : inY - restY;
 
             const uint32_t posYIn = inY * _width;
             const uint32_t posYOut = outY * _width;
             for ( uint32_t inX = 0; inX < _width; ++inX ) {
-                const uint32_t outX = ( inX < middleX ) ? middleX + inX : inX - middleX;
+                const uint32_t outX = ( inX < restX ) ? middleX + inX : inX - restX;
                 out[posYOut + outX] = static_cast<uint8_t>( _data[posYIn + inX].r / static_cast<float>( size ) + 0.5 );
             }
         }
-- 
2.43.0


From bbd0f56af40cf731be7c894a654035af837974fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 51/73] fix: Fourier data out of byte range gave arbitrary
 pixels

---
 src/fft.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index d580a63..a70ca2f 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -120,7 +120,8 @@ namespace FFT
             const uint32_t posYOut = outY * _width;
             for ( uint32_t inX = 0; inX < _width; ++inX ) {
                 const uint32_t outX = ( inX < restX ) ? middleX + inX : inX - restX;
-                out[posYOut + outX] = static_cast<uint8_t>( _data[posYIn + inX].r / static_cast<float>( size ) + 0.5 );
+                const double value = _data[posYIn + inX].r / static_cast<float>( size ) + 0.5;
+                out[posYOut + outX] = ( value < 0 ) ? 0u : ( value > 255 ) ? 255u : static_cast<uint8_t>( value );
             }
         }
 
-- 
2.43.0


From fe7634e328cd43ea3c9a04d5a2a0c888086ca442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 52/73] fix: light correction without analysis used
 uninitialised size

---
 src/tool/light_correction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool/light_correction.h b/src/tool/light_correction.h
index c5daff1..846eb4e 100644
--- a/src/tool/light_correction.h
+++ b/src/tool/light_correction.h
@@ -38,6 +38,6 @@ public:
 
 private:
     std::vector<uint32_t> _data;
-    uint32_t _width;
-    uint32_t _height;
+    uint32_t _width{ 0 };
+    uint32_t _height{ 0 };
 };
-- 
2.43.0


From 18fdbe7192a816f178d78466ca154a4205b26f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 53/73] fix: Hough transform lost points of the found line
 because of rounding

---
 src/math/hough_transform.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/math/hough_transform.cpp b/src/math/hough_transform.cpp
index e1ec68c..1831bf5 100644
--- a/src/math/hough_transform.cpp
+++ b/src/math/hough_transform.cpp
@@ -63,10 +63,14 @@ namespace
         const size_t inputPointCount = input.size();
         std::vector<_Type> distanceToLine( inputPointCount );
 
-        int bestAngleId = -angleStepPerSide;
         size_t highestPointCount = 0u;
         _Type averageDistance = 0;
 
+        // Rounding must not move points away from the line so these values are kept as they are for the best angle.
+        _Type bestAngleVal = 0;
+        _Type minDistance = 0;
+        _Type maxDistance = 0;
+
         _Type angleVal = -( initialAngle - angleStep * static_cast<_Type>( angleStepPerSide ) ); // this should be an opposite angle
 
         for ( int angleId = -angleStepPerSide; angleId <= angleStepPerSide; ++angleId, angleVal -= angleStep ) {
@@ -104,11 +108,15 @@ namespace
             }
 
             if ( highestPointCount <= onLinePointCount ) {
-                const _Type currentDistance = ( distanceToLine[initialPointId + onLinePointCount - 1u] + distanceToLine[initialPointId] ) / 2;
+                const _Type firstDistance = distanceToLine[initialPointId];
+                const _Type lastDistance = distanceToLine[initialPointId + onLinePointCount - 1u];
+                const _Type currentDistance = ( lastDistance + firstDistance ) / 2;
                 if ( highestPointCount < onLinePointCount || std::abs( currentDistance ) < std::abs( averageDistance ) ) {
                     highestPointCount = onLinePointCount;
-                    bestAngleId = angleId;
                     averageDistance = currentDistance;
+                    bestAngleVal = angleVal;
+                    minDistance = firstDistance;
+                    maxDistance = lastDistance;
                 }
             }
         }
@@ -116,14 +124,9 @@ namespace
         outOnLine.clear();
         outOffLine.clear();
 
-        angleVal = -( initialAngle + angleStep * static_cast<_Type>( bestAngleId ) );
-
-        const _Type minDistance = averageDistance - lineTolerance;
-        const _Type maxDistance = averageDistance + lineTolerance;
-
         // sort points
-        const _Type cosVal = std::cos( angleVal );
-        const _Type sinVal = std::sin( angleVal );
+        const _Type cosVal = std::cos( bestAngleVal );
+        const _Type sinVal = std::sin( bestAngleVal );
 
         _Type * distanceVal = distanceToLine.data();
         const PointBase2D<_Type> * point = input.data();
-- 
2.43.0


From 25fc34d474a884aca57b8bcc7715f89fd8f535a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:19 +0000
Subject: [PATCH 54/73] fix: coordinates were swapped in the position of an
 area in OpenCL functions

---
 src/opencl/image_function_opencl.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index cbe877d..5b80672 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -640,7 +640,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, width, height );
@@ -678,7 +678,7 @@ namespace Image_Function_OpenCL
             const uint32_t rowSizeIn = in.rowSize();
             const uint32_t rowSizeOut = out.rowSize();
 
-            const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+            const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
             kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
@@ -712,7 +712,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * colorCount;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height );
@@ -750,7 +750,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, width, height, channelId );
@@ -772,7 +772,7 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "fillOpenCL" );
 
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = y * rowSize + x;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, value );
 
@@ -879,7 +879,7 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "histogramOpenCL" );
 
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = y * rowSize + x;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, histogramOpenCL.data() );
 
@@ -990,7 +990,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * colorCount;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, tableOpenCL.data() );
@@ -1289,7 +1289,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, threshold );
@@ -1324,7 +1324,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, minThreshold, maxThreshold );
-- 
2.43.0


From d06393d58f36e6715230f724999e727bd3546c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:19 +0000
Subject: [PATCH 55/73] fix: OpenCL copying of an area ignored the position in
 the output image

---
 src/opencl/image_function_opencl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 5b80672..e3de4a9 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -171,7 +171,7 @@ namespace
             const size_t y = get_global_id(1);
 
             if ( x < width && y < height ) {
-                out[rowSizeOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x];
+                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x];
             }
         }
 
-- 
2.43.0


From 61e081c1c109d048cc557c7a9e65d720361f9c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:19 +0000
Subject: [PATCH 56/73] fix: OpenCL extraction of a channel read rows beyond
 the image

---
 src/opencl/image_function_opencl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index e3de4a9..9e91028 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -182,7 +182,7 @@ namespace
             const size_t y = get_global_id(1);
 
             if( x < width && y < height )
-                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + (y * rowSizeIn + x) * colorCount + channelId];
+                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x * colorCount + channelId];
         }
 
         __kernel void fillOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uchar value )
-- 
2.43.0


From b0518f8d86020c6db2bfe98222f119ecc6284d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:19 +0000
Subject: [PATCH 57/73] fix: OpenCL conversion of an area to the same color
 count replaced the whole output image

---
 src/opencl/image_function_opencl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 9e91028..a90a097 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -630,7 +630,7 @@ namespace Image_Function_OpenCL
         Image_Function::VerifyGrayScaleImage( out );
 
         if ( in.colorCount() == penguinV::GRAY_SCALE ) {
-            Copy( in, out );
+            Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
             return;
         }
 
@@ -669,7 +669,7 @@ namespace Image_Function_OpenCL
         Image_Function::VerifyRGBImage( out );
 
         if ( in.colorCount() == penguinV::RGB ) {
-            Copy( in, out );
+            Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         }
         else {
             const multiCL::OpenCLProgram & program = GetProgram();
-- 
2.43.0


From 69fc4323bb0b87990aee65f912cf00a06b7ef529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:19 +0000
Subject: [PATCH 58/73] fix: OpenCL flip of an area used the size of the whole
 image

---
 src/opencl/image_function_opencl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index a90a097..07b1b42 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -813,9 +813,9 @@ namespace Image_Function_OpenCL
             const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
-            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, in.width(), in.height(), horizontal, vertical );
+            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, horizontal, vertical );
 
-            multiCL::launchKernel2D( kernel, in.width(), in.height() );
+            multiCL::launchKernel2D( kernel, width, height );
         }
     }
 
-- 
2.43.0


From f6d4ef28227aa04114fd34d48b1d853030ce7951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 59/73] fix: OpenCL normalization passed wrong arguments to its
 kernel and used a wrong area

---
 src/opencl/image_function_opencl.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 07b1b42..9953b98 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -1099,21 +1099,17 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "intensityRangeOpenCL" );
 
         const uint8_t colorCount = Image_Function::CheckCommonColorCount( in, out );
-        width = width * colorCount;
 
         const uint32_t rowSizeIn = in.rowSize();
-        const uint32_t rowSizeOut = out.rowSize();
-
         const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
-        const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         std::vector<uint32_t> range = { 255, 0 };
 
         multiCL::Array<uint32_t> rangeOpenCL( range );
 
-        kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, rangeOpenCL.data() );
+        kernel.setArgument( in.data(), offsetIn, rowSizeIn, width * colorCount, height, rangeOpenCL.data() );
 
-        multiCL::launchKernel2D( kernel, width, height );
+        multiCL::launchKernel2D( kernel, width * colorCount, height );
 
         range = rangeOpenCL.get();
 
-- 
2.43.0


From 5ca4a2136b50b2aa639f901ed56303279bdefc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 60/73] fix: OpenCL SetPixel could not be run and set pixels at
 wrong places

---
 src/opencl/image_function_opencl.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 9953b98..1eafd72 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -326,15 +326,15 @@ namespace
             }
         }
 
-        __kernel void __attribute__(( overloadable )) setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uint x, uint y, uchar value )
+        __kernel void setPixelOpenCL( __global uchar * data, uint rowSize, uint width, uint height, uint x, uint y, uchar value )
         {
-            if ( x < width && y < height ) {
-                data[offset + y * rowSize + x] = value;
+            if ( x < width && y < height && get_global_id(0) == 0 ) {
+                data[y * rowSize + x] = value;
             }
         }
 
-        __kernel void __attribute__(( overloadable )) setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height,
-                                                                      __global const uint * pointX, __global const uint * pointY, uint pointSize, uint value )
+        __kernel void setPixelsOpenCL( __global uchar * data, uint rowSize, uint width, uint height, __global const uint * pointX, __global const uint * pointY,
+                                       uint pointSize, uchar value )
         {
             const size_t id = get_global_id(0);
 
@@ -342,7 +342,7 @@ namespace
                 const uint x = pointX[id];
                 const uint y = pointY[id];
                 if ( x < width && y < height ) {
-                    data[offset + y * rowSize + x] = value;
+                    data[y * rowSize + x] = value;
                 }
             }
         }
@@ -1213,6 +1213,7 @@ namespace Image_Function_OpenCL
     void SetPixel( Image & image, uint32_t x, uint32_t y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
         const multiCL::OpenCLProgram & program = GetProgram();
         multiCL::OpenCLKernel kernel( program, "setPixelOpenCL" );
@@ -1223,9 +1224,8 @@ namespace Image_Function_OpenCL
         const uint32_t width = image.width();
         const uint32_t height = image.height();
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
 
-        kernel.setArgument( image.data(), offset, rowSize, width, height, x, y, value );
+        kernel.setArgument( image.data(), rowSize, width, height, x, y, value );
 
         multiCL::launchKernel1D( kernel, 1 );
     }
@@ -1233,9 +1233,10 @@ namespace Image_Function_OpenCL
     void SetPixel( Image & image, const std::vector<uint32_t> & X, const std::vector<uint32_t> & Y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
         const multiCL::OpenCLProgram & program = GetProgram();
-        multiCL::OpenCLKernel kernel( program, "setPixelOpenCL" );
+        multiCL::OpenCLKernel kernel( program, "setPixelsOpenCL" );
 
         if ( image.empty() || X.empty() || X.size() != Y.size() )
             throw penguinVException( "Bad input parameters in image function" );
@@ -1253,7 +1254,7 @@ namespace Image_Function_OpenCL
         multiCL::Array<uint32_t> pointX( X );
         multiCL::Array<uint32_t> pointY( Y );
 
-        kernel.setArgument( image.data(), rowSize, width, height, pointX.data(), pointY.data(), X.size(), value );
+        kernel.setArgument( image.data(), rowSize, width, height, pointX.data(), pointY.data(), static_cast<uint32_t>( X.size() ), value );
 
         multiCL::launchKernel1D( kernel, static_cast<uint32_t>( X.size() ) );
     }
-- 
2.43.0


From d2d418fada89a7f84953679e136332cbc33ff8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 61/73] fix: images with padded rows could not be transferred
 to and from OpenCL devices

---
 src/opencl/image_function_opencl.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 1eafd72..b45d17b 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -565,16 +565,18 @@ namespace Image_Function_OpenCL
         if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( in.alignment() == 1u || ( in.rowSize() == in.width() * in.colorCount() ) ) {
+        const uint32_t rowLength = in.width() * in.colorCount();
+
+        if ( in.rowSize() == rowLength && out.rowSize() == rowLength ) {
             const size_t size = static_cast<size_t>( in.rowSize() ) * in.height();
             multiCL::writeBuffer( reinterpret_cast<cl_mem>( out.data() ), size * sizeof( uint8_t ), in.data() );
         }
         else {
             const size_t origin[3] = { 0, 0, 0 };
-            const size_t region[3] = { in.width(), in.height(), 1 };
+            const size_t region[3] = { rowLength, in.height(), 1 };
 
-            multiCL::openCLCheck( clEnqueueWriteImage( multiCL::OpenCLDeviceManager::instance().device().queue()(), reinterpret_cast<cl_mem>( out.data() ), CL_TRUE,
-                                                       origin, region, in.rowSize(), 0, in.data(), 0, NULL, NULL ) );
+            multiCL::openCLCheck( clEnqueueWriteBufferRect( multiCL::OpenCLDeviceManager::instance().device().queue()(), reinterpret_cast<cl_mem>( out.data() ), CL_TRUE,
+                                                            origin, origin, region, out.rowSize(), 0, in.rowSize(), 0, in.data(), 0, NULL, NULL ) );
         }
     }
 
@@ -594,17 +596,19 @@ namespace Image_Function_OpenCL
         if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( out.alignment() == 1u || ( out.rowSize() == out.width() * out.colorCount() ) ) {
+        const uint32_t rowLength = in.width() * in.colorCount();
+
+        if ( in.rowSize() == rowLength && out.rowSize() == rowLength ) {
             const size_t size = static_cast<size_t>( in.rowSize() ) * in.height();
             multiCL::readBuffer( reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), size * sizeof( uint8_t ), out.data() );
         }
         else {
             const size_t origin[3] = { 0, 0, 0 };
-            const size_t region[3] = { out.width(), out.height(), 1 };
+            const size_t region[3] = { rowLength, in.height(), 1 };
 
-            multiCL::openCLCheck( clEnqueueReadImage( multiCL::OpenCLDeviceManager::instance().device().queue()(),
-                                                      reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), CL_TRUE, origin, region, out.rowSize(), 0,
-                                                      out.data(), 0, NULL, NULL ) );
+            multiCL::openCLCheck( clEnqueueReadBufferRect( multiCL::OpenCLDeviceManager::instance().device().queue()(),
+                                                           reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), CL_TRUE, origin, origin, region, in.rowSize(), 0,
+                                                           out.rowSize(), 0, out.data(), 0, NULL, NULL ) );
         }
     }
 
-- 
2.43.0


From 5f59f501a5d0ab4914fad1085c140a17400cf5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 62/73] fix: OpenCL color conversion of RGBA images gave wrong
 values

---
 src/opencl/image_function_opencl.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index b45d17b..c141c70 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -136,31 +136,26 @@ namespace
             if( x < width && y < height ) {
                 __global const uchar * data = in + offsetIn + (rowSizeIn * y) + x * colorCount;
 
-                uint sum = 0;
-                for( uchar i = 0; i < colorCount; ++i, ++data )
-                {
-                    sum += (*data);
-                }
-
                 const size_t id = offsetOut + y * rowSizeOut + x;
-                out[id] = sum / colorCount;
+                out[id] = ((uint)(data[0]) + data[1] + data[2]) / 3; // average of red, green and blue components
             }
         }
 
-        __kernel void convertToRgbOpenCL( __global const uchar * in, uint offsetIn, uint rowSizeIn, __global uchar * out, uint offsetOut, uint rowSizeOut, uchar colorCount,
-                                          uint width, uint height )
+        __kernel void convertToRgbOpenCL( __global const uchar * in, uint offsetIn, uint rowSizeIn, uchar colorCountIn, __global uchar * out, uint offsetOut, uint rowSizeOut,
+                                          uchar colorCount, uint width, uint height )
         {
             const size_t x = get_global_id(0);
             const size_t y = get_global_id(1);
 
             if( x < width && y < height ) {
-                const size_t id = offsetIn + y * rowSizeIn + x;
+                const size_t id = offsetIn + y * rowSizeIn + x * colorCountIn;
+                const size_t step = (colorCountIn == 1) ? 0 : 1; // gray-scale value is used for all components
 
                 __global uchar * data = out + offsetOut + (rowSizeOut * y) + x * colorCount;
 
                 for( uchar i = 0; i < colorCount; ++i, ++data )
                 {
-                    (*data) = in[id];
+                    (*data) = in[id + i * step];
                 }
             }
         }
@@ -685,7 +680,7 @@ namespace Image_Function_OpenCL
             const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
-            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
+            kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
 
             multiCL::launchKernel2D( kernel, width, height );
         }
-- 
2.43.0


From fb608eec6caa867785c0197e7fa004790cc2e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 63/73] fix: OpenCL double threshold accepted minimum bigger
 than maximum

---
 src/opencl/image_function_opencl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index c141c70..bdbcf9b 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -1314,6 +1314,9 @@ namespace Image_Function_OpenCL
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyGrayScaleImage( in, out );
 
+        if ( minThreshold > maxThreshold )
+            throw penguinVException( "Minimum threshold value is bigger than maximum threshold value" );
+
         const multiCL::OpenCLProgram & program = GetProgram();
         multiCL::OpenCLKernel kernel( program, "thresholdDoubleOpenCL" );
 
-- 
2.43.0


From fcccd61d1d60217e3cc8266f35ee7ee0847d9c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:02 +0000
Subject: [PATCH 64/73] fix: reject Gaussian kernel sizes whose double does not
 fit 32 bits

---
 src/filtering.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filtering.cpp b/src/filtering.cpp
index 3d95200..a00cfc5 100644
--- a/src/filtering.cpp
+++ b/src/filtering.cpp
@@ -352,7 +352,7 @@ namespace Image_Function
 
     void GetGaussianKernel( std::vector<float> & filter, uint32_t width, uint32_t height, uint32_t kernelSize, float sigma )
     {
-        if ( width < 3 || height < 3 || kernelSize == 0 || width < ( kernelSize * 2 + 1 ) || height < ( kernelSize * 2 + 1 ) || sigma < 0 )
+        if ( width < 3 || height < 3 || kernelSize == 0 || kernelSize > ( width - 1 ) / 2 || kernelSize > ( height - 1 ) / 2 || sigma < 0 )
             throw penguinVException( "Incorrect input parameters for Gaussian filter kernel" );
 
         filter.resize( width * height );
-- 
2.43.0


From 639cdfaa3a2a01fd86742a3a7cbb346ba652f855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:02 +0000
Subject: [PATCH 65/73] fix: reject zero sigma of the Gaussian kernel instead
 of returning NaN

---
 src/filtering.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filtering.cpp b/src/filtering.cpp
index a00cfc5..ab7354c 100644
--- a/src/filtering.cpp
+++ b/src/filtering.cpp
@@ -352,7 +352,7 @@ namespace Image_Function
 
     void GetGaussianKernel( std::vector<float> & filter, uint32_t width, uint32_t height, uint32_t kernelSize, float sigma )
     {
-        if ( width < 3 || height < 3 || kernelSize == 0 || kernelSize > ( width - 1 ) / 2 || kernelSize > ( height - 1 ) / 2 || sigma < 0 )
+        if ( width < 3 || height < 3 || kernelSize == 0 || kernelSize > ( width - 1 ) / 2 || kernelSize > ( height - 1 ) / 2 || !( sigma > 0 ) )
             throw penguinVException( "Incorrect input parameters for Gaussian filter kernel" );
 
         filter.resize( width * height );
-- 
2.43.0


From 1e0edcd64b468aae80920446873f6fb4cbf861c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:22 +0000
Subject: [PATCH 66/73] fix: complex data lost its contents when assigned to
 itself

---
 src/math/fft_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/fft_base.h b/src/math/fft_base.h
index 37f8608..e0713af 100644
--- a/src/math/fft_base.h
+++ b/src/math/fft_base.h
@@ -59,7 +59,8 @@ namespace FFT
 
         BaseComplexData & operator=( const BaseComplexData & data )
         {
-            _copy( data );
+            if ( this != &data )
+                _copy( data );
 
             return *this;
         }
-- 
2.43.0


From 21276e262bfe7f1623ca8e4b8e6b9b8dfd4055c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:10 +0000
Subject: [PATCH 67/73] fix: raise an exception for corrupted and unwritable
 PNG files instead of ending the application

---
 src/file/png_image.cpp | 93 ++++++++++++++++++++++++++++++++----------
 1 file changed, 72 insertions(+), 21 deletions(-)

diff --git a/src/file/png_image.cpp b/src/file/png_image.cpp
index 830f7a7..079138a 100644
--- a/src/file/png_image.cpp
+++ b/src/file/png_image.cpp
@@ -52,10 +52,45 @@ namespace Png_Operation
 #else
 
 #include <png.h>
+#include <setjmp.h>
 #include <stdlib.h>
 
 #include "../parameter_validation.h"
 
+namespace
+{
+    // These functions are used instead of ones from C++ standard library because libpng reports errors by a jump
+    uint8_t ** allocateRows( png_structp png, uint32_t count, size_t byteCount )
+    {
+        uint8_t ** rows = reinterpret_cast<uint8_t **>( calloc( count, sizeof( uint8_t * ) ) );
+
+        for ( uint32_t y = 0; rows != NULL && y < count; ++y ) {
+            rows[y] = reinterpret_cast<uint8_t *>( malloc( byteCount ) );
+            if ( rows[y] == NULL ) {
+                for ( uint32_t i = 0; i < y; ++i )
+                    free( rows[i] );
+                free( rows );
+                rows = NULL;
+            }
+        }
+
+        if ( rows == NULL )
+            png_error( png, "Not enough memory" );
+
+        return rows;
+    }
+
+    void freeRows( uint8_t ** rows, uint32_t count )
+    {
+        if ( rows == NULL )
+            return;
+
+        for ( uint32_t y = 0; y < count; ++y )
+            free( rows[y] );
+        free( rows );
+    }
+}
+
 namespace Png_Operation
 {
     penguinV::Image Load( const std::string & path )
@@ -75,10 +110,21 @@ namespace Png_Operation
 
         png_infop info = png_create_info_struct( png );
         if ( !info ) {
+            png_destroy_read_struct( &png, NULL, NULL );
             fclose( file );
             return penguinV::Image();
         }
 
+        uint8_t ** volatile row_pointers = NULL;
+        volatile uint32_t rowCount = 0;
+
+        if ( setjmp( png_jmpbuf( png ) ) ) {
+            freeRows( row_pointers, rowCount );
+            png_destroy_read_struct( &png, &info, NULL );
+            fclose( file );
+            throw penguinVException( "PNG file is corrupted" );
+        }
+
         png_init_io( png, file );
         png_read_info( png, info );
 
@@ -109,12 +155,8 @@ namespace Png_Operation
 
         png_read_update_info( png, info );
 
-        uint8_t ** row_pointers = reinterpret_cast<uint8_t **>( malloc( sizeof( uint8_t * ) * height ) );
-
-        const size_t rowByteCount = png_get_rowbytes( png, info );
-
-        for ( uint32_t y = 0; y < height; ++y )
-            row_pointers[y] = reinterpret_cast<uint8_t *>( malloc( rowByteCount ) );
+        row_pointers = allocateRows( png, height, png_get_rowbytes( png, info ) );
+        rowCount = height;
 
         png_read_image( png, row_pointers );
 
@@ -142,9 +184,7 @@ namespace Png_Operation
 
         fclose( file );
 
-        for ( uint32_t y = 0; y < height; ++y )
-            free( row_pointers[y] );
-        free( row_pointers );
+        freeRows( row_pointers, height );
 
         png_destroy_read_struct( &png, &info, NULL );
 
@@ -170,12 +210,26 @@ namespace Png_Operation
             throw penguinVException( "Cannot create file for saving" );
 
         png_structp png = png_create_write_struct( PNG_LIBPNG_VER_STRING, NULL, NULL, NULL );
-        if ( !png )
+        if ( !png ) {
+            fclose( file );
             throw penguinVException( "Cannot create file for saving" );
+        }
 
         png_infop info = png_create_info_struct( png );
-        if ( !info )
+        if ( !info ) {
+            png_destroy_write_struct( &png, NULL );
+            fclose( file );
             throw penguinVException( "Cannot create file for saving" );
+        }
+
+        uint8_t ** volatile row_pointers = NULL;
+
+        if ( setjmp( png_jmpbuf( png ) ) ) {
+            freeRows( row_pointers, height );
+            png_destroy_write_struct( &png, &info );
+            fclose( file );
+            throw penguinVException( "Cannot save PNG file" );
+        }
 
         png_init_io( png, file );
 
@@ -187,12 +241,7 @@ namespace Png_Operation
 
         png_write_info( png, info );
 
-        uint8_t ** row_pointers = reinterpret_cast<uint8_t **>( malloc( sizeof( uint8_t * ) * height ) );
-
-        const size_t rowByteCount = png_get_rowbytes( png, info );
-
-        for ( uint32_t y = 0; y < height; ++y )
-            row_pointers[y] = reinterpret_cast<uint8_t *>( malloc( rowByteCount ) );
+        row_pointers = allocateRows( png, height, png_get_rowbytes( png, info ) );
 
         const uint8_t * outY = image.data() + startY * image.rowSize() + startX * image.colorCount();
         for ( uint32_t y = 0; y < height; ++y, outY += image.rowSize() ) {
@@ -217,13 +266,15 @@ namespace Png_Operation
         png_write_image( png, row_pointers );
         png_write_end( png, NULL );
 
-        fclose( file );
+        const bool isWritten = ( ferror( file ) == 0 );
+        const bool isClosed = ( fclose( file ) == 0 );
 
-        for ( uint32_t y = 0; y < height; ++y )
-            free( row_pointers[y] );
-        free( row_pointers );
+        freeRows( row_pointers, height );
 
         png_destroy_write_struct( &png, &info );
+
+        if ( !isWritten || !isClosed )
+            throw penguinVException( "Cannot save PNG file" );
     }
 }
 
-- 
2.43.0


From 35ade40d14c4f723408ea3838a73eca846bd2d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:10 +0000
Subject: [PATCH 68/73] fix: raise an exception for corrupted and unwritable
 JPEG files instead of ending the application

---
 src/file/jpeg_image.cpp | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/file/jpeg_image.cpp b/src/file/jpeg_image.cpp
index 300c398..4975367 100644
--- a/src/file/jpeg_image.cpp
+++ b/src/file/jpeg_image.cpp
@@ -75,6 +75,22 @@ namespace Jpeg_Operation
 
 #include <jerror.h>
 #include <jpeglib.h>
+#include <setjmp.h>
+
+namespace
+{
+    // Default error handler of the library terminates the application
+    struct ErrorManager
+    {
+        struct jpeg_error_mgr base; // must be the first member
+        jmp_buf jumpBuffer;
+    };
+
+    void handleError( j_common_ptr info )
+    {
+        longjmp( reinterpret_cast<ErrorManager *>( info->err )->jumpBuffer, 1 );
+    }
+}
 
 namespace Jpeg_Operation
 {
@@ -88,9 +104,16 @@ namespace Jpeg_Operation
             throw penguinVException( "Cannot open Jpeg image" );
 
         struct jpeg_decompress_struct info;
-        struct jpeg_error_mgr error;
-        info.err = jpeg_std_error( &error );
+        ErrorManager error;
+        info.err = jpeg_std_error( &error.base );
         jpeg_create_decompress( &info );
+        error.base.error_exit = handleError;
+
+        if ( setjmp( error.jumpBuffer ) ) {
+            jpeg_destroy_decompress( &info );
+            fclose( file );
+            throw penguinVException( "Jpeg image is corrupted" );
+        }
 
         jpeg_stdio_src( &info, file );
         jpeg_read_header( &info, TRUE );
@@ -124,11 +147,18 @@ namespace Jpeg_Operation
             throw penguinVException( "Cannot create file for saving" );
 
         struct jpeg_compress_struct info;
-        struct jpeg_error_mgr jerr;
+        ErrorManager error;
         JSAMPROW row_pointer[1];
 
-        info.err = jpeg_std_error( &jerr );
+        info.err = jpeg_std_error( &error.base );
         jpeg_create_compress( &info );
+        error.base.error_exit = handleError;
+
+        if ( setjmp( error.jumpBuffer ) ) {
+            jpeg_destroy_compress( &info );
+            fclose( file );
+            throw penguinVException( "Cannot save Jpeg image" );
+        }
 
         jpeg_stdio_dest( &info, file );
 
-- 
2.43.0


From 9a5733756d177d570def640510b8bf3125539949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:44 +0000
Subject: [PATCH 69/73] fix: OpenCL functions failed after a device was closed
 and initialized again

---
 src/opencl/image_function_opencl.cpp | 14 +++++-----
 src/opencl/opencl_device.cpp         | 39 ++++++++--------------------
 2 files changed, 19 insertions(+), 34 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index bdbcf9b..dc86130 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -366,21 +366,23 @@ namespace
         }
         )";
 
+    // A program belongs to a context so a device which was closed and initialized again needs a new one. An existing program retains its context
+    // so none of other contexts can have the same ID.
     const multiCL::OpenCLProgram & GetProgram()
     {
-        static std::map<cl_device_id, std::shared_ptr<multiCL::OpenCLProgram>> deviceProgram;
+        static std::map<cl_context, std::shared_ptr<multiCL::OpenCLProgram>> contextProgram;
         static std::mutex mapGuard;
 
         std::lock_guard<std::mutex> lock( mapGuard );
-        multiCL::OpenCLDevice & device = multiCL::OpenCLDeviceManager::instance().device();
+        const multiCL::OpenCLContext & context = multiCL::OpenCLDeviceManager::instance().device().context();
 
-        std::map<cl_device_id, std::shared_ptr<multiCL::OpenCLProgram>>::const_iterator program = deviceProgram.find( device.deviceId() );
-        if ( program != deviceProgram.cend() )
+        std::map<cl_context, std::shared_ptr<multiCL::OpenCLProgram>>::const_iterator program = contextProgram.find( context() );
+        if ( program != contextProgram.cend() )
             return *( program->second );
 
-        deviceProgram[device.deviceId()] = std::shared_ptr<multiCL::OpenCLProgram>( new multiCL::OpenCLProgram( device.context(), programCode.data() ) );
+        contextProgram[context()] = std::shared_ptr<multiCL::OpenCLProgram>( new multiCL::OpenCLProgram( context, programCode.data() ) );
 
-        return *( deviceProgram[device.deviceId()] );
+        return *( contextProgram[context()] );
     }
 }
 
diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index bbd5357..bd788a6 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -57,40 +57,24 @@ namespace
         }
         )";
 
-    struct MemsetKernelHolder
+    // A program belongs to a context so a device which was closed and initialized again needs a new one. An existing program retains its context
+    // so none of other contexts can have the same ID.
+    const multiCL::OpenCLProgram & getMemsetProgram()
     {
-        MemsetKernelHolder() = default;
-
-        ~MemsetKernelHolder()
-        {
-            kernel.reset();
-            program.reset();
-        }
-
-        std::shared_ptr<multiCL::OpenCLProgram> program;
-        std::shared_ptr<multiCL::OpenCLKernel> kernel;
-    };
-
-    multiCL::OpenCLKernel & getMemsetKernel()
-    {
-        static std::map<cl_device_id, MemsetKernelHolder> deviceProgram;
+        static std::map<cl_context, std::shared_ptr<multiCL::OpenCLProgram>> contextProgram;
         static std::mutex mapGuard;
         std::lock_guard<std::mutex> lock( mapGuard );
 
-        multiCL::OpenCLDevice & device = multiCL::OpenCLDeviceManager::instance().device();
+        const multiCL::OpenCLContext & context = multiCL::OpenCLDeviceManager::instance().device().context();
 
-        auto program = deviceProgram.find( device.deviceId() );
-        if ( program != deviceProgram.cend() ) {
-            return *( program->second.kernel );
+        auto program = contextProgram.find( context() );
+        if ( program != contextProgram.cend() ) {
+            return *( program->second );
         }
 
-        MemsetKernelHolder holder;
-        holder.program = std::shared_ptr<multiCL::OpenCLProgram>( new multiCL::OpenCLProgram( device.context(), memsetCode.data() ) );
-        holder.kernel = std::shared_ptr<multiCL::OpenCLKernel>( new multiCL::OpenCLKernel( *( holder.program ), "memsetOpenCL" ) );
-
-        deviceProgram[device.deviceId()] = holder;
+        contextProgram[context()] = std::shared_ptr<multiCL::OpenCLProgram>( new multiCL::OpenCLProgram( context, memsetCode.data() ) );
 
-        return *( deviceProgram[device.deviceId()].kernel );
+        return *( contextProgram[context()] );
     }
 }
 
@@ -111,8 +95,7 @@ namespace multiCL
         void memorySet( cl_mem data, const void * pattern, size_t patternSize, size_t offset, size_t size )
         {
             if ( patternSize == 1u ) {
-                multiCL::OpenCLKernel & kernel = getMemsetKernel();
-                kernel.reset();
+                multiCL::OpenCLKernel kernel( getMemsetProgram(), "memsetOpenCL" );
                 const uint8_t value = *( static_cast<const uint8_t *>( pattern ) );
                 kernel.setArgument( data, static_cast<uint32_t>( offset ), static_cast<uint32_t>( size ), value );
                 multiCL::launchKernel1D( kernel, size );
-- 
2.43.0


From bf02babca0c09dad42a81e7b730057ccbe4a92a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:44 +0000
Subject: [PATCH 70/73] fix: reject unknown OpenCL device IDs instead of
 reading outside the list of devices

---
 src/opencl/opencl_device.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index bd788a6..de635a2 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -372,6 +372,10 @@ namespace multiCL
             throw penguinVException( "Device manager does not contain any devices" );
         }
 
+        if ( deviceId >= _supportedDeviceId.size() ) {
+            throw penguinVException( "System does not contain a device with such ID" );
+        }
+
         auto foundDevice
             = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
@@ -388,6 +392,10 @@ namespace multiCL
             throw penguinVException( "Device manager does not contain any devices" );
         }
 
+        if ( deviceId >= _supportedDeviceId.size() ) {
+            throw penguinVException( "System does not contain a device with such ID" );
+        }
+
         auto foundDevice
             = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
@@ -400,6 +408,10 @@ namespace multiCL
 
     void OpenCLDeviceManager::setActiveDevice( uint32_t deviceId )
     {
+        if ( deviceId >= _supportedDeviceId.size() ) {
+            throw penguinVException( "System does not contain a device with such ID" );
+        }
+
         auto foundDevice
             = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
-- 
2.43.0


From 68ba7de6fa715d3d1cb9d4f2c5b394e8d18cbee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:37 +0000
Subject: [PATCH 71/73] fix: an OpenCL device was left without queues when no
 queues were asked for

---
 src/opencl/opencl_device.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index de635a2..efa7d8f 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -285,6 +285,11 @@ namespace multiCL
             queueCount = 255u;
         }
 
+        // Nothing can be executed on a device without queues.
+        if ( queueCount == 0u ) {
+            queueCount = 1u;
+        }
+
         if ( queueCount != _queue.size() ) {
             if ( queueCount > _queue.size() ) {
                 while ( queueCount != _queue.size() ) {
-- 
2.43.0


From 33ff9554a9bb842b323cc3680f24f0baa90252f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:37 +0000
Subject: [PATCH 72/73] fix: images of OpenCL devices could not be copied by
 the constructor and lost their type when moved from

---
 src/opencl/image_buffer_opencl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opencl/image_buffer_opencl.h b/src/opencl/image_buffer_opencl.h
index 5ebe84c..bd7969a 100644
--- a/src/opencl/image_buffer_opencl.h
+++ b/src/opencl/image_buffer_opencl.h
@@ -47,11 +47,11 @@ namespace penguinV
         }
 
         ImageTemplateOpenCL( const ImageTemplateOpenCL & image )
-        {
-            ImageTemplate<TColorDepth>::operator=( image );
-        }
+            : ImageTemplate<TColorDepth>( image )
+        {}
 
         ImageTemplateOpenCL( ImageTemplateOpenCL && image )
+            : ImageTemplateOpenCL()
         {
             ImageTemplate<TColorDepth>::swap( image );
         }
-- 
2.43.0


From 5d250bfd91ded9d2e758d06a0970a13c830b0253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:57 +0000
Subject: [PATCH 73/73] fix: memory allocator of OpenCL devices was corrupted
 by images of several threads

---
 src/opencl/opencl_memory.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/opencl/opencl_memory.h b/src/opencl/opencl_memory.h
index c34177e..25898cb 100644
--- a/src/opencl/opencl_memory.h
+++ b/src/opencl/opencl_memory.h
@@ -31,6 +31,7 @@
 
 #include "../memory/memory_allocator.h"
 #include <map>
+#include <mutex>
 
 namespace multiCL
 {
@@ -59,6 +60,12 @@ namespace multiCL
             _free();
         }
 
+        virtual void reserve( size_t size ) override
+        {
+            std::lock_guard<std::mutex> guard( _lock );
+            BaseMemoryAllocator::reserve( size );
+        }
+
         // Returns a memory structure pointer to an allocated memory. If memory size of allocated memory chuck is enough for requested size
         // then assign a pointer to preallocated memory, otherwise allocate a new chuck of memory just for this pointer
         template <typename _DataType>
@@ -66,6 +73,8 @@ namespace multiCL
         {
             size = size * sizeof( _DataType );
 
+            std::lock_guard<std::mutex> guard( _lock );
+
             if ( _data != NULL && size < _size ) {
                 const uint8_t level = _getAllocationLevel( size < _minimumSizeChunk ? _minimumSizeChunk : size );
 
@@ -102,6 +111,8 @@ namespace multiCL
         // otherwise OpenCL specific function will be called.
         void free( cl_mem memory )
         {
+            std::lock_guard<std::mutex> guard( _lock );
+
             if ( _data != NULL ) {
                 auto pos = _allocatedChunk.find( memory );
 
@@ -133,12 +144,15 @@ namespace multiCL
         // Maximum available memory size.
         const size_t _availableSize;
 
+        // Images and arrays on the same device can be created and destroyed by several threads.
+        std::mutex _lock;
+
         // A map which holds an information about allocated memory in preallocated memory chunk.
         // Key is a pointer to allocated memory in OpenCL terms.
         // Value is an offset from preallocated memory and level.
         std::map<cl_mem, std::pair<size_t, uint8_t>> _allocatedChunk;
 
-        // True memory allocation on OpenCL devices.
+        // True memory allocation on OpenCL devices. _lock is held by reserve().
         virtual void _allocate( size_t size )
         {
             if ( size > _availableSize ) {
-- 
2.43.0

