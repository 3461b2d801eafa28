From 2e674813d410fe6466d42bf8520b3a7963906e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 01/23] fix: ImageStatistics::min and max of a sub-image only
 use its pixels

---
 boofcpp/src/boofcv/image_statistics.h | 30 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 81f08ba..3b9bdcf 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -12,12 +12,15 @@ namespace boofcv {
         static T min( const Gray<T>& input) {
             T min_value = std::numeric_limits<T>::max();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v < min_value ) {
-                    min_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                uint32_t index = input.offset + y*input.stride;
+                uint32_t end = index + input.width;
+
+                while( index < end ) {
+                    const T& v = input.data[index++];
+                    if( v < min_value ) {
+                        min_value = v;
+                    }
                 }
             }
 
@@ -28,12 +31,15 @@ namespace boofcv {
         static T max( const Gray<T>& input) {
             T max_value = std::numeric_limits<T>::min();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v > max_value ) {
-                    max_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                uint32_t index = input.offset + y*input.stride;
+                uint32_t end = index + input.width;
+
+                while( index < end ) {
+                    const T& v = input.data[index++];
+                    if( v > max_value ) {
+                        max_value = v;
+                    }
                 }
             }
 
-- 
2.43.0


From 9aa283f94f52e6bfefbac49b30692735ccb731fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 02/23] fix: ImageStatistics::max of images with only negative
 floating point values

---
 boofcpp/src/boofcv/image_statistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 3b9bdcf..e420442 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -29,7 +29,7 @@ namespace boofcv {
 
         template<class T>
         static T max( const Gray<T>& input) {
-            T max_value = std::numeric_limits<T>::min();
+            T max_value = std::numeric_limits<T>::lowest();
 
             for( uint32_t y = 0; y < input.height; y++ ) {
                 uint32_t index = input.offset + y*input.stride;
-- 
2.43.0


From e81bebc7865d722e543c716bceb550ff71225e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 03/23] fix: ImageStatistics::mean of signed images with a
 negative sum

---
 boofcpp/src/boofcv/image_statistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index e420442..ef2c074 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -62,7 +62,7 @@ namespace boofcv {
         template<class T>
         static T mean( const Gray<T>& input) {
             typename TypeInfo<T>::sum_type a = sum(input);
-            return static_cast<T>(a / (input.width * input.height));
+            return static_cast<T>(a / static_cast<typename TypeInfo<T>::sum_type>(input.width * input.height));
         }
 
         template<class T>
-- 
2.43.0


From 72ebebb42f0fadd17fdf25abb7407cf0959bee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 04/23] fix: convert_average of signed images with a negative
 sum

---
 boofcpp/src/boofcv/image_convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_convert.h b/boofcpp/src/boofcv/image_convert.h
index 8e7439e..47025e3 100644
--- a/boofcpp/src/boofcv/image_convert.h
+++ b/boofcpp/src/boofcv/image_convert.h
@@ -32,7 +32,7 @@ namespace boofcv {
                     sum += *input_ptr++;
                 }
 
-                *output_ptr++ = static_cast<E>(sum/input.num_bands);
+                *output_ptr++ = static_cast<E>(sum/static_cast<sum_type>(input.num_bands));
             }
         }
     }
-- 
2.43.0


From f222b11714dda3f97e264c0be9e23b2256f80ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 05/23] fix: ImageMiscOps::fill of an interleaved sub-image
 only writes its pixels

---
 boofcpp/src/boofcv/image_misc_ops.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/image_misc_ops.h b/boofcpp/src/boofcv/image_misc_ops.h
index 5927518..1194786 100644
--- a/boofcpp/src/boofcv/image_misc_ops.h
+++ b/boofcpp/src/boofcv/image_misc_ops.h
@@ -60,10 +60,12 @@ namespace boofcv {
 
         template<class E>
         static void fill( Interleaved<E>& image , E value ) {
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()*image.num_bands];
-            while( ptr != end ) {
-                *ptr++ = value;
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width*image.num_bands];
+                while( ptr != end ) {
+                    *ptr++ = value;
+                }
             }
         }
 
-- 
2.43.0


From 657d0079ffa44a107cdadcdf8a2ef6e8c07b64bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 06/23] fix: ImageMiscOps::fill_uniform of a sub-image only
 writes its pixels

---
 boofcpp/src/boofcv/image_misc_ops.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/boofcpp/src/boofcv/image_misc_ops.h b/boofcpp/src/boofcv/image_misc_ops.h
index 1194786..e2cdf23 100644
--- a/boofcpp/src/boofcv/image_misc_ops.h
+++ b/boofcpp/src/boofcv/image_misc_ops.h
@@ -82,10 +82,12 @@ namespace boofcv {
 
             std::uniform_int_distribution<E> dis(min_value, max_value-1);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
 
@@ -93,10 +95,12 @@ namespace boofcv {
         static void fill_uniform( Gray<E>& image , E min_value , E max_value , RNG& rng, typename std::enable_if<std::is_floating_point<E>::value >::type* = 0) {
             std::uniform_real_distribution<E> dis(min_value, max_value);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
     };
-- 
2.43.0


From 7287ab89993f1a89b2bd1f5a16ae276e8c2cf84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 07/23] fix: ImageBase::getHeight returns the height

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index ddf14b8..1ca6cd3 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -44,7 +44,7 @@ namespace boofcv {
         }
 
         uint32_t getHeight() const {
-            return width;
+            return height;
         }
 
         /**
-- 
2.43.0


From 684f12d5e176b9b0924511c377ce87ae193c6d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 08/23] fix: GrowArray::fill of elements that are wider than a
 byte

---
 boofcpp/src/boofcv/base_types.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 76c5965..c75538f 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -152,7 +152,8 @@ namespace boofcv {
         }
 
         void fill( T value ) {
-            std::memset(this->data,value,this->size*sizeof(T));
+            for( uint32_t i = 0; i < this->size; i++ )
+                this->data[i] = value;
         }
 
         T& at( uint32_t index ) const {
-- 
2.43.0


From 069c3e60f87f24f6977c1d326944da9257ec2f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 09/23] fix: GrowArray::grow_array initialises every element

---
 boofcpp/src/boofcv/base_types.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index c75538f..1b78032 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -127,7 +127,8 @@ namespace boofcv {
                 delete []this->data;
                 this->data = new T[new_size];
                 this->array_length = new_size;
-                memset(data,default_value,new_size);
+for( uint32_t i = 0; i < new_size; i++ )
+                    this->data[i] = default_value;
             }
             this->size = 0;
         }
-- 
2.43.0


From f1fbdaf0843afdf97695ca5c4afa0d87a9486bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 10/23] fix: GrowArray::resize sets every newly exposed element
 to the default value

---
 boofcpp/src/boofcv/base_types.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 1b78032..858c55e 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -144,11 +144,13 @@ for( uint32_t i = 0; i < new_size; i++ )
             if( new_size > array_length ) {
                 auto *tmp = new T[new_size];
                 memmove(tmp,this->data,sizeof(T)*this->size);
-                memset(&tmp[this->size],default_value,sizeof(T)*(new_size-this->size));
                 delete []this->data;
                 this->data = tmp;
                 this->array_length = new_size;
             }
+            // elements which were not used before, even if there was already storage for them
+            for( uint32_t i = this->size; i < new_size; i++ )
+                this->data[i] = default_value;
             this->size = new_size;
         }
 
-- 
2.43.0


From 6d00290f015fcd9c70b29ed6e0a99a77c51372a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 11/23] fix: copies of a GrowArray do not share (and free
 twice) its storage

---
 boofcpp/src/boofcv/base_types.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 858c55e..0ead5f6 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -108,6 +108,10 @@ namespace boofcv {
             }
         }
 
+        GrowArray( const GrowArray<T>& other ) : GrowArray(other.size) {
+            *this = other;
+        }
+
         ~GrowArray() {
             if( !can_resize )
                 return;
-- 
2.43.0


From c439cf3531bc851fca07f609301935d9eed44ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 12/23] fix: copy construction of a Gray image does not share
 (and free twice) its storage

---
 boofcpp/src/boofcv/image_types.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 1ca6cd3..12e5827 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -135,6 +135,27 @@ namespace boofcv {
         Gray() : Gray(0,0) {
         }
 
+        /**
+         * A copy of a sub-image is a view of the same pixels. Otherwise it's an independent image
+         */
+        Gray( const Gray<T>& other ) {
+            this->width = other.width;
+            this->height = other.height;
+            this->subimage = other.subimage;
+            if( other.subimage ) {
+                this->data = other.data;
+                this->data_length = other.data_length;
+                this->offset = other.offset;
+                this->stride = other.stride;
+            } else {
+                this->data = new T[other.width*other.height]();
+                this->data_length = other.width*other.height;
+                this->offset = 0;
+                this->stride = other.width;
+                this->copy(other);
+            }
+        }
+
         ~Gray() {
             if( !this->subimage ) {
                 delete[]this->data;
-- 
2.43.0


From f8e9f0fa39ff29fd37587094fff3a2f2f384ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 13/23] fix: copies of an Interleaved image do not share (and
 free twice) its storage

---
 boofcpp/src/boofcv/image_types.h | 41 ++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 12e5827..e4b91f3 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -384,6 +384,28 @@ namespace boofcv {
         Interleaved() : Interleaved(0,0,0) {
         }
 
+        /**
+         * A copy of a sub-image is a view of the same pixels. Otherwise it's an independent image
+         */
+        Interleaved( const Interleaved<T>& other ) {
+            this->width = other.width;
+            this->height = other.height;
+            this->num_bands = other.num_bands;
+            this->subimage = other.subimage;
+            if( other.subimage ) {
+                this->data = other.data;
+                this->data_length = other.data_length;
+                this->offset = other.offset;
+                this->stride = other.stride;
+            } else {
+                this->data_length = other.width*other.height*other.num_bands;
+                this->data = new T[this->data_length]();
+                this->offset = 0;
+                this->stride = other.width*other.num_bands;
+                this->setTo(other);
+            }
+        }
+
         ~Interleaved() {
             if( !this->subimage ) {
                 this->width = 0;
@@ -494,6 +516,25 @@ namespace boofcv {
         uint32_t index_of( uint32_t x , uint32_t y , uint32_t band) const {
             return this->offset + y*this->stride + x*this->num_bands + band;
         }
+
+        Interleaved<T>& operator=(const Interleaved<T>& other) // copy assignment
+        {
+            if (this != &other) { // self-assignment check expected
+                if( other.subimage ) {
+                    this->data = other.data;
+                    this->data_length = other.data_length;
+                    this->width = other.width;
+                    this->height = other.height;
+                    this->num_bands = other.num_bands;
+                    this->offset = other.offset;
+                    this->stride = other.stride;
+                    this->subimage = true;
+                } else {
+                    this->setTo(other);
+                }
+            }
+            return *this;
+        }
     };
 }
 
-- 
2.43.0


From 8495a0fb6527fa5fab0dc411e280fdb18bc71040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 14/23] fix: Interleaved::setTo copies all bytes of every pixel

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index e4b91f3..7eb29cc 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -499,7 +499,7 @@ namespace boofcv {
             }
             // This will handle the situation where all of some of the images are sub-images
             for( uint32_t y = 0; y < this->height; y++ ) {
-                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,src.width*this->num_bands);
+                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,sizeof(T)*src.width*this->num_bands);
             }
         }
 
-- 
2.43.0


From 26eb145d092e1efdb926d48c31a6a8cbacdabc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 15/23] fix: Interleaved::at refuses a band which is out of
 range

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 7eb29cc..f5d1afe 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -461,7 +461,7 @@ namespace boofcv {
         }
 
         T& at( uint32_t x , uint32_t y , uint32_t band ) const {
-            if( x >= this->width || y >= this->height )
+            if( x >= this->width || y >= this->height || band >= this->num_bands )
                 throw invalid_argument("out of range");
             return data[this->offset + y*this->stride + x*this->num_bands + band];
         }
-- 
2.43.0


From 1ccd19078f5a8aef587b85cb1503789eb71a88f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 16/23] fix: Planar releases each of its bands

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index f5d1afe..86c81cb 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -270,7 +270,7 @@ namespace boofcv {
             this->offset = 0;
             this->stride = 0;
             for( uint32_t i = 0; i < num_bands; i++ ) {
-                delete bands;
+                delete bands[i];
             }
             delete []bands;
             bands = NULL;
-- 
2.43.0


From c89dae84da09dd0bb53f396a547c61e6e942ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 17/23] fix: Planar::setNumberOfBands did not compile

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 86c81cb..0a3d9de 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -289,7 +289,7 @@ namespace boofcv {
         }
 
         void setNumberOfBands( uint32_t desired ) {
-            T* new_bands;
+            T** new_bands;
             if( desired > this->num_bands ) {
                 new_bands = new T*[desired];
                 for( uint32_t i = 0; i < this->num_bands; i++ ) {
-- 
2.43.0


From a63b270e4dc86816f1589071b6307dd6baa3d6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 18/23] fix: Planar::at did not compile

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 0a3d9de..53df74d 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -314,7 +314,7 @@ namespace boofcv {
             this->num_bands = desired;
         }
 
-        T& at( uint32_t x , uint32_t y , uint32_t band ) const {
+        typename T::pixel_type& at( uint32_t x , uint32_t y , uint32_t band ) const {
             if( band >= this->num_bands )
                 throw invalid_argument("Band out of range");
 
-- 
2.43.0


From c39144b54b079514321eae74ea58aab4189aed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 19/23] fix: Planar::setTo did not compile

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 53df74d..52137c5 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -329,7 +329,7 @@ namespace boofcv {
             }
             setNumberOfBands(src.num_bands);
             for( uint32_t i = 0; i < this->num_bands; i++ ) {
-                this->bands[i]->setTo(src.bands[i]);
+                this->bands[i]->copy(*src.bands[i]);
             }
         }
 
-- 
2.43.0


From 1ebb95187f24daf64fd1ae104f6b09c18b43a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 20/23] fix: copies of a Planar image do not share (and free
 twice) its bands

---
 boofcpp/src/boofcv/image_types.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 52137c5..b50deb1 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -264,6 +264,10 @@ namespace boofcv {
         Planar() : Planar(0,0,0) {
         }
 
+        Planar( const Planar<T>& other ) : Planar(other.width,other.height,other.num_bands) {
+            setTo(other);
+        }
+
         ~Planar() {
             this->width = 0;
             this->height = 0;
@@ -338,6 +342,14 @@ namespace boofcv {
                 throw invalid_argument("Requested an out of bounds band");
             return *(this->bands[which]);
         }
+
+        Planar<T>& operator=(const Planar<T>& other) // copy assignment
+        {
+            if (this != &other) {
+                setTo(other);
+            }
+            return *this;
+        }
     };
 
     /**
-- 
2.43.0


From 8276982e19e8a2b0a2795c517c174cf1558de885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 21/23] fix: erode4 and dilate4 read out of bounds for images
 without an interior

---
 boofcpp/src/boofcv/binary_ops.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/boofcpp/src/boofcv/binary_ops.cpp b/boofcpp/src/boofcv/binary_ops.cpp
index 87929f8..36dc1b1 100644
--- a/boofcpp/src/boofcv/binary_ops.cpp
+++ b/boofcpp/src/boofcv/binary_ops.cpp
@@ -42,6 +42,10 @@ void boofcv::BinaryImageOps::logicOr(const Gray<U8>& inputA , const Gray<U8>& in
 void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
 
+    // images this small have no interior
+    if (input.width < 3 || input.height < 3)
+        return;
+
     const int h = input.height - 1;
     const int w = input.width - 2;
 
@@ -64,6 +68,10 @@ void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
 void boofcv::BinaryImageOps::dilate4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
 
+    // images this small have no interior
+    if (input.width < 3 || input.height < 3)
+        return;
+
     const int h = input.height - 1;
     const int w = input.width - 2;
 
-- 
2.43.0


From 843c383619e9e3d1adf69cdf48ef0316cc71f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:57 +0000
Subject: [PATCH 22/23] fix: ImageBorderReflect stays inside of the image for
 every coordinate and for images one pixel wide

---
 boofcpp/src/boofcv/image_border.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/image_border.h b/boofcpp/src/boofcv/image_border.h
index ffc2a20..934024a 100644
--- a/boofcpp/src/boofcv/image_border.h
+++ b/boofcpp/src/boofcv/image_border.h
@@ -98,10 +98,14 @@ namespace boofcv {
     class ImageBorderReflect : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
-            if( x < 0 )
-                x = -x;
-            else if( x >= max_value)
-                x = max_value-2-(x-max_value);
+            // the pattern repeats every 2*(max_value-1) pixels
+            const int64_t period = max_value > 1 ? 2*((int64_t)max_value-1) : 1;
+            int64_t r = x % period;
+            if( r < 0 )
+                r += period;
+            if( r >= max_value )
+                r = period-r;
+            x = (int32_t)r;
         }
     };
 
-- 
2.43.0


From b9761df6b58adf2aaadd7dbeb06b16ff4d390490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:57 +0000
Subject: [PATCH 23/23] fix: ImageBorderWrap stays inside of the image for
 every coordinate

---
 boofcpp/src/boofcv/image_border.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/image_border.h b/boofcpp/src/boofcv/image_border.h
index 934024a..f1d81b0 100644
--- a/boofcpp/src/boofcv/image_border.h
+++ b/boofcpp/src/boofcv/image_border.h
@@ -116,10 +116,10 @@ namespace boofcv {
     class ImageBorderWrap : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
-            if( x < 0 )
-                x = max_value+x;
-            else if( x >= max_value)
-                x = x-max_value;
+            int64_t r = x % (int64_t)max_value;
+            if( r < 0 )
+                r += max_value;
+            x = (int32_t)r;
         }
     };
 
-- 
2.43.0

