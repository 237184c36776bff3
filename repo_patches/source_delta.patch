From ac4dcda9081700a63a87f3ab088457f6753e5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 01/47] fix: ImageBase::getHeight() returned the width

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index ddf14b8..1ca6cd3 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -44,7 +44,7 @@ namespace boofcv {
         }
 
         uint32_t getHeight() const {
-            return width;
+            return height;
         }
 
         /**
-- 
2.43.0


From 1ec7285b7ec02a1f13dc0fcf386fb7930362f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 02/47] fix: Planar released the wrong memory and its band
 functions did not compile

---
 boofcpp/src/boofcv/image_types.h | 51 ++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 1ca6cd3..6350b14 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -234,12 +234,23 @@ namespace boofcv {
             this->subimage = false;
 
             this->num_bands = num_bands;
-            bands = new T*[this->num_bands];
-            for( uint32_t i = 0; i < this->num_bands; i++ ) {
-                bands[i] = new T(width,height);
+            bands = new T*[this->num_bands]();
+            try {
+                for( uint32_t i = 0; i < this->num_bands; i++ ) {
+                    bands[i] = new T(width,height);
+                }
+            } catch( ... ) {
+                for( uint32_t i = 0; i < this->num_bands; i++ ) {
+                    delete bands[i];
+                }
+                delete []bands;
+                throw;
             }
         }
 
+        Planar( const Planar<T>& ) = delete;
+        Planar<T>& operator=( const Planar<T>& ) = delete;
+
         Planar() : Planar(0,0,0) {
         }
 
@@ -249,7 +260,7 @@ namespace boofcv {
             this->offset = 0;
             this->stride = 0;
             for( uint32_t i = 0; i < num_bands; i++ ) {
-                delete bands;
+                delete bands[i];
             }
             delete []bands;
             bands = NULL;
@@ -259,8 +270,16 @@ namespace boofcv {
             if( this->subimage ) {
                 throw invalid_argument("Can't reshape a subimage");
             }
-            for( uint32_t i = 0; i < num_bands; i++ ) {
-                bands[i]->reshape(width,height);
+            try {
+                for( uint32_t i = 0; i < num_bands; i++ ) {
+                    bands[i]->reshape(width,height);
+                }
+            } catch( ... ) {
+                // all bands must have the same shape. going back never needs more memory
+                for( uint32_t i = 0; i < num_bands; i++ ) {
+                    bands[i]->reshape(this->width,this->height);
+                }
+                throw;
             }
             this->width = width;
             this->height = height;
@@ -268,14 +287,22 @@ namespace boofcv {
         }
 
         void setNumberOfBands( uint32_t desired ) {
-            T* new_bands;
+            T** new_bands;
             if( desired > this->num_bands ) {
-                new_bands = new T*[desired];
+                new_bands = new T*[desired]();
                 for( uint32_t i = 0; i < this->num_bands; i++ ) {
                     new_bands[i] = this->bands[i];
                 }
-                for( uint32_t i = num_bands; i < desired; i++ ) {
-                    new_bands[i] = new T(this->width,this->height);
+                try {
+                    for( uint32_t i = num_bands; i < desired; i++ ) {
+                        new_bands[i] = new T(this->width,this->height);
+                    }
+                } catch( ... ) {
+                    for( uint32_t i = num_bands; i < desired; i++ ) {
+                        delete new_bands[i];
+                    }
+                    delete []new_bands;
+                    throw;
                 }
             } else if( desired < this->num_bands ) {
                 new_bands = new T*[desired];
@@ -293,7 +320,7 @@ namespace boofcv {
             this->num_bands = desired;
         }
 
-        T& at( uint32_t x , uint32_t y , uint32_t band ) const {
+        typename T::pixel_type& at( uint32_t x , uint32_t y , uint32_t band ) const {
             if( band >= this->num_bands )
                 throw invalid_argument("Band out of range");
 
@@ -308,7 +335,7 @@ namespace boofcv {
             }
             setNumberOfBands(src.num_bands);
             for( uint32_t i = 0; i < this->num_bands; i++ ) {
-                this->bands[i]->setTo(src.bands[i]);
+                this->bands[i]->copy(*src.bands[i]);
             }
         }
 
-- 
2.43.0


From b0435112b6e14abc8182ac3fe2fe6e33cb2d2397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 03/47] fix: reshaping an image without enough memory left a
 dangling pixel pointer

---
 boofcpp/src/boofcv/image_types.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 6350b14..9855ece 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -156,8 +156,9 @@ namespace boofcv {
 
             uint32_t desired_length = width*height;
             if( desired_length > this->data_length ) {
+                T* grown = new T[desired_length]();
                 delete []this->data;
-                this->data = new T[desired_length]();
+                this->data = grown;
                 this->data_length = desired_length;
             }
             this->width = width;
@@ -415,8 +416,9 @@ namespace boofcv {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
                 }
+                T* grown = new T[new_length]();
                 delete []data;
-                data = new T[new_length]();
+                data = grown;
                 this->data_length = new_length;
             }
 
@@ -435,8 +437,9 @@ namespace boofcv {
 
             uint32_t desired_length = width*height*this->num_bands;
             if( desired_length > this->data_length ) {
+                T* grown = new T[desired_length]();
                 delete []data;
-                this->data = new T[desired_length]();
+                this->data = grown;
                 this->data_length = desired_length;
             }
             this->width = width;
@@ -466,8 +469,9 @@ namespace boofcv {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
                 }
+                T* grown = new T[new_length]();
                 delete []data;
-                data = new T[new_length]();
+                data = grown;
                 this->data_length = new_length;
             }
             this->num_bands = desired;
-- 
2.43.0


From e400d8b5240e872cca0c0cd9064324727141aa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 04/47] fix: an image shape that overflows 32 bits was accepted
 with too little memory

---
 boofcpp/src/boofcv/image_types.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 9855ece..42cbb77 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -54,6 +54,16 @@ namespace boofcv {
          */
         virtual void reshape( uint32_t width , uint32_t height ) = 0;
 
+        /**
+         * Number of elements needed to store the image. Throws an exception if it can't be represented.
+         */
+        static uint32_t required_length( uint32_t width , uint32_t height , uint32_t num_bands = 1 ) {
+            uint64_t pixels = (uint64_t)width*height;
+            if( pixels > UINT32_MAX || pixels*num_bands > UINT32_MAX || (uint64_t)width*num_bands > UINT32_MAX )
+                throw invalid_argument("Image is too large");
+            return (uint32_t)(pixels*num_bands);
+        }
+
         /**
          * Tests to see if the coordinate is within the image.
          */
@@ -87,8 +97,8 @@ namespace boofcv {
         Gray( uint32_t width , uint32_t height ) {
             this->width = width;
             this->height = height;
-            this->data = new T[width*height]();
-            this->data_length = width*height;
+            this->data_length = this->required_length(width,height);
+            this->data = new T[this->data_length]();
             this->offset = 0;
             this->stride = width;
             this->subimage = false;
@@ -154,7 +164,7 @@ namespace boofcv {
                 throw invalid_argument("Can't reshape a subimage");
             }
 
-            uint32_t desired_length = width*height;
+            uint32_t desired_length = this->required_length(width,height);
             if( desired_length > this->data_length ) {
                 T* grown = new T[desired_length]();
                 delete []this->data;
@@ -367,7 +377,7 @@ namespace boofcv {
             this->width = width;
             this->height = height;
             this->num_bands = num_bands;
-            this->data_length = width*height*num_bands;
+            this->data_length = this->required_length(width,height,num_bands);
             this->data = new T[this->data_length]();
             this->offset = 0;
             this->stride = width*num_bands;
@@ -411,7 +421,7 @@ namespace boofcv {
                 throw invalid_argument("Can't reshape a subimage");
             }
 
-            uint32_t new_length = width*height*bands;
+            uint32_t new_length = this->required_length(width,height,bands);
             if( new_length > data_length ) {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
@@ -435,7 +445,7 @@ namespace boofcv {
                 throw invalid_argument("Can't reshape a subimage");
             }
 
-            uint32_t desired_length = width*height*this->num_bands;
+            uint32_t desired_length = this->required_length(width,height,this->num_bands);
             if( desired_length > this->data_length ) {
                 T* grown = new T[desired_length]();
                 delete []data;
@@ -464,7 +474,7 @@ namespace boofcv {
                 throw invalid_argument("Can't reshape a subimage");
             }
 
-            uint32_t new_length = this->width*this->height*desired;
+            uint32_t new_length = this->required_length(this->width,this->height,desired);
             if( new_length > data_length ) {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
-- 
2.43.0


From ecf879eae47ee5358051e9ccfed70f1375b99026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 05/47] fix: copying an image released its pixels twice and
 assigning a sub-image lost them

---
 boofcpp/src/boofcv/image_types.h | 39 ++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 42cbb77..7c86a4c 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -145,6 +145,14 @@ namespace boofcv {
         Gray() : Gray(0,0) {
         }
 
+        /**
+         * A copy of an image has its own pixels. A copy of a sub-image is a sub-image of the same pixels.
+         */
+        Gray( const Gray<T>& src ) : Gray(nullptr,0,0,0,0,0) {
+            this->subimage = src.subimage;
+            *this = src;
+        }
+
         ~Gray() {
             if( !this->subimage ) {
                 delete[]this->data;
@@ -212,6 +220,8 @@ namespace boofcv {
         {
             if (this != &other) { // self-assignment check expected
                 if( other.subimage ) {
+                    if( !this->subimage && this->data != other.data )
+                        delete []this->data;
                     this->data = other.data;
                     this->data_length = other.data_length;
                     this->width = other.width;
@@ -401,6 +411,35 @@ namespace boofcv {
         Interleaved() : Interleaved(0,0,0) {
         }
 
+        /**
+         * A copy of an image has its own pixels. A copy of a sub-image is a sub-image of the same pixels.
+         */
+        Interleaved( const Interleaved<T>& src ) : Interleaved(nullptr,0,0,0,0,0,0) {
+            this->subimage = src.subimage;
+            *this = src;
+        }
+
+        Interleaved<T>& operator=(const Interleaved<T>& other) // copy assignment
+        {
+            if (this != &other) { // self-assignment check expected
+                if( other.subimage ) {
+                    if( !this->subimage && this->data != other.data )
+                        delete []this->data;
+                    this->data = other.data;
+                    this->data_length = other.data_length;
+                    this->width = other.width;
+                    this->height = other.height;
+                    this->num_bands = other.num_bands;
+                    this->offset = other.offset;
+                    this->stride = other.stride;
+                    this->subimage = true;
+                } else {
+                    this->setTo(other);
+                }
+            }
+            return *this;
+        }
+
         ~Interleaved() {
             if( !this->subimage ) {
                 this->width = 0;
-- 
2.43.0


From f14545f09cbf9fbaed8e812180382dd91db73b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 06/47] fix: Interleaved copied only part of the pixels of
 multi-byte types and did not check the band

---
 boofcpp/src/boofcv/image_types.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 7c86a4c..4b35464 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -497,7 +497,7 @@ namespace boofcv {
         }
 
         T& at( uint32_t x , uint32_t y , uint32_t band ) const {
-            if( x >= this->width || y >= this->height )
+            if( x >= this->width || y >= this->height || band >= this->num_bands )
                 throw invalid_argument("out of range");
             return data[this->offset + y*this->stride + x*this->num_bands + band];
         }
@@ -531,12 +531,11 @@ namespace boofcv {
             if (this->subimage && (this->width != src.width || this->height != src.height || this->num_bands != src.num_bands) ) {
                 throw invalid_argument("Shapes must match for sub images");
             } else {
-                setNumberOfBands(src.num_bands);
-                reshape(src.width, src.height);
+                reshape(src.width, src.height, src.num_bands);
             }
             // This will handle the situation where all of some of the images are sub-images
             for( uint32_t y = 0; y < this->height; y++ ) {
-                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,src.width*this->num_bands);
+                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,sizeof(T)*src.width*this->num_bands);
             }
         }
 
-- 
2.43.0


From cd88a3f35d59314169f639ac094d419380c6bf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 07/47] fix: Gray lost its pixels when the initializer rows had
 different lengths

---
 boofcpp/src/boofcv/image_types.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 4b35464..c5a00b5 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -134,6 +134,7 @@ namespace boofcv {
             T* ptr = this->data;
             for (auto& x : l ) {
                 if( x.size() != this->width ) {
+                    delete []this->data;
                     throw invalid_argument("width missmatch");
                 }
                 for(auto& y : x ) {
-- 
2.43.0


From 276d4f8e6d8a4065246375b52307c8731b3db522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 08/47] fix: filling an interleaved sub-image or randomly
 filling a sub-image wrote outside of it

---
 boofcpp/src/boofcv/image_misc_ops.h | 30 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/boofcpp/src/boofcv/image_misc_ops.h b/boofcpp/src/boofcv/image_misc_ops.h
index 5927518..e2cdf23 100644
--- a/boofcpp/src/boofcv/image_misc_ops.h
+++ b/boofcpp/src/boofcv/image_misc_ops.h
@@ -60,10 +60,12 @@ namespace boofcv {
 
         template<class E>
         static void fill( Interleaved<E>& image , E value ) {
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()*image.num_bands];
-            while( ptr != end ) {
-                *ptr++ = value;
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width*image.num_bands];
+                while( ptr != end ) {
+                    *ptr++ = value;
+                }
             }
         }
 
@@ -80,10 +82,12 @@ namespace boofcv {
 
             std::uniform_int_distribution<E> dis(min_value, max_value-1);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
 
@@ -91,10 +95,12 @@ namespace boofcv {
         static void fill_uniform( Gray<E>& image , E min_value , E max_value , RNG& rng, typename std::enable_if<std::is_floating_point<E>::value >::type* = 0) {
             std::uniform_real_distribution<E> dis(min_value, max_value);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
     };
-- 
2.43.0


From fdd167a78418c9d8a84c6c28505505f2c7f6c058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 09/47] fix: image statistics ignored sub-images, negative
 floats and negative means

---
 boofcpp/src/boofcv/image_statistics.h | 32 +++++++++++++++------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 81f08ba..79de975 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -12,12 +12,14 @@ namespace boofcv {
         static T min( const Gray<T>& input) {
             T min_value = std::numeric_limits<T>::max();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v < min_value ) {
-                    min_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                const T* ptr = &input.data[input.offset + y*input.stride];
+                const T* end = &ptr[input.width];
+                while( ptr != end ) {
+                    const T& v = *ptr++;
+                    if( v < min_value ) {
+                        min_value = v;
+                    }
                 }
             }
 
@@ -26,14 +28,16 @@ namespace boofcv {
 
         template<class T>
         static T max( const Gray<T>& input) {
-            T max_value = std::numeric_limits<T>::min();
+            T max_value = std::numeric_limits<T>::lowest();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v > max_value ) {
-                    max_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                const T* ptr = &input.data[input.offset + y*input.stride];
+                const T* end = &ptr[input.width];
+                while( ptr != end ) {
+                    const T& v = *ptr++;
+                    if( v > max_value ) {
+                        max_value = v;
+                    }
                 }
             }
 
@@ -56,7 +60,7 @@ namespace boofcv {
         template<class T>
         static T mean( const Gray<T>& input) {
             typename TypeInfo<T>::sum_type a = sum(input);
-            return static_cast<T>(a / (input.width * input.height));
+            return static_cast<T>(a / static_cast<typename TypeInfo<T>::sum_type>(input.width * input.height));
         }
 
         template<class T>
-- 
2.43.0


From eebe0372b1883e76fd647585b225c783ad8d1783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 10/47] fix: growing an array without enough memory left a
 dangling pointer

---
 boofcpp/src/boofcv/base_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 76c5965..c650729 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -124,10 +124,10 @@ namespace boofcv {
             if( !can_resize )
                 throw std::invalid_argument("Can't resize array");
             if( new_size > array_length ) {
+                T* grown = new T[new_size];
                 delete []this->data;
-                this->data = new T[new_size];
+                this->data = grown;
                 this->array_length = new_size;
-                memset(data,default_value,new_size);
             }
             this->size = 0;
         }
-- 
2.43.0


From 0c6245bc996cb04f431ac1ada30ac4d392680b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 11/47] fix: GrowArray filled and extended arrays bytewise and
 with stale elements

---
 boofcpp/src/boofcv/base_types.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index c650729..b870062 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -143,16 +143,20 @@ namespace boofcv {
             if( new_size > array_length ) {
                 auto *tmp = new T[new_size];
                 memmove(tmp,this->data,sizeof(T)*this->size);
-                memset(&tmp[this->size],default_value,sizeof(T)*(new_size-this->size));
                 delete []this->data;
                 this->data = tmp;
                 this->array_length = new_size;
             }
+            for( uint32_t i = this->size; i < new_size; i++ ) {
+                this->data[i] = default_value;
+            }
             this->size = new_size;
         }
 
         void fill( T value ) {
-            std::memset(this->data,value,this->size*sizeof(T));
+            for( uint32_t i = 0; i < this->size; i++ ) {
+                this->data[i] = value;
+            }
         }
 
         T& at( uint32_t index ) const {
-- 
2.43.0


From d26848db2b69bb5ddfc401e9f0356bee95016330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 12/47] fix: copying a GrowArray released its data twice

---
 boofcpp/src/boofcv/base_types.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index b870062..cd3b382 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -108,6 +108,10 @@ namespace boofcv {
             }
         }
 
+        GrowArray( const GrowArray<T>& other ) : GrowArray(other.size) {
+            *this = other;
+        }
+
         ~GrowArray() {
             if( !can_resize )
                 return;
-- 
2.43.0


From a08cff8cd4eaf3567b4fdec57d9cfa4cb09a32df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:07 +0000
Subject: [PATCH 13/47] fix: a kernel whose storage could not be allocated
 reported the new width

---
 boofcpp/src/boofcv/convolve_kernels.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 122045c..0d6ee04 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -124,9 +124,9 @@ namespace boofcv {
         }
 
         void reshape( uint32_t width , uint32_t offset ) override {
+            this->data.resize(width);
             this->width = width;
             this->offset = offset;
-            this->data.resize(width);
         }
 
         E& at( uint32_t index ) const {
@@ -144,9 +144,9 @@ namespace boofcv {
         Kernel1D<E>& operator=(const Kernel1D<E>& other) // copy assignment
         {
             if (this != &other) { // self-assignment check expected
+                this->data = other.data;
                 this->width = other.width;
                 this->offset = other.offset;
-                this->data = other.data;
             }
             return *this;
         }
@@ -159,7 +159,7 @@ namespace boofcv {
     class Kernel2D : public KernelBase<E> {
     public:
         Kernel2D( uint32_t width , uint32_t offset) : KernelBase<E>(width,offset) {
-            this->data.resize(width*width);
+            this->data.resize(ImageBase::required_length(width,width));
         }
 
         Kernel2D( uint32_t width ) : Kernel2D(width,width/2) {
@@ -186,9 +186,9 @@ namespace boofcv {
         }
 
         void reshape( uint32_t width , uint32_t offset ) override {
+            this->data.resize(ImageBase::required_length(width,width));
             this->width = width;
             this->offset = offset;
-            this->data.resize(width*width);
         }
 
         uint32_t dimension() const override  {
@@ -204,9 +204,9 @@ namespace boofcv {
         Kernel2D<E>& operator=(const Kernel2D<E>& other) // copy assignment
         {
             if (this != &other) { // self-assignment check expected
+                this->data = other.data;
                 this->width = other.width;
                 this->offset = other.offset;
-                this->data = other.data;
             }
             return *this;
         }
-- 
2.43.0


From 018d0a2f065c75e4c6858409796c77349f3bf437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:07 +0000
Subject: [PATCH 14/47] fix: PackedSet lost memory when a block could not be
 allocated and could be released twice

---
 boofcpp/src/boofcv/packed_sets.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/packed_sets.h b/boofcpp/src/boofcv/packed_sets.h
index 8832050..27f8124 100644
--- a/boofcpp/src/boofcv/packed_sets.h
+++ b/boofcpp/src/boofcv/packed_sets.h
@@ -51,12 +51,20 @@ namespace boofcv {
         PackedSet( uint32_t size_of_block ) :
                 _size_of_block(size_of_block) ,_number_of_blocks(1), _total_element(0)
         {
-            blocks = new T*[_number_of_blocks];
-            for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
-                blocks[i] = new T[_size_of_block];
+            blocks = new T*[_number_of_blocks]();
+            try {
+                for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
+                    blocks[i] = new T[_size_of_block];
+                }
+            } catch( ... ) {
+                delete []blocks;
+                throw;
             }
         }
 
+        PackedSet( const PackedSet<T>& ) = delete;
+        PackedSet<T>& operator=( const PackedSet<T>& ) = delete;
+
         PackedSet() : PackedSet(2000) {}
 
         ~PackedSet() {
@@ -122,7 +130,12 @@ namespace boofcv {
                 for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
                     tmp[i] = blocks[i];
                 }
-                tmp[_number_of_blocks] = new T[_size_of_block];
+                try {
+                    tmp[_number_of_blocks] = new T[_size_of_block];
+                } catch( ... ) {
+                    delete []tmp;
+                    throw;
+                }
                 delete []blocks;
                 this->blocks = tmp;
                 this->_number_of_blocks++;
-- 
2.43.0


From 6c78b21933cbcdd369f7b907d2008757e2173fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 15/47] fix: ContourTracer lost its lookup tables when a later
 allocation failed

---
 boofcpp/src/boofcv/contour.cpp | 15 ---------------
 boofcpp/src/boofcv/contour.h   |  8 +++-----
 2 files changed, 3 insertions(+), 20 deletions(-)

diff --git a/boofcpp/src/boofcv/contour.cpp b/boofcpp/src/boofcv/contour.cpp
index caa447d..37c9fec 100644
--- a/boofcpp/src/boofcv/contour.cpp
+++ b/boofcpp/src/boofcv/contour.cpp
@@ -16,31 +16,16 @@ ContourTracer::ContourTracer(ConnectRule rule) :
     if (ConnectRule::EIGHT == rule) {
         // start the next search +2 away from the square it came from
         // the square it came from is the opposite from the previous 'dir'
-        nextDirection = new uint32_t[8];
         for (uint32_t i = 0; i < 8; i++)
             nextDirection[i] = ((i + 4) % 8 + 2) % 8;
         ruleN = 8;
     } else if (ConnectRule::FOUR == rule) {
-        nextDirection = new uint32_t[4];
         for (uint32_t i = 0; i < 4; i++)
             nextDirection[i] = ((i + 2) % 4 + 1) % 4;
         ruleN = 4;
     } else {
         throw std::invalid_argument("Connectivity rule must be 4 or 8");
     }
-
-    offsetsBinary = new int32_t[ruleN];
-    offsetsLabeled = new int32_t[ruleN];
-}
-
-ContourTracer::~ContourTracer() {
-    delete[]offsetsBinary;
-    delete[]offsetsLabeled;
-    delete[]nextDirection;
-
-    offsetsBinary = nullptr;
-    offsetsLabeled = nullptr;
-    nextDirection = nullptr;
 }
 
 /**
diff --git a/boofcpp/src/boofcv/contour.h b/boofcpp/src/boofcv/contour.h
index ca57014..4629b9b 100644
--- a/boofcpp/src/boofcv/contour.h
+++ b/boofcpp/src/boofcv/contour.h
@@ -53,10 +53,10 @@ namespace boofcv {
         uint32_t indexLabel;
 
         // the pixel index offset to each neighbor
-        int32_t *offsetsBinary;
-        int32_t *offsetsLabeled;
+        int32_t offsetsBinary[8];
+        int32_t offsetsLabeled[8];
         // lookup table for which direction it should search next given the direction it traveled into the current pixel
-        uint32_t *nextDirection;
+        uint32_t nextDirection[8];
 
         /**
          * Specifies connectivity rule
@@ -65,8 +65,6 @@ namespace boofcv {
          */
         ContourTracer( ConnectRule rule );
 
-        ~ContourTracer();
-
         /**
          *
          * @param binary Binary image with a border of zeros added to the outside.
-- 
2.43.0


From 5e6eaa025586bd5937937447b63021bf302de570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 16/47] fix: a block size of zero pixels crashed the block
 thresholds

---
 boofcpp/src/boofcv/threshold_block_filters.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index d3d7655..8057135 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -70,6 +70,9 @@ namespace boofcv
             checkSameShape(input,output);
 
             auto requestedBlockWidth = (uint32_t)this->requestedBlockWidth.computeI( std::min(input.width,input.height));
+            if( requestedBlockWidth == 0 ) {
+                throw invalid_argument("Block size must be at least one pixel");
+            }
             if( input.width < requestedBlockWidth || input.height < requestedBlockWidth ) {
                 throw invalid_argument("Image is smaller than block size");
             }
-- 
2.43.0


From c3ba852d1fa3ea349e6f3a5270f5f07c8296e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 17/47] fix: the scaled mean of a bright block wrapped around

---
 boofcpp/src/boofcv/threshold_block_filters.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 8057135..7860236 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -272,7 +272,8 @@ namespace boofcv
             else {
                 sum = static_cast<sum_type>(scale*sum/(width*height));
             }
-            this->stats.data[indexStats] = static_cast<E>(sum);
+            // a scale larger than one can push the threshold past the largest pixel value
+            this->stats.data[indexStats] = static_cast<E>(std::min(sum,static_cast<sum_type>(std::numeric_limits<E>::max())));
         }
     };
 
-- 
2.43.0


From 84dc8846f78b757b81867a63af301ba3ca45adc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 18/47] fix: block min-max used the wrong maximum for negative
 floating point blocks

---
 boofcpp/src/boofcv/threshold_block_filters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 7860236..0495ff0 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -448,7 +448,7 @@ namespace boofcv
 
             // find the min and max pixel values inside this block region
             E min = std::numeric_limits<E>::max();
-            E max = std::numeric_limits<E>::min();
+            E max = std::numeric_limits<E>::lowest();
 
             for (uint32_t y = blockY0; y <= blockY1; y++) {
                 for (uint32_t x = blockX0; x <= blockX1; x++) {
-- 
2.43.0


From 585dc4a046e748230847d4b1bf1b628a048d0f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 19/47] fix: a negative minimum spread did not disable the
 texture test

---
 boofcpp/src/boofcv/threshold_block_filters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 0495ff0..4dd50bd 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -463,7 +463,7 @@ namespace boofcv
             }
 
             // apply threshold
-            auto textureThreshold = static_cast<sum_type>(this->minimumSpread);
+            float textureThreshold = this->minimumSpread;
             for (uint32_t y = y0; y < y1; y++) {
                 E* input_ptr = &input.data[input.offset + y*input.stride + x0];
                 U8* output_ptr = &output.data[output.offset + y*output.stride + x0];
-- 
2.43.0


From 207d55e26f1447e36905e4a6cffbb6ea99dca60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 20/47] fix: the Otsu texture penalty overflowed an int when
 the variance was small

---
 boofcpp/src/boofcv/binary_ops.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.cpp b/boofcpp/src/boofcv/binary_ops.cpp
index 87929f8..769f40a 100644
--- a/boofcpp/src/boofcv/binary_ops.cpp
+++ b/boofcpp/src/boofcv/binary_ops.cpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <cmath>
 
 #include "binary_ops.h"
 #include "sanity_checks.h"
@@ -104,9 +105,10 @@ void boofcv::ComputeOtsu::compute(const GrowArray<uint32_t>&histogram , uint32_t
     // apply optional penalty to low texture regions
     variance += 0.001; // avoid divide by zero
     // multiply by threshold twice in an effort to have the image's scaling not effect the tuning parameter
-    int adjustment =  (int)(tuning*threshold*tuning*threshold/variance+0.5);
+    // the adjustment has no upper bound and must not be converted into an integer type
+    double adjustment = std::trunc(tuning*threshold*tuning*threshold/variance+0.5);
     threshold += down ? -adjustment : adjustment;
-    threshold = (int)(scale*std::max(threshold,0.0)+0.5);
+    threshold = std::trunc(scale*std::max(threshold,0.0)+0.5);
 }
 
 void boofcv::ComputeOtsu::computeOtsu(const GrowArray<uint32_t>& histogram , uint32_t totalPixels ) {
-- 
2.43.0


From 13ab3612c11e27966141d057e9fff9acd215b416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 21/47] fix: global Otsu ignored the minimum pixel value and
 accepted an empty range

---
 boofcpp/src/boofcv/binary_ops.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.h b/boofcpp/src/boofcv/binary_ops.h
index 5ecf40d..87a4c24 100644
--- a/boofcpp/src/boofcv/binary_ops.h
+++ b/boofcpp/src/boofcv/binary_ops.h
@@ -109,7 +109,9 @@ namespace boofcv
          * @return Selected threshold.
          */
         template<class T>
-        static uint32_t computeOtsu( const Gray<T>& input , T min_value , T max_value , bool otsu2=false ) {
+        static T computeOtsu( const Gray<T>& input , T min_value , T max_value , bool otsu2=false ) {
+            if( !(min_value <= max_value) )
+                throw invalid_argument("The minimum pixel value must not be larger than the maximum");
 
             auto range = static_cast<uint32_t>(1+max_value - min_value);
             GrowArray<uint32_t> histogram(range);
@@ -119,7 +121,8 @@ namespace boofcv
             // this should configure so that all the really fancy stuff has been turned off
             ComputeOtsu otsu(otsu2,0,true,1.0);
             otsu.compute(histogram, input.total_pixels());
-            return (uint32_t)otsu.threshold;
+            // the histogram starts at the minimum value
+            return static_cast<T>(otsu.threshold + min_value);
         }
 
         /**
-- 
2.43.0


From 55f8a1ead557340b1f8a546ae9b2d9ccb6fa47ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 22/47] fix: local mean threshold accepted an unspecified
 region width

---
 boofcpp/src/boofcv/binary_ops.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.h b/boofcpp/src/boofcv/binary_ops.h
index 87a4c24..0d1050f 100644
--- a/boofcpp/src/boofcv/binary_ops.h
+++ b/boofcpp/src/boofcv/binary_ops.h
@@ -180,12 +180,15 @@ namespace boofcv
                                const ConfigLength& width , float scale , bool down ,
                                Gray<T>& storage1 , Gray<T>&  storage2 ) {
 
+            int regionWidth = width.computeI(min(input.width,input.height));
+            if( regionWidth < 0 )
+                throw invalid_argument("The width of the local region isn't specified");
+            auto radius = static_cast<uint32_t>(regionWidth)/2;
+
             output.reshape(input.width, input.height);
             storage1.reshape(input.width, input.height);
             storage2.reshape(input.width, input.height);
 
-            uint32_t radius = (uint32_t)width.computeI(min(input.width,input.height))/2;
-
             Gray<T>& mean = storage1;
 
             BlurImageOps::mean(input,mean,radius,storage2);
-- 
2.43.0


From cb046fc7e89e3db7c552864b361e802e86935d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 23/47] fix: erosion and dilation left the image border
 undefined

---
 boofcpp/src/boofcv/binary_ops.cpp | 39 +++++++++++++++++++++++++++++++
 boofcpp/src/boofcv/binary_ops.h   |  4 ++--
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.cpp b/boofcpp/src/boofcv/binary_ops.cpp
index 769f40a..8d55672 100644
--- a/boofcpp/src/boofcv/binary_ops.cpp
+++ b/boofcpp/src/boofcv/binary_ops.cpp
@@ -40,9 +40,41 @@ void boofcv::BinaryImageOps::logicOr(const Gray<U8>& inputA , const Gray<U8>& in
     }
 }
 
+/**
+ * Number of pixels set to one in the 4-neighborhood, including the pixel. Pixels outside the image are zero.
+ */
+static int sum_neighborhood4(const Gray<U8>& input, uint32_t x, uint32_t y) {
+    int sum = input.unsafe_at(x,y);
+    if( x > 0 ) sum += input.unsafe_at(x-1,y);
+    if( x+1 < input.width ) sum += input.unsafe_at(x+1,y);
+    if( y > 0 ) sum += input.unsafe_at(x,y-1);
+    if( y+1 < input.height ) sum += input.unsafe_at(x,y+1);
+    return sum;
+}
+
+/**
+ * Invokes the function for every pixel along the image's border, which is one pixel wide
+ */
+template<class F>
+static void for_each_border_pixel( uint32_t width , uint32_t height , F func ) {
+    for (uint32_t y = 0; y < height; y++) {
+        uint32_t step = y == 0 || y+1 == height || width < 2 ? 1 : width-1;
+        for (uint32_t x = 0; x < width; x += step) {
+            func(x,y);
+        }
+    }
+}
+
 void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
 
+    for_each_border_pixel(input.width,input.height,[&](uint32_t x , uint32_t y) {
+        output.unsafe_at(x,y) = static_cast<U8>(sum_neighborhood4(input,x,y) == 5);
+    });
+
+    if( input.width < 3 || input.height < 3 )
+        return;
+
     const int h = input.height - 1;
     const int w = input.width - 2;
 
@@ -65,6 +97,13 @@ void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
 void boofcv::BinaryImageOps::dilate4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
 
+    for_each_border_pixel(input.width,input.height,[&](uint32_t x , uint32_t y) {
+        output.unsafe_at(x,y) = static_cast<U8>(sum_neighborhood4(input,x,y) > 0);
+    });
+
+    if( input.width < 3 || input.height < 3 )
+        return;
+
     const int h = input.height - 1;
     const int w = input.width - 2;
 
diff --git a/boofcpp/src/boofcv/binary_ops.h b/boofcpp/src/boofcv/binary_ops.h
index 0d1050f..510b70c 100644
--- a/boofcpp/src/boofcv/binary_ops.h
+++ b/boofcpp/src/boofcv/binary_ops.h
@@ -31,7 +31,7 @@ namespace boofcv
 
         /**
          * Erodes an image according to a 4-neighborhood.  Unless a pixel is connected to all its neighbors its value
-         * is set to zero.
+         * is set to zero.  Pixels outside the image are assumed to be zero.
          *
          * @param input  Input image. Not modified.
          * @param output The output image.
@@ -40,7 +40,7 @@ namespace boofcv
 
         /**
          * Dilates an image according to a 4-neighborhood.  If a pixel is connected to any other pixel then its output
-         * value will be one.
+         * value will be one.  Pixels outside the image are assumed to be zero.
          *
          * @param input  Input image. Not modified.
          * @param output The output image.
-- 
2.43.0


From 182a26beef32841ec30be308e602aed2bd4571cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 24/47] fix: vertical mean blur selected its border handling
 from the image width

---
 boofcpp/src/boofcv/image_blur.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index c16709c..3e53c57 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -194,7 +194,7 @@ namespace boofcv {
             typedef typename TypeInfo<E>::signed_type signed_type;
 
             Kernel1D<signed_type> kernel = FactoryKernel::mean1D<signed_type>(radius*2+1);
-            if( kernel.width > input.width ) {
+            if( kernel.width > input.height ) {
                 ConvolveNormalized::vertical(kernel,input,output);
             } else {
                 ConvolveNormalized_JustBorder::vertical(kernel, input ,output );
-- 
2.43.0


From 271005c46ad0301652f9fe75d430c8aaa3268017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 25/47] fix: vertical mean blur overflowed the stack for wide
 images

---
 boofcpp/src/boofcv/image_blur.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index 3e53c57..f493723 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -4,6 +4,8 @@
 #include "convolve.h"
 #include "sanity_checks.h"
 #include <math.h>
+#include <vector>
+#include <algorithm>
 
 namespace boofcv {
     /**
@@ -94,7 +96,8 @@ namespace boofcv {
 
             sum_type divisor = kernelWidth;
             sum_type halfDivisor = divisor/2;
-            sum_type totals[ input.width ];
+            // not on the stack, a row can be larger than it
+            std::vector<sum_type> totals( input.width );
 
             for( uint32_t x = 0; x < input.width; x++ ) {
                 uint32_t indexIn = input.offset + x;
@@ -137,7 +140,8 @@ namespace boofcv {
             uint32_t backStep = kernelWidth*input.stride;
 
             sum_type divisor = kernelWidth;
-            sum_type totals[ input.width ];
+            // not on the stack, a row can be larger than it
+            std::vector<sum_type> totals( input.width );
 
             for( uint32_t x = 0; x < input.width; x++ ) {
                 uint32_t indexIn = input.offset + x;
-- 
2.43.0


From d6bd80e0f7ff883af44ff8d7942b8f01dfbe07c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 26/47] fix: mean blur overflowed for a very large radius

---
 boofcpp/src/boofcv/image_blur.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index f493723..02d30a2 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -179,6 +179,9 @@ namespace boofcv {
         {
             checkSameShape(input,output);
 
+            // every pixel is already inside the region, a larger radius changes nothing
+            radius = std::min(radius,input.width);
+
             typedef typename TypeInfo<E>::signed_type signed_type;
 
             Kernel1D<signed_type> kernel = FactoryKernel::mean1D<signed_type>(radius*2+1);
@@ -195,6 +198,9 @@ namespace boofcv {
         {
             checkSameShape(input,output);
 
+            // every pixel is already inside the region, a larger radius changes nothing
+            radius = std::min(radius,input.height);
+
             typedef typename TypeInfo<E>::signed_type signed_type;
 
             Kernel1D<signed_type> kernel = FactoryKernel::mean1D<signed_type>(radius*2+1);
-- 
2.43.0


From d6ee69b726a73ee2b0e7c0d8965af159efd8d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 27/47] fix: vertical normalized convolution truncated the
 kernel to the pixel type

---
 boofcpp/src/boofcv/convolve.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve.h b/boofcpp/src/boofcv/convolve.h
index 0fb81e3..48deba5 100644
--- a/boofcpp/src/boofcv/convolve.h
+++ b/boofcpp/src/boofcv/convolve.h
@@ -307,7 +307,7 @@ namespace boofcv {
                     signed_type weight = 0;
 
                     for( int32_t i = startY; i < endY; i++ ) {
-                        E v = kernel.at(i-y+kernel.offset);
+                        signed_type v = kernel.at(i-y+kernel.offset);
                         total += input.unsafe_at(x,i)*v;
                         weight += v;
                     }
@@ -340,7 +340,7 @@ namespace boofcv {
                     signed_type weight = 0;
 
                     for( int32_t i = startY; i < endY; i++ ) {
-                        E v = kernel.at(i-y+kernel.offset);
+                        signed_type v = kernel.at(i-y+kernel.offset);
                         total += input.unsafe_at(x,i)*v;
                         weight += v;
                     }
-- 
2.43.0


From affd1f5dbfead74043bbb41579d9974321755567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 28/47] fix: reflected and wrapped borders read outside the
 image when the kernel is larger than it

---
 boofcpp/src/boofcv/image_border.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/boofcpp/src/boofcv/image_border.h b/boofcpp/src/boofcv/image_border.h
index ffc2a20..dbc3be9 100644
--- a/boofcpp/src/boofcv/image_border.h
+++ b/boofcpp/src/boofcv/image_border.h
@@ -98,10 +98,14 @@ namespace boofcv {
     class ImageBorderReflect : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
-            if( x < 0 )
-                x = -x;
-            else if( x >= max_value)
-                x = max_value-2-(x-max_value);
+            // the reflected image repeats itself
+            int64_t period = max_value > 1 ? 2*(int64_t)max_value-2 : 1;
+            int64_t v = x%period;
+            if( v < 0 )
+                v += period;
+            if( v >= max_value )
+                v = period-v;
+            x = static_cast<int32_t>(v);
         }
     };
 
@@ -112,10 +116,10 @@ namespace boofcv {
     class ImageBorderWrap : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
-            if( x < 0 )
-                x = max_value+x;
-            else if( x >= max_value)
-                x = x-max_value;
+            int64_t v = x%(int64_t)max_value;
+            if( v < 0 )
+                v += max_value;
+            x = static_cast<int32_t>(v);
         }
     };
 
-- 
2.43.0


From 401a3cabeacf2d8f6f77b296069fbcf3b7c2cef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 29/47] fix: convolving with an empty kernel or an origin
 outside the kernel wrote outside the image

---
 boofcpp/src/boofcv/convolve.h         | 7 +++++++
 boofcpp/src/boofcv/convolve_kernels.h | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/boofcpp/src/boofcv/convolve.h b/boofcpp/src/boofcv/convolve.h
index 48deba5..b62f286 100644
--- a/boofcpp/src/boofcv/convolve.h
+++ b/boofcpp/src/boofcv/convolve.h
@@ -1048,6 +1048,7 @@ namespace boofcv {
         static void horizontal( const Kernel1D<typename TypeInfo<E>::signed_type>& kernel ,
                                 const ImageBorder<E>& input, Gray<R>& output )
         {
+            kernel.check_origin();
             output.reshape(input.getWidth(),input.getHeight());
 
             if( kernel.width >= output.width ) {
@@ -1062,6 +1063,7 @@ namespace boofcv {
         static void vertical( const Kernel1D<typename TypeInfo<E>::signed_type>& kernel ,
                               const ImageBorder<E>& input, Gray<R>& output )
         {
+            kernel.check_origin();
             output.reshape(input.getWidth(),input.getHeight());
 
             if( kernel.width >= output.height ) {
@@ -1076,6 +1078,7 @@ namespace boofcv {
         static void convolve( const Kernel2D<typename TypeInfo<E>::signed_type>& kernel ,
                               const ImageBorder<E>& input, Gray<R>& output )
         {
+            kernel.check_origin();
             output.reshape(input.getWidth(),input.getHeight());
 
             if( kernel.width >= output.width || kernel.width >= output.height ) {
@@ -1098,6 +1101,7 @@ namespace boofcv {
                                 typename std::enable_if<std::is_integral<E>::value >::type* = 0)
         {
             boofcv::checkSameShape(input, output);
+            kernel.check_origin();
 
             if( kernel.width >= input.width ) {
                 ConvolveNormalizedNaive::horizontal(kernel, input, output);
@@ -1113,6 +1117,7 @@ namespace boofcv {
         {
             typedef typename TypeInfo<E>::signed_type signed_type;
             boofcv::checkSameShape(input, output);
+            kernel.check_origin();
 
             if( kernel.width >= input.width ) {
                 ConvolveNormalizedNaive::horizontal(kernel, input, output);
@@ -1132,6 +1137,7 @@ namespace boofcv {
                                 typename std::enable_if<std::is_integral<E>::value >::type* = 0)
         {
             boofcv::checkSameShape(input, output);
+            kernel.check_origin();
 
             if( kernel.width >= input.height ) {
                 ConvolveNormalizedNaive::vertical(kernel, input, output);
@@ -1147,6 +1153,7 @@ namespace boofcv {
         {
             typedef typename TypeInfo<E>::signed_type signed_type;
             boofcv::checkSameShape(input, output);
+            kernel.check_origin();
 
             if( kernel.width >= input.height ) {
                 ConvolveNormalizedNaive::vertical(kernel, input, output);
diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 0d6ee04..4dd7b6c 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -43,6 +43,14 @@ namespace boofcv {
 
         virtual void reshape( uint32_t width , uint32_t offset ) = 0;
 
+        /**
+         * Throws an exception if the kernel is empty or its origin isn't one of its elements
+         */
+        void check_origin() const {
+            if( offset >= width )
+                throw std::invalid_argument("The offset must be inside the kernel's bounds");
+        }
+
         uint32_t radius() const {
             return width/2;
         }
-- 
2.43.0


From 49cf786aa10be52e5c6da51b29a1c77a931b91bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 30/47] fix: the mean of an empty image and the average of zero
 bands divided by zero

---
 boofcpp/src/boofcv/image_convert.h    | 3 +++
 boofcpp/src/boofcv/image_statistics.h | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/boofcpp/src/boofcv/image_convert.h b/boofcpp/src/boofcv/image_convert.h
index 8e7439e..1edb717 100644
--- a/boofcpp/src/boofcv/image_convert.h
+++ b/boofcpp/src/boofcv/image_convert.h
@@ -18,6 +18,9 @@ namespace boofcv {
     {
         typedef typename TypeInfo<E>::sum_type sum_type;
 
+        if( input.num_bands == 0 )
+            throw invalid_argument("The average of an image without bands isn't defined");
+
         output.reshape(input.width,input.height);
 
         for( uint32_t y = 0; y < input.height; y++ ) {
diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 79de975..ce70a0e 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -59,6 +59,8 @@ namespace boofcv {
 
         template<class T>
         static T mean( const Gray<T>& input) {
+            if( input.width == 0 || input.height == 0 )
+                throw invalid_argument("The mean of an image without pixels isn't defined");
             typename TypeInfo<T>::sum_type a = sum(input);
             return static_cast<T>(a / static_cast<typename TypeInfo<T>::sum_type>(input.width * input.height));
         }
-- 
2.43.0


From 0634fb3eb6487fdc68c4bf530d575cd1cadb2f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 31/47] fix: the average of negative bands was divided as an
 unsigned number

---
 boofcpp/src/boofcv/image_convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_convert.h b/boofcpp/src/boofcv/image_convert.h
index 1edb717..8cbae8d 100644
--- a/boofcpp/src/boofcv/image_convert.h
+++ b/boofcpp/src/boofcv/image_convert.h
@@ -35,7 +35,7 @@ namespace boofcv {
                     sum += *input_ptr++;
                 }
 
-                *output_ptr++ = static_cast<E>(sum/input.num_bands);
+                *output_ptr++ = static_cast<E>(sum/static_cast<sum_type>(input.num_bands));
             }
         }
     }
-- 
2.43.0


From e0935991e69ecc5f3ce773252fb89743e504fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:10 +0000
Subject: [PATCH 32/47] fix: C++ exceptions left native methods and failed
 thresholds were swallowed

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp       | 23 +++++++++
 boofcpp-jni/src/main/cpp/JNIBoofCPP.h         |  6 +++
 boofcpp-jni/src/main/cpp/NativeBlockMean.cpp  | 17 ++++---
 .../src/main/cpp/NativeBlockMinMax.cpp        | 17 ++++---
 boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp  | 17 ++++---
 boofcpp-jni/src/main/cpp/NativeChang2004.cpp  | 48 ++++++++++++++-----
 .../src/main/cpp/NativeGlobalFixed.cpp        | 17 ++++---
 boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp | 17 ++++---
 .../src/main/cpp/NativeImageBlurOps.cpp       |  8 +++-
 .../src/main/cpp/NativeImageConvolve.cpp      | 12 +++--
 .../cpp/NativeImageConvolveNormalized.cpp     |  8 +++-
 boofcpp-jni/src/main/cpp/NativeLocalMean.cpp  | 17 ++++---
 12 files changed, 147 insertions(+), 60 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index b00988d..367264e 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -1,4 +1,5 @@
 #include "JNIBoofCPP.h"
+#include <new>
 #include <stdexcept>
 #include <packed_sets.h>
 
@@ -91,6 +92,28 @@ void WrapJGrowQueue_I32::resize( uint32_t desired ) {
     }
 }
 
+static void throw_java( JNIEnv *env, const char* name, const char* message ) {
+    if( env->ExceptionCheck() )
+        return;
+    jclass exceptionClass = env->FindClass(name);
+    if( exceptionClass != nullptr )
+        env->ThrowNew(exceptionClass,message);
+}
+
+void throw_to_java( JNIEnv *env ) {
+    try {
+        throw;
+    } catch( const std::bad_alloc& ) {
+        throw_java(env,"java/lang/OutOfMemoryError","Out of native memory");
+    } catch( const std::invalid_argument& e ) {
+        throw_java(env,"java/lang/IllegalArgumentException",e.what());
+    } catch( const std::exception& e ) {
+        throw_java(env,"java/lang/RuntimeException",e.what());
+    } catch( ... ) {
+        throw_java(env,"java/lang/RuntimeException","Unknown native exception");
+    }
+}
+
 void copy_into_java( JNIEnv *env,
                      const boofcv::PackedSet<boofcv::Point2D<boofcv::S32>>& src ,
                      jobject dst )
diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
index c9a72a8..ef4e4cb 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
@@ -78,6 +78,12 @@ struct ImageAndInfo {
     Info info;
 };
 
+/**
+ * Turns the C++ exception which is being handled into a Java exception. If there already is a pending Java exception
+ * then that one is kept. Must be called from inside a catch block and outside of every critical region.
+ */
+void throw_to_java( JNIEnv *env );
+
 void copy_into_java( JNIEnv *env, const boofcv::PackedSet<boofcv::Point2D<boofcv::S32>>& src , jobject dst );
 
 jclass safe_FindClass( JNIEnv *env, const char* name );
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
index 18ede7d..4b286c0 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
@@ -7,7 +7,7 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(
-    JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) {
+    JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -23,9 +23,11 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(
     }
     fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
-JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativedestroy(JNIEnv *env, jobject obj) {
+JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -38,10 +40,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativedestroy(
     } else {
         delete (ThresholdBlockMean<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
-    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
+    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) try {
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
@@ -56,7 +60,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
+    {
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -71,13 +75,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
             ((ThresholdBlockMean<F32> *)nativePtr)->process(input.image, output.image);
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
-    } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
     }
 
     // Release the arrays
     env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
index 35fe579..f9a9ce6 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
@@ -8,7 +8,7 @@ using namespace boofcv;
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(
     JNIEnv *env, jobject obj, jobject jregionWidth,
-    jdouble scale, jboolean down , jdouble minimumSpread, jboolean thresholdFromLocalBlocks ) {
+    jdouble scale, jboolean down , jdouble minimumSpread, jboolean thresholdFromLocalBlocks ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -24,9 +24,11 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(
     }
     fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
-JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativedestroy(JNIEnv *env, jobject obj) {
+JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -39,10 +41,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativedestro
     } else {
         delete (ThresholdBlockMinMax<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeprocess
-    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
+    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) try {
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
@@ -57,7 +61,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
+    {
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -72,13 +76,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
             ((ThresholdBlockMinMax<F32> *)nativePtr)->process(input.image, output.image);
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
-    } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
     }
 
     // Release the arrays
     env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
index 2652302..afc2b0b 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
@@ -8,7 +8,7 @@ using namespace boofcv;
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(
     JNIEnv *env, jobject obj, jboolean otsu2, jobject jregionWidth, jdouble tuning,
-    jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) {
+    jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -24,9 +24,11 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(
     }
     fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
-JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativedestroy(JNIEnv *env, jobject obj) {
+JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -39,10 +41,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativedestroy(
     } else {
         delete (ThresholdBlockOtsu<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
-    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
+    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) try {
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
@@ -57,7 +61,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
+    {
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
@@ -71,13 +75,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
             ((ThresholdBlockOtsu<F32> *)nativePtr)->process(input.image, output.image);
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
-    } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
     }
 
     // Release the arrays
     env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
index 315a8e6..0c5ede7 100644
--- a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
@@ -11,7 +11,7 @@ extern "C" {
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1init
         (JNIEnv *env, jobject obj)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
 
     LinearContourLabelChang2004* ptr = new LinearContourLabelChang2004(ConnectRule::FOUR);
@@ -19,11 +19,13 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1init
 
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, (jlong)ptr);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1destroy
         (JNIEnv *env, jobject obj)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
@@ -31,11 +33,13 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1destroy
     delete (LinearContourLabelChang2004*) nativePtr;
 
     env->SetLongField(obj, fid, 0);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
         (JNIEnv *env, jobject obj, jobject jbinary, jobject jlabel)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     LinearContourLabelChang2004* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
@@ -70,71 +74,88 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
     copy_into_java(env,contour->packedPoints,jpacked);
 
     // TODO storageContours
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setSaveInnerContour
         (JNIEnv *env, jobject obj, jboolean enabled)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     auto * contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
 
     contour->saveInternalContours = enabled;
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT jboolean JNICALL Java_org_boofcpp_contour_NativeChang2004_isSaveInternalContours
         (JNIEnv *env, jobject obj)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     auto * contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
 
     return (jboolean)contour->saveInternalContours;
+} catch( ... ) {
+    throw_to_java(env);
+    return 0;
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setMinContour
         (JNIEnv *env, jobject obj, jint size)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
 
     contour->minContourSize = static_cast<uint32_t>(size);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT jint JNICALL Java_org_boofcpp_contour_NativeChang2004_getMinContour
         (JNIEnv *env, jobject obj)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
 
     return static_cast<jint>(contour->minContourSize);
+} catch( ... ) {
+    throw_to_java(env);
+    return 0;
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setMaxContour
         (JNIEnv *env, jobject obj, jint size)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
 
     contour->maxContourSize = static_cast<uint32_t>(size);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT jint JNICALL Java_org_boofcpp_contour_NativeChang2004_getMaxContour
         (JNIEnv *env, jobject obj)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
 
     return static_cast<jint>(contour->maxContourSize);
+} catch( ... ) {
+    throw_to_java(env);
+    return 0;
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setConnectRule
         (JNIEnv *env, jobject obj, jobject jrule )
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
@@ -156,11 +177,13 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setConnectRule
             throw "Unknown connect rule";
     }
 
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT jobject JNICALL Java_org_boofcpp_contour_NativeChang2004_getConnectRule
         (JNIEnv *env, jobject obj)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
@@ -185,5 +208,8 @@ JNIEXPORT jobject JNICALL Java_org_boofcpp_contour_NativeChang2004_getConnectRul
         throw "Could lookup static field";
     }
     return ret;
+} catch( ... ) {
+    throw_to_java(env);
+    return nullptr;
 }
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
index 8baa758..cdbd340 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
@@ -8,7 +8,7 @@ using namespace boofcv;
 // double threshold, boolean down
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(
-    JNIEnv *env, jobject obj, jdouble threshold, jboolean down ) {
+    JNIEnv *env, jobject obj, jdouble threshold, jboolean down ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -22,9 +22,11 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(
     }
     fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
-JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativedestroy(JNIEnv *env, jobject obj) {
+JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -37,10 +39,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativedestro
     } else {
         delete (GlobalFixedBinaryFilter<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeprocess
-    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
+    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) try {
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
@@ -55,7 +59,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
+    {
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -70,13 +74,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
             ((GlobalFixedBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
-    } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
     }
 
     // Release the arrays
     env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
index 1d62507..3bffe14 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
@@ -6,7 +6,7 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(
-    JNIEnv *env, jobject obj, jdouble minValue, jdouble maxValue, jboolean down ) {
+    JNIEnv *env, jobject obj, jdouble minValue, jdouble maxValue, jboolean down ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -19,9 +19,11 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(
     }
     fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
-JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativedestroy(JNIEnv *env, jobject obj) {
+JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -34,10 +36,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativedestroy
     } else {
         delete (GlobalOtsuBinaryFilter<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
-    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
+    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) try {
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
@@ -52,7 +56,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
+    {
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -67,13 +71,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
             ((GlobalOtsuBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
-    } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
     }
 
     // Release the arrays
     env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
index 78bb88c..d1f6937 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
@@ -6,7 +6,7 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(
-    JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jint radius, jobject jstorage) {
+    JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jint radius, jobject jstorage) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -41,10 +41,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(
         env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     }
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussian(
-        JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jdouble sigma, jint radius, jobject jstorage) {
+        JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jdouble sigma, jint radius, jobject jstorage) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -81,6 +83,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussi
         env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     }
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
index b74cfd7..ecef940 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
@@ -28,7 +28,7 @@ BorderType borderJavaToCpp( int type ) {
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHorizontal(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -94,10 +94,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
         env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         delete kernel;
     }
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVertical(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -157,10 +159,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
         env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         delete kernel;
     }
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvolve(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) try {
 
    jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -220,6 +224,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
         env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         delete kernel;
     }
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
index d5ddc2c..9e40933 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
@@ -8,7 +8,7 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativehorizontal(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -41,10 +41,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
         env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         delete kernel;
     }
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativevertical(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -77,6 +79,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
         env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         delete kernel;
     }
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
index 3ba111b..202fc01 100644
--- a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
@@ -7,7 +7,7 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(
-    JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down ) {
+    JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -23,9 +23,11 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(
     }
     fid = env->GetFieldID(objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
-JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativedestroy(JNIEnv *env, jobject obj) {
+JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -38,10 +40,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativedestroy(
     } else {
         delete (LocalMeanBinaryFilter<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
-    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
+    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) try {
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
@@ -56,7 +60,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
+    {
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -71,13 +75,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
             ((InputToBinary<Gray<F32>> *)nativePtr)->process(input.image, output.image);
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
-    } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
     }
 
     // Release the arrays
     env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+} catch( ... ) {
+    throw_to_java(env);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 6cc95ffa21f822d7e0c9be5b822fe8ccc320c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:11 +0000
Subject: [PATCH 33/47] fix: arrays were not returned to Java when a native
 method failed

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp       | 11 +++++
 boofcpp-jni/src/main/cpp/JNIBoofCPP.h         | 17 +++++++
 boofcpp-jni/src/main/cpp/NativeBlockMean.cpp  |  9 ++--
 .../src/main/cpp/NativeBlockMinMax.cpp        |  9 ++--
 boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp  |  9 ++--
 boofcpp-jni/src/main/cpp/NativeChang2004.cpp  | 13 +++---
 .../src/main/cpp/NativeGlobalFixed.cpp        |  9 ++--
 boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp |  9 ++--
 .../src/main/cpp/NativeImageBlurOps.cpp       | 28 +++++-------
 .../src/main/cpp/NativeImageConvolve.cpp      | 45 ++++++++-----------
 .../cpp/NativeImageConvolveNormalized.cpp     | 20 ++++-----
 boofcpp-jni/src/main/cpp/NativeLocalMean.cpp  |  9 ++--
 12 files changed, 97 insertions(+), 91 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index 367264e..1d73b16 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -92,6 +92,17 @@ void WrapJGrowQueue_I32::resize( uint32_t desired ) {
     }
 }
 
+CriticalGuard::CriticalGuard( JNIEnv *env, jobject jdata, void* data, jint mode )
+: env(env), jdata(jdata), data(data), mode(mode)
+{
+    if( data == nullptr )
+        throw std::bad_alloc();
+}
+
+CriticalGuard::~CriticalGuard() {
+    env->ReleasePrimitiveArrayCritical((jarray)jdata, data, mode);
+}
+
 static void throw_java( JNIEnv *env, const char* name, const char* message ) {
     if( env->ExceptionCheck() )
         return;
diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
index ef4e4cb..96d8a1c 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
@@ -40,6 +40,23 @@ public:
     void resize( uint32_t desired );
 };
 
+/**
+ * Makes sure a critical array is given back to Java when it goes out of scope
+ */
+class CriticalGuard {
+public:
+    CriticalGuard( JNIEnv *env, jobject jdata, void* data, jint mode );
+    ~CriticalGuard();
+
+    CriticalGuard( const CriticalGuard& ) = delete;
+    CriticalGuard& operator=( const CriticalGuard& ) = delete;
+private:
+    JNIEnv *env;
+    jobject jdata;
+    void* data;
+    jint mode;
+};
+
 struct JImageInfo {
     jobject jdata;
 
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
index 4b286c0..6355bb2 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
@@ -65,20 +65,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
             ((ThresholdBlockMean<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
             ((ThresholdBlockMean<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 } catch( ... ) {
     throw_to_java(env);
 }
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
index f9a9ce6..674a647 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
@@ -66,20 +66,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
             ((ThresholdBlockMinMax<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
             ((ThresholdBlockMinMax<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 } catch( ... ) {
     throw_to_java(env);
 }
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
index afc2b0b..a244f6a 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
@@ -65,20 +65,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
             ((ThresholdBlockOtsu<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
             ((ThresholdBlockOtsu<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 } catch( ... ) {
     throw_to_java(env);
 }
diff --git a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
index 0c5ede7..ddfefa2 100644
--- a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
@@ -47,13 +47,14 @@ try {
     ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jbinary);
     ImageAndInfo<Gray<S32>,JImageInfo> label = wrapCriticalGrayS32(env,jlabel);
 
-    input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-    label.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)label.info.jdata, 0);
+    {
+        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
+        label.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)label.info.jdata, 0);
+        CriticalGuard labelGuard(env, label.info.jdata, label.image.data, 0);
 
-    contour->process(input.image, label.image);
-
-    env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-    env->ReleasePrimitiveArrayCritical((jarray)label.info.jdata, label.image.data, 0);
+        contour->process(input.image, label.image);
+    }
 
     jfieldID fidPoints = safe_GetFieldID(env, objClass, "storagePoints", "Lorg/ddogleg/struct/GrowQueue_I32;");
     jobject jpoints = env->GetObjectField(obj,fidPoints);
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
index cdbd340..09929ee 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
@@ -64,20 +64,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
             ((GlobalFixedBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
              output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+             CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
             ((GlobalFixedBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 } catch( ... ) {
     throw_to_java(env);
 }
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
index 3bffe14..e36cb2d 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
@@ -61,20 +61,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
             ((GlobalOtsuBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
             ((GlobalOtsuBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 } catch( ... ) {
     throw_to_java(env);
 }
diff --git a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
index d1f6937..d47824d 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
@@ -18,28 +18,26 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(
         ImageAndInfo<Gray<U8>,JImageInfo> storage = wrapCriticalGrayU8(env,jstorage);
 
         input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
         output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
         storage.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalGuard storageGuard(env, storage.info.jdata, storage.image.data, JNI_ABORT);
 
         BlurImageOps::mean(input.image,output.image,(uint32_t)radius,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
         ImageAndInfo<Gray<F32>,JImageInfo> storage = wrapCriticalGrayF32(env,jstorage);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
         storage.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalGuard storageGuard(env, storage.info.jdata, storage.image.data, JNI_ABORT);
 
         BlurImageOps::mean(input.image,output.image,(uint32_t)radius,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     }
 } catch( ... ) {
     throw_to_java(env);
@@ -60,28 +58,26 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussi
         ImageAndInfo<Gray<U8>,JImageInfo> storage = wrapCriticalGrayU8(env,jstorage);
 
         input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
         output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
         storage.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalGuard storageGuard(env, storage.info.jdata, storage.image.data, JNI_ABORT);
 
         BlurImageOps::gaussian(input.image,output.image,(double)sigma,(int32_t)width,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
         ImageAndInfo<Gray<F32>,JImageInfo> storage = wrapCriticalGrayF32(env,jstorage);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
         storage.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalGuard storageGuard(env, storage.info.jdata, storage.image.data, JNI_ABORT);
 
         BlurImageOps::gaussian(input.image,output.image,(double)sigma,(int32_t)width,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     }
 } catch( ... ) {
     throw_to_java(env);
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
index ecef940..d5aef0b 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
@@ -50,7 +50,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
             // Trying to figure out why this runs slower than a C++ application
             // JNI overhead appears to be negligible based on the printed times below
@@ -59,21 +61,17 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
             ConvolveImage::horizontal(*kernel, *border.get(),output.image);
 //            t = clock() - t;
 //            printf("horizontal time %f kernel %d\n",(float)1000*t/CLOCKS_PER_SEC,kernel->width);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
             ConvolveImage::horizontal(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
         }
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
@@ -86,12 +84,11 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
         border.get()->setImage(input.image);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
         ConvolveImage::horizontal(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         delete kernel;
     }
 } catch( ... ) {
@@ -121,24 +118,22 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
             ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
             ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output currently");
         }
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
@@ -151,12 +146,11 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
         border.get()->setImage(input.image);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
         ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         delete kernel;
     }
 } catch( ... ) {
@@ -186,24 +180,22 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
             ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
             ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
         }
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
@@ -216,12 +208,11 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
         border.get()->setImage(input.image);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
         ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         delete kernel;
     }
 } catch( ... ) {
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
index 9e40933..bd19d5f 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
@@ -20,12 +20,11 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
         boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
 
         input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
         output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
         ConvolveNormalized::horizontal(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         delete kernel;
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
@@ -33,12 +32,11 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
         boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
         ConvolveNormalized::horizontal(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         delete kernel;
     }
 } catch( ... ) {
@@ -58,12 +56,11 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
         boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
 
         input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
         output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
         ConvolveNormalized::vertical(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         delete kernel;
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
@@ -71,12 +68,11 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
         boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
         ConvolveNormalized::vertical(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         delete kernel;
     }
 } catch( ... ) {
diff --git a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
index 202fc01..43bcd39 100644
--- a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
@@ -65,20 +65,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
             ((InputToBinary<Gray<U8>>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
             ((InputToBinary<Gray<F32>> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 } catch( ... ) {
     throw_to_java(env);
 }
-- 
2.43.0


From 39469cb213a243c047b58075489a8701a3278775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:54 +0000
Subject: [PATCH 34/47] fix: convolution kernels from Java leaked on failure
 and ignored their width

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp       | 65 +++++++++++++------
 boofcpp-jni/src/main/cpp/JNIBoofCPP.h         |  1 +
 .../src/main/cpp/NativeImageConvolve.cpp      | 18 ++---
 .../cpp/NativeImageConvolveNormalized.cpp     | 12 ++--
 4 files changed, 56 insertions(+), 40 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index 1d73b16..eb0f8bd 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -1,4 +1,5 @@
 #include "JNIBoofCPP.h"
+#include <cstring>
 #include <new>
 #include <stdexcept>
 #include <packed_sets.h>
@@ -405,18 +406,24 @@ boofcv::Kernel1D<S32>* extractKernel1D_S32( JNIEnv *env, jobject& jkernel ) {
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
+    std::unique_ptr<boofcv::Kernel1D<S32>> kernel1D(new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset));
+
     jint length = env->GetArrayLength((jintArray)jarray);
+    if( (uint32_t)length < kernel1D->data.size )
+        throw std::invalid_argument("The kernel's array is smaller than its width");
+
+    jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
+    if( data == nullptr )
+        throw std::bad_alloc();
 
     // copy the Java array into the kernel
-    auto kernel1D = new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset);
-    kernel1D->data.set((S32*)data,(uint32_t)length);
+    memcpy(kernel1D->data.data,data,sizeof(S32)*kernel1D->data.size);
 
     // release java objects
-    env->ReleaseIntArrayElements((jintArray)jarray, data, 0);
+    env->ReleaseIntArrayElements((jintArray)jarray, data, JNI_ABORT);
 
     // return the results
-    return kernel1D;
+    return kernel1D.release();
 }
 
 boofcv::Kernel1D<F32>* extractKernel1D_F32( JNIEnv *env, jobject& jkernel ) {
@@ -426,18 +433,24 @@ boofcv::Kernel1D<F32>* extractKernel1D_F32( JNIEnv *env, jobject& jkernel ) {
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
+    std::unique_ptr<boofcv::Kernel1D<F32>> kernel1D(new boofcv::Kernel1D<F32>((uint32_t)width,(uint32_t)offset));
+
     jint length = env->GetArrayLength((jfloatArray)jarray);
+    if( (uint32_t)length < kernel1D->data.size )
+        throw std::invalid_argument("The kernel's array is smaller than its width");
+
+    jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
+    if( data == nullptr )
+        throw std::bad_alloc();
 
     // copy the Java array into the kernel
-    auto kernel1D = new boofcv::Kernel1D<F32>((uint32_t)width,(uint32_t)offset);
-    kernel1D->data.set((F32*)data,(uint32_t)length);
+    memcpy(kernel1D->data.data,data,sizeof(F32)*kernel1D->data.size);
 
     // release java objects
-    env->ReleaseFloatArrayElements((jfloatArray)jarray, data, 0);
+    env->ReleaseFloatArrayElements((jfloatArray)jarray, data, JNI_ABORT);
 
     // return the results
-    return kernel1D;
+    return kernel1D.release();
 }
 
 boofcv::Kernel2D<boofcv::S32>* extractKernel2D_S32( JNIEnv *env, jobject& jkernel ) {
@@ -447,18 +460,24 @@ boofcv::Kernel2D<boofcv::S32>* extractKernel2D_S32( JNIEnv *env, jobject& jkerne
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
+    std::unique_ptr<boofcv::Kernel2D<S32>> kernel2D(new boofcv::Kernel2D<S32>((uint32_t)width,(uint32_t)offset));
+
     jint length = env->GetArrayLength((jintArray)jarray);
+    if( (uint32_t)length < kernel2D->data.size )
+        throw std::invalid_argument("The kernel's array is smaller than its width");
+
+    jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
+    if( data == nullptr )
+        throw std::bad_alloc();
 
     // copy the Java array into the kernel
-    auto kernel2D = new boofcv::Kernel2D<S32>((uint32_t)width,(uint32_t)offset);
-    kernel2D->data.set((S32*)data,(uint32_t)length);
+    memcpy(kernel2D->data.data,data,sizeof(S32)*kernel2D->data.size);
 
     // release java objects
-    env->ReleaseIntArrayElements((jintArray)jarray, data, 0);
+    env->ReleaseIntArrayElements((jintArray)jarray, data, JNI_ABORT);
 
     // return the results
-    return kernel2D;
+    return kernel2D.release();
 }
 
 boofcv::Kernel2D<boofcv::F32>* extractKernel2D_F32( JNIEnv *env, jobject& jkernel ) {
@@ -468,16 +487,22 @@ boofcv::Kernel2D<boofcv::F32>* extractKernel2D_F32( JNIEnv *env, jobject& jkerne
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
+    std::unique_ptr<boofcv::Kernel2D<F32>> kernel2D(new boofcv::Kernel2D<F32>((uint32_t)width,(uint32_t)offset));
+
     jint length = env->GetArrayLength((jfloatArray)jarray);
+    if( (uint32_t)length < kernel2D->data.size )
+        throw std::invalid_argument("The kernel's array is smaller than its width");
+
+    jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
+    if( data == nullptr )
+        throw std::bad_alloc();
 
     // copy the Java array into the kernel
-    auto kernel2D = new boofcv::Kernel2D<F32>((uint32_t)width,(uint32_t)offset);
-    kernel2D->data.set((F32*)data,(uint32_t)length);
+    memcpy(kernel2D->data.data,data,sizeof(F32)*kernel2D->data.size);
 
     // release java objects
-    env->ReleaseFloatArrayElements((jfloatArray)jarray, data, 0);
+    env->ReleaseFloatArrayElements((jfloatArray)jarray, data, JNI_ABORT);
 
     // return the results
-    return kernel2D;
+    return kernel2D.release();
 }
diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
index 96d8a1c..045ecd2 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
@@ -2,6 +2,7 @@
 #define BOOFCPP_JNIBOOFCPP_H
 
 #include <jni.h>
+#include <memory>
 #include <config_types.h>
 #include "image_types.h"
 #include "base_types.h"
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
index d5aef0b..509282f 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
@@ -41,7 +41,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -72,14 +72,13 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
         }
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
@@ -89,7 +88,6 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
         CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
         ConvolveImage::horizontal(*kernel, *border.get(),output.image);
-        delete kernel;
     }
 } catch( ... ) {
     throw_to_java(env);
@@ -109,7 +107,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -134,14 +132,13 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output currently");
         }
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
@@ -151,7 +148,6 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
         CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
         ConvolveImage::vertical(*kernel, *border.get(),output.image);
-        delete kernel;
     }
 } catch( ... ) {
     throw_to_java(env);
@@ -171,7 +167,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel2D<S32>* kernel = extractKernel2D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel2D<S32>> kernel(extractKernel2D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -196,14 +192,13 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
         }
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel2D<F32>* kernel = extractKernel2D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel2D<F32>> kernel(extractKernel2D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
@@ -213,7 +208,6 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
         CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
         ConvolveImage::convolve(*kernel, *border.get(),output.image);
-        delete kernel;
     }
 } catch( ... ) {
     throw_to_java(env);
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
index bd19d5f..02e90a6 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
@@ -17,7 +17,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
     if( isInteger ) {
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
 
         input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
         CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
@@ -25,11 +25,10 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
         CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
         ConvolveNormalized::horizontal(*kernel, input.image,output.image);
-        delete kernel;
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
         CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
@@ -37,7 +36,6 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
         CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
         ConvolveNormalized::horizontal(*kernel, input.image,output.image);
-        delete kernel;
     }
 } catch( ... ) {
     throw_to_java(env);
@@ -53,7 +51,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
     if( isInteger ) {
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
 
         input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
         CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
@@ -61,11 +59,10 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
         CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
         ConvolveNormalized::vertical(*kernel, input.image,output.image);
-        delete kernel;
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
         CriticalGuard inputGuard(env, input.info.jdata, input.image.data, JNI_ABORT);
@@ -73,7 +70,6 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
         CriticalGuard outputGuard(env, output.info.jdata, output.image.data, 0);
 
         ConvolveNormalized::vertical(*kernel, input.image,output.image);
-        delete kernel;
     }
 } catch( ... ) {
     throw_to_java(env);
-- 
2.43.0


From 202136fe6c604771495156ceb07f92a5ca5af0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:15 +0000
Subject: [PATCH 35/47] fix: failed JNI lookups and null Java objects crashed
 native methods

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp       | 67 +++++++++++--------
 boofcpp-jni/src/main/cpp/JNIBoofCPP.h         |  1 +
 boofcpp-jni/src/main/cpp/NativeBlockMean.cpp  | 16 ++---
 .../src/main/cpp/NativeBlockMinMax.cpp        | 16 ++---
 boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp  | 16 ++---
 boofcpp-jni/src/main/cpp/NativeChang2004.cpp  | 14 ++--
 .../src/main/cpp/NativeGlobalFixed.cpp        | 16 ++---
 boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp | 16 ++---
 .../src/main/cpp/NativeImageBlurOps.cpp       |  4 +-
 .../src/main/cpp/NativeImageConvolve.cpp      |  6 +-
 .../cpp/NativeImageConvolveNormalized.cpp     |  4 +-
 boofcpp-jni/src/main/cpp/NativeLocalMean.cpp  | 16 ++---
 12 files changed, 90 insertions(+), 102 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index eb0f8bd..b09f3a5 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -10,7 +10,7 @@ using namespace boofcv;
 WrapJGrowQueue_I32::WrapJGrowQueue_I32(JNIEnv *env, jobject jobj)
 : env(env), jobj(jobj), data(nullptr), size(0)
 {
-    objClass = env->GetObjectClass(jobj);
+    objClass = safe_GetObjectClass(env,jobj);
     methodResize =  safe_GetMethodID(env, objClass, "resize", "(I)V");
     fid_data = safe_GetFieldID(env,objClass,"data","[I");
     fid_size = safe_GetFieldID(env,objClass,"size","I");
@@ -130,7 +130,7 @@ void copy_into_java( JNIEnv *env,
                      const boofcv::PackedSet<boofcv::Point2D<boofcv::S32>>& src ,
                      jobject dst )
 {
-    jclass class_packed = env->GetObjectClass(dst);
+    jclass class_packed = safe_GetObjectClass(env,dst);
     jfieldID field_blockLength = safe_GetFieldID(env,class_packed, "blockLength", "I");
     jfieldID field_blocks = safe_GetFieldID(env,class_packed, "blocks", "Lorg/ddogleg/struct/FastQueue;");
     jfieldID field_sets = safe_GetFieldID(env,class_packed, "sets", "Lorg/ddogleg/struct/FastQueue;");
@@ -144,7 +144,7 @@ void copy_into_java( JNIEnv *env,
 
     jobject object_blocks = env->GetObjectField (dst, field_blocks);
     jobject object_sets = env->GetObjectField (dst, field_sets);
-    jclass class_fastqueue = env->GetObjectClass(object_blocks);
+    jclass class_fastqueue = safe_GetObjectClass(env,object_blocks);
 
     jmethodID method_resize =  safe_GetMethodID(env, class_fastqueue, "resize", "(I)V");
     jmethodID method_get =  safe_GetMethodID(env, class_fastqueue, "get", "(I)Ljava/lang/Object;");
@@ -164,7 +164,7 @@ void copy_into_java( JNIEnv *env,
         env->ReleasePrimitiveArrayCritical((jarray)the_array, array_dst, 0);
     }
 
-    jclass class_blockindexlength = env->FindClass("boofcv/struct/BlockIndexLength");
+    jclass class_blockindexlength = safe_FindClass(env,"boofcv/struct/BlockIndexLength");
     jmethodID method_bil_set =  safe_GetMethodID(env, class_blockindexlength, "set", "(III)V");
 
     for( uint32_t i = 0; i < src.set_info.size(); i++ ) {
@@ -176,12 +176,18 @@ void copy_into_java( JNIEnv *env,
     }
 }
 
+jclass safe_GetObjectClass( JNIEnv *env, jobject obj )
+{
+    if( obj == nullptr )
+        throw std::invalid_argument("object is null");
+    return env->GetObjectClass(obj);
+}
+
 jclass safe_FindClass( JNIEnv *env, const char* name )
 {
     jclass theclass = env->FindClass(name);
     if( env->ExceptionCheck() || theclass == nullptr ) {
-        env->ExceptionDescribe();
-        throw "failed FindClass";
+        throw std::runtime_error("failed FindClass");
     }
     return theclass;
 }
@@ -189,9 +195,8 @@ jclass safe_FindClass( JNIEnv *env, const char* name )
 jfieldID safe_GetFieldID( JNIEnv *env, jclass& objClass, const char* name , const char* type)
 {
     jfieldID fid = env->GetFieldID(objClass, name, type);
-    if( env->ExceptionCheck() ) {
-        env->ExceptionDescribe();
-        throw "failed GetFieldID";
+    if( env->ExceptionCheck() || fid == nullptr ) {
+        throw std::runtime_error("failed GetFieldID");
     }
     return fid;
 }
@@ -199,9 +204,8 @@ jfieldID safe_GetFieldID( JNIEnv *env, jclass& objClass, const char* name , cons
 jmethodID safe_GetMethodID( JNIEnv *env, jclass& objClass, const char* name , const char* type)
 {
     jmethodID fid = env->GetMethodID(objClass, name, type);
-    if( env->ExceptionCheck() ) {
-        env->ExceptionDescribe();
-        throw "failed GetMethodID";
+    if( env->ExceptionCheck() || fid == nullptr ) {
+        throw std::runtime_error("failed GetMethodID");
     }
     return fid;
 }
@@ -219,10 +223,9 @@ jint safe_GetInt( JNIEnv *env, jclass& objClass, jobject& obj, const char* name
 JImageInfoU8 extractInfoU8( JNIEnv *env, jobject& jimage ) {
     JImageInfoU8 ret;
 
-    jclass objClass = env->GetObjectClass(jimage);
+    jclass objClass = safe_GetObjectClass(env,jimage);
     jfieldID fid = env->GetFieldID(objClass, "data", "[B");
     if( env->ExceptionCheck() ) {
-        env->ExceptionDescribe();
         throw std::runtime_error("Get field ID for data failed");
     }
     ret.jdata = env->GetObjectField (jimage, fid);
@@ -245,10 +248,9 @@ JImageInfoU8 extractInfoU8( JNIEnv *env, jobject& jimage ) {
 JImageInfoF32 extractInfoF32( JNIEnv *env, jobject& jimage ) {
     JImageInfoF32 ret;
 
-    jclass objClass = env->GetObjectClass(jimage);
+    jclass objClass = safe_GetObjectClass(env,jimage);
     jfieldID fid = env->GetFieldID(objClass, "data", "[F");
     if( env->ExceptionCheck() ) {
-        env->ExceptionDescribe();
         throw std::runtime_error("Get field ID for data failed");
     }
     ret.jdata = env->GetObjectField (jimage, fid);
@@ -271,12 +273,11 @@ JImageInfoF32 extractInfoF32( JNIEnv *env, jobject& jimage ) {
 JImageInfo extractInfoCritical( JNIEnv *env, jobject& jimage , const char*type ) {
     JImageInfo ret;
 
-    jclass objClass = env->GetObjectClass(jimage);
+    jclass objClass = safe_GetObjectClass(env,jimage);
     jfieldID fid;
 
     fid = env->GetFieldID(objClass, "data", type);
     if( env->ExceptionCheck() ) {
-        env->ExceptionDescribe();
         throw std::runtime_error("Get field ID for data failed");
     }
     ret.jdata = env->GetObjectField (jimage, fid);
@@ -391,7 +392,7 @@ ImageAndInfo<boofcv::Gray<boofcv::F32>,JImageInfo> wrapCriticalGrayF32( JNIEnv *
 boofcv::ConfigLength extractConfigLength( JNIEnv *env, jobject& jconfig ) {
     boofcv::ConfigLength ret;
 
-    jclass objClass = env->GetObjectClass(jconfig);
+    jclass objClass = safe_GetObjectClass(env,jconfig);
     ret.length = safe_GetDouble(env,objClass,jconfig, "length");
     ret.fraction = safe_GetDouble(env,objClass,jconfig, "fraction");
 
@@ -400,12 +401,15 @@ boofcv::ConfigLength extractConfigLength( JNIEnv *env, jobject& jconfig ) {
 
 // make sure you free the kernel afterwards!
 boofcv::Kernel1D<S32>* extractKernel1D_S32( JNIEnv *env, jobject& jkernel ) {
-    jclass objClass = env->GetObjectClass(jkernel);
+    jclass objClass = safe_GetObjectClass(env,jkernel);
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[I");
+    jfieldID fid = safe_GetFieldID(env,objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
+    if( jarray == nullptr ) {
+        throw std::runtime_error("data object is null");
+    }
     std::unique_ptr<boofcv::Kernel1D<S32>> kernel1D(new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset));
 
     jint length = env->GetArrayLength((jintArray)jarray);
@@ -427,12 +431,15 @@ boofcv::Kernel1D<S32>* extractKernel1D_S32( JNIEnv *env, jobject& jkernel ) {
 }
 
 boofcv::Kernel1D<F32>* extractKernel1D_F32( JNIEnv *env, jobject& jkernel ) {
-    jclass objClass = env->GetObjectClass(jkernel);
+    jclass objClass = safe_GetObjectClass(env,jkernel);
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[F");
+    jfieldID fid = safe_GetFieldID(env,objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
+    if( jarray == nullptr ) {
+        throw std::runtime_error("data object is null");
+    }
     std::unique_ptr<boofcv::Kernel1D<F32>> kernel1D(new boofcv::Kernel1D<F32>((uint32_t)width,(uint32_t)offset));
 
     jint length = env->GetArrayLength((jfloatArray)jarray);
@@ -454,12 +461,15 @@ boofcv::Kernel1D<F32>* extractKernel1D_F32( JNIEnv *env, jobject& jkernel ) {
 }
 
 boofcv::Kernel2D<boofcv::S32>* extractKernel2D_S32( JNIEnv *env, jobject& jkernel ) {
-    jclass objClass = env->GetObjectClass(jkernel);
+    jclass objClass = safe_GetObjectClass(env,jkernel);
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[I");
+    jfieldID fid = safe_GetFieldID(env,objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
+    if( jarray == nullptr ) {
+        throw std::runtime_error("data object is null");
+    }
     std::unique_ptr<boofcv::Kernel2D<S32>> kernel2D(new boofcv::Kernel2D<S32>((uint32_t)width,(uint32_t)offset));
 
     jint length = env->GetArrayLength((jintArray)jarray);
@@ -481,12 +491,15 @@ boofcv::Kernel2D<boofcv::S32>* extractKernel2D_S32( JNIEnv *env, jobject& jkerne
 }
 
 boofcv::Kernel2D<boofcv::F32>* extractKernel2D_F32( JNIEnv *env, jobject& jkernel ) {
-    jclass objClass = env->GetObjectClass(jkernel);
+    jclass objClass = safe_GetObjectClass(env,jkernel);
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[F");
+    jfieldID fid = safe_GetFieldID(env,objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
+    if( jarray == nullptr ) {
+        throw std::runtime_error("data object is null");
+    }
     std::unique_ptr<boofcv::Kernel2D<F32>> kernel2D(new boofcv::Kernel2D<F32>((uint32_t)width,(uint32_t)offset));
 
     jint length = env->GetArrayLength((jfloatArray)jarray);
diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
index 045ecd2..272b491 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
@@ -104,6 +104,7 @@ void throw_to_java( JNIEnv *env );
 
 void copy_into_java( JNIEnv *env, const boofcv::PackedSet<boofcv::Point2D<boofcv::S32>>& src , jobject dst );
 
+jclass safe_GetObjectClass( JNIEnv *env, jobject obj );
 jclass safe_FindClass( JNIEnv *env, const char* name );
 jfieldID safe_GetFieldID( JNIEnv *env, jclass& objClass, const char* name , const char* type);
 jmethodID safe_GetMethodID( JNIEnv *env, jclass& objClass, const char* name , const char* type);
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
index 6355bb2..36b4bc9 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
@@ -10,7 +10,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(
     JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
@@ -21,7 +21,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(
     } else {
         ptr = (jlong)new ThresholdBlockMean<F32>(region_width,(bool)thresholdFromLocalBlocks,(double)scale,(bool)down);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
 } catch( ... ) {
     throw_to_java(env);
@@ -30,9 +30,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
 
     if( isInteger ) {
@@ -49,14 +49,10 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    if( env->ExceptionCheck() )
-        return;
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
-    if( env->ExceptionCheck() )
-            return;
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
index 674a647..64ebcad 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
@@ -11,7 +11,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(
     jdouble scale, jboolean down , jdouble minimumSpread, jboolean thresholdFromLocalBlocks ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
@@ -22,7 +22,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(
     } else {
         ptr = (jlong)new ThresholdBlockMinMax<F32>((float)minimumSpread,region_width,(bool)thresholdFromLocalBlocks,(float)scale,(bool)down);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
 } catch( ... ) {
     throw_to_java(env);
@@ -31,9 +31,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
 
     if( isInteger ) {
@@ -50,14 +50,10 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    if( env->ExceptionCheck() )
-        return;
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
-    if( env->ExceptionCheck() )
-            return;
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
index a244f6a..bb214a1 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
@@ -11,7 +11,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(
     jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
@@ -22,7 +22,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(
     } else {
         ptr = (jlong)new ThresholdBlockOtsu<F32>((bool)otsu2,region_width,(double)tuning,(double)scale,(bool)down,(bool)thresholdFromLocalBlocks);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
 } catch( ... ) {
     throw_to_java(env);
@@ -31,9 +31,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
 
     if( isInteger ) {
@@ -50,14 +50,10 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    if( env->ExceptionCheck() )
-        return;
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
-    if( env->ExceptionCheck() )
-            return;
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
diff --git a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
index ddfefa2..7c98f75 100644
--- a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
@@ -27,7 +27,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1destroy
         (JNIEnv *env, jobject obj)
 try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "nativePtr", "J");
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
 
     delete (LinearContourLabelChang2004*) nativePtr;
@@ -161,7 +161,7 @@ try {
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
 
-    jclass enumClass = env->GetObjectClass(jrule);
+    jclass enumClass = safe_GetObjectClass(env,jrule);
     jmethodID mid =  safe_GetMethodID(env, enumClass, "ordinal", "()I");
     jint rule_oridinal = env->CallIntMethod(jrule,mid);
 
@@ -175,7 +175,7 @@ try {
             break;
 
         default:
-            throw "Unknown connect rule";
+            throw std::runtime_error("Unknown connect rule");
     }
 
 } catch( ... ) {
@@ -186,7 +186,7 @@ JNIEXPORT jobject JNICALL Java_org_boofcpp_contour_NativeChang2004_getConnectRul
         (JNIEnv *env, jobject obj)
 try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "nativePtr", "J");
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
 
     jclass enumClass = safe_FindClass(env,"boofcv/struct/ConnectRule");
@@ -199,14 +199,12 @@ try {
         theRule = env->GetStaticFieldID(enumClass , "EIGHT", "Lboofcv/struct/ConnectRule;");
 
     if( env->ExceptionCheck() || theRule == nullptr ) {
-        env->ExceptionDescribe();
-        throw "Could lookup static field";
+        throw std::runtime_error("Could lookup static field");
     }
 
     jobject ret = env->GetStaticObjectField(enumClass,theRule);
     if( env->ExceptionCheck() || ret == nullptr ) {
-        env->ExceptionDescribe();
-        throw "Could lookup static field";
+        throw std::runtime_error("Could lookup static field");
     }
     return ret;
 } catch( ... ) {
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
index 09929ee..9e71f0e 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
@@ -11,7 +11,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(
     JNIEnv *env, jobject obj, jdouble threshold, jboolean down ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     jlong ptr;
@@ -20,7 +20,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(
     } else {
         ptr = (jlong)new GlobalFixedBinaryFilter<F32>((float)threshold, (bool)down);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
 } catch( ... ) {
     throw_to_java(env);
@@ -29,9 +29,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
 
     if( isInteger ) {
@@ -48,14 +48,10 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    if( env->ExceptionCheck() )
-        return;
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
-    if( env->ExceptionCheck() )
-            return;
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
index e36cb2d..5565a54 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
@@ -9,7 +9,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(
     JNIEnv *env, jobject obj, jdouble minValue, jdouble maxValue, jboolean down ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
     jlong ptr;
     if( isInteger ) {
@@ -17,7 +17,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(
     } else {
         ptr = (jlong)new GlobalOtsuBinaryFilter<F32>((F32)minValue,(F32)maxValue, (bool) down);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
 } catch( ... ) {
     throw_to_java(env);
@@ -26,9 +26,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
 
     if( isInteger ) {
@@ -45,14 +45,10 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    if( env->ExceptionCheck() )
-        return;
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
-    if( env->ExceptionCheck() )
-            return;
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
diff --git a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
index d47824d..8a70956 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
@@ -9,7 +9,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(
     JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jint radius, jobject jstorage) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     if( isInteger ) {
@@ -47,7 +47,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussi
         JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jdouble sigma, jint radius, jobject jstorage) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     int32_t width = radius > 0 ? 2*radius+1 : -1;
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
index 509282f..e7daca3 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
@@ -31,7 +31,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
     JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
     jint inputBits = safe_GetInt(env,objClass,obj,"inputBits");
     jint outputBits = safe_GetInt(env,objClass,obj,"outputBits");
@@ -97,7 +97,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
     JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
     jint inputBits = safe_GetInt(env,objClass,obj,"inputBits");
     jint outputBits = safe_GetInt(env,objClass,obj,"outputBits");
@@ -157,7 +157,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
     JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) try {
 
    jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
     jint inputBits = safe_GetInt(env,objClass,obj,"inputBits");
     jint outputBits = safe_GetInt(env,objClass,obj,"outputBits");
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
index 02e90a6..c3bb937 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
@@ -11,7 +11,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
     JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     if( isInteger ) {
@@ -45,7 +45,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
     JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     if( isInteger ) {
diff --git a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
index 43bcd39..6836843 100644
--- a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
@@ -10,7 +10,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(
     JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
@@ -21,7 +21,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(
     } else {
         ptr = (jlong)new LocalMeanBinaryFilter<F32>(region_width,(double)scale,(bool)down);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
 } catch( ... ) {
     throw_to_java(env);
@@ -30,9 +30,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
 
     if( isInteger ) {
@@ -49,14 +49,10 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    if( env->ExceptionCheck() )
-        return;
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
-    if( env->ExceptionCheck() )
-            return;
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-- 
2.43.0


From 54136c248f98350832b397c836a3f863fb019762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:15 +0000
Subject: [PATCH 36/47] fix: using or destroying a destroyed native object
 crashed

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp        |  8 ++++++++
 boofcpp-jni/src/main/cpp/JNIBoofCPP.h          |  3 +++
 boofcpp-jni/src/main/cpp/NativeBlockMean.cpp   |  3 ++-
 boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp |  3 ++-
 boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp   |  3 ++-
 boofcpp-jni/src/main/cpp/NativeChang2004.cpp   | 18 +++++++++---------
 boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp |  3 ++-
 boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp  |  3 ++-
 boofcpp-jni/src/main/cpp/NativeLocalMean.cpp   |  3 ++-
 9 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index b09f3a5..de07d61 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -176,6 +176,14 @@ void copy_into_java( JNIEnv *env,
     }
 }
 
+jlong safe_GetNativePtr( JNIEnv *env, jobject obj, jfieldID fid )
+{
+    jlong ptr = env->GetLongField(obj, fid);
+    if( ptr == 0 )
+        throw std::runtime_error("The native object does not exist or has been destroyed");
+    return ptr;
+}
+
 jclass safe_GetObjectClass( JNIEnv *env, jobject obj )
 {
     if( obj == nullptr )
diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
index 272b491..77d1a9e 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
@@ -104,6 +104,9 @@ void throw_to_java( JNIEnv *env );
 
 void copy_into_java( JNIEnv *env, const boofcv::PackedSet<boofcv::Point2D<boofcv::S32>>& src , jobject dst );
 
+/** Reads the field which points to the native object and makes sure there is one */
+jlong safe_GetNativePtr( JNIEnv *env, jobject obj, jfieldID fid );
+
 jclass safe_GetObjectClass( JNIEnv *env, jobject obj );
 jclass safe_FindClass( JNIEnv *env, const char* name );
 jfieldID safe_GetFieldID( JNIEnv *env, jclass& objClass, const char* name , const char* type);
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
index 36b4bc9..fb683a6 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
@@ -40,6 +40,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativedestroy(
     } else {
         delete (ThresholdBlockMean<F32> *) nativePtr;
     }
+    env->SetLongField(obj, fid, 0);
 } catch( ... ) {
     throw_to_java(env);
 }
@@ -52,7 +53,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
     jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
     fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
-    jlong nativePtr = env->GetLongField(obj, fid);
+    jlong nativePtr = safe_GetNativePtr(env, obj, fid);
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
index 64ebcad..051278a 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
@@ -41,6 +41,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativedestro
     } else {
         delete (ThresholdBlockMinMax<F32> *) nativePtr;
     }
+    env->SetLongField(obj, fid, 0);
 } catch( ... ) {
     throw_to_java(env);
 }
@@ -53,7 +54,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
     jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
     fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
-    jlong nativePtr = env->GetLongField(obj, fid);
+    jlong nativePtr = safe_GetNativePtr(env, obj, fid);
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
index bb214a1..6e92b50 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
@@ -41,6 +41,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativedestroy(
     } else {
         delete (ThresholdBlockOtsu<F32> *) nativePtr;
     }
+    env->SetLongField(obj, fid, 0);
 } catch( ... ) {
     throw_to_java(env);
 }
@@ -53,7 +54,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
     jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
     fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
-    jlong nativePtr = env->GetLongField(obj, fid);
+    jlong nativePtr = safe_GetNativePtr(env, obj, fid);
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
diff --git a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
index 7c98f75..edd06b4 100644
--- a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
@@ -42,7 +42,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
 try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
-    LinearContourLabelChang2004* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    LinearContourLabelChang2004* contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env, obj, fid);
 
     ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jbinary);
     ImageAndInfo<Gray<S32>,JImageInfo> label = wrapCriticalGrayS32(env,jlabel);
@@ -84,7 +84,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setSaveInnerCont
 try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
-    auto * contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto * contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env, obj, fid);
 
     contour->saveInternalContours = enabled;
 } catch( ... ) {
@@ -96,7 +96,7 @@ JNIEXPORT jboolean JNICALL Java_org_boofcpp_contour_NativeChang2004_isSaveIntern
 try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
-    auto * contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto * contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env, obj, fid);
 
     return (jboolean)contour->saveInternalContours;
 } catch( ... ) {
@@ -109,7 +109,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setMinContour
 try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
-    auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto* contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env, obj, fid);
 
     contour->minContourSize = static_cast<uint32_t>(size);
 } catch( ... ) {
@@ -121,7 +121,7 @@ JNIEXPORT jint JNICALL Java_org_boofcpp_contour_NativeChang2004_getMinContour
 try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
-    auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto* contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env, obj, fid);
 
     return static_cast<jint>(contour->minContourSize);
 } catch( ... ) {
@@ -134,7 +134,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setMaxContour
 try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
-    auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto* contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env, obj, fid);
 
     contour->maxContourSize = static_cast<uint32_t>(size);
 } catch( ... ) {
@@ -146,7 +146,7 @@ JNIEXPORT jint JNICALL Java_org_boofcpp_contour_NativeChang2004_getMaxContour
 try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
-    auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto* contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env, obj, fid);
 
     return static_cast<jint>(contour->maxContourSize);
 } catch( ... ) {
@@ -159,7 +159,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setConnectRule
 try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
-    auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto* contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env, obj, fid);
 
     jclass enumClass = safe_GetObjectClass(env,jrule);
     jmethodID mid =  safe_GetMethodID(env, enumClass, "ordinal", "()I");
@@ -187,7 +187,7 @@ JNIEXPORT jobject JNICALL Java_org_boofcpp_contour_NativeChang2004_getConnectRul
 try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
-    auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
+    auto* contour = (LinearContourLabelChang2004*)safe_GetNativePtr(env, obj, fid);
 
     jclass enumClass = safe_FindClass(env,"boofcv/struct/ConnectRule");
 
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
index 9e71f0e..bff4889 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
@@ -39,6 +39,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativedestro
     } else {
         delete (GlobalFixedBinaryFilter<F32> *) nativePtr;
     }
+    env->SetLongField(obj, fid, 0);
 } catch( ... ) {
     throw_to_java(env);
 }
@@ -51,7 +52,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
     jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
     fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
-    jlong nativePtr = env->GetLongField(obj, fid);
+    jlong nativePtr = safe_GetNativePtr(env, obj, fid);
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
index 5565a54..296dd90 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
@@ -36,6 +36,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativedestroy
     } else {
         delete (GlobalOtsuBinaryFilter<F32> *) nativePtr;
     }
+    env->SetLongField(obj, fid, 0);
 } catch( ... ) {
     throw_to_java(env);
 }
@@ -48,7 +49,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
     jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
     fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
-    jlong nativePtr = env->GetLongField(obj, fid);
+    jlong nativePtr = safe_GetNativePtr(env, obj, fid);
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
diff --git a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
index 6836843..71a7a64 100644
--- a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
@@ -40,6 +40,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativedestroy(
     } else {
         delete (LocalMeanBinaryFilter<F32> *) nativePtr;
     }
+    env->SetLongField(obj, fid, 0);
 } catch( ... ) {
     throw_to_java(env);
 }
@@ -52,7 +53,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
     jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
     fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
-    jlong nativePtr = env->GetLongField(obj, fid);
+    jlong nativePtr = safe_GetNativePtr(env, obj, fid);
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-- 
2.43.0


From 0dbb6b4f5fa3ed5c341618dbf6ab8ec6e288cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:15 +0000
Subject: [PATCH 37/47] fix: the native object leaked when the Java object
 could not be updated

---
 boofcpp-jni/src/main/cpp/NativeBlockMean.cpp   | 2 +-
 boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp | 2 +-
 boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp   | 2 +-
 boofcpp-jni/src/main/cpp/NativeChang2004.cpp   | 3 ++-
 boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp | 2 +-
 boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp  | 2 +-
 boofcpp-jni/src/main/cpp/NativeLocalMean.cpp   | 2 +-
 7 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
index fb683a6..d864104 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
@@ -12,6 +12,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
 
@@ -21,7 +22,6 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(
     } else {
         ptr = (jlong)new ThresholdBlockMean<F32>(region_width,(bool)thresholdFromLocalBlocks,(double)scale,(bool)down);
     }
-    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
 } catch( ... ) {
     throw_to_java(env);
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
index 051278a..88b6577 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
@@ -13,6 +13,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
 
@@ -22,7 +23,6 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(
     } else {
         ptr = (jlong)new ThresholdBlockMinMax<F32>((float)minimumSpread,region_width,(bool)thresholdFromLocalBlocks,(float)scale,(bool)down);
     }
-    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
 } catch( ... ) {
     throw_to_java(env);
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
index 6e92b50..31e823e 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
@@ -13,6 +13,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
 
@@ -22,7 +23,6 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(
     } else {
         ptr = (jlong)new ThresholdBlockOtsu<F32>((bool)otsu2,region_width,(double)tuning,(double)scale,(bool)down,(bool)thresholdFromLocalBlocks);
     }
-    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
 } catch( ... ) {
     throw_to_java(env);
diff --git a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
index edd06b4..c8eacea 100644
--- a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
@@ -14,10 +14,11 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1init
 try {
     jclass objClass = env->GetObjectClass(obj);
 
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
+
     LinearContourLabelChang2004* ptr = new LinearContourLabelChang2004(ConnectRule::FOUR);
     ptr->maxContourSize = 0x7fffffff; // Java's max is a signed int
 
-    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, (jlong)ptr);
 } catch( ... ) {
     throw_to_java(env);
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
index bff4889..4fc583a 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
@@ -13,6 +13,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
 
     jlong ptr;
     if( isInteger ) {
@@ -20,7 +21,6 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(
     } else {
         ptr = (jlong)new GlobalFixedBinaryFilter<F32>((float)threshold, (bool)down);
     }
-    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
 } catch( ... ) {
     throw_to_java(env);
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
index 296dd90..ff23f4b 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
@@ -11,13 +11,13 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     jlong ptr;
     if( isInteger ) {
         ptr = (jlong)new GlobalOtsuBinaryFilter<U8>((U8)minValue,(U8)maxValue, (bool) down);
     } else {
         ptr = (jlong)new GlobalOtsuBinaryFilter<F32>((F32)minValue,(F32)maxValue, (bool) down);
     }
-    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
 } catch( ... ) {
     throw_to_java(env);
diff --git a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
index 71a7a64..eb73056 100644
--- a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
@@ -12,6 +12,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
+    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
 
@@ -21,7 +22,6 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(
     } else {
         ptr = (jlong)new LocalMeanBinaryFilter<F32>(region_width,(double)scale,(bool)down);
     }
-    fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, ptr);
 } catch( ... ) {
     throw_to_java(env);
-- 
2.43.0


From 65df9c64c97ef8bde2eaf50d59d05638ea78f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:08 +0000
Subject: [PATCH 38/47] fix: delivering contours to Java ignored failures and
 accumulated references

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp      | 35 ++++++++++++++++++--
 boofcpp-jni/src/main/cpp/JNIBoofCPP.h        |  4 +++
 boofcpp-jni/src/main/cpp/NativeChang2004.cpp |  2 ++
 3 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index de07d61..445f7aa 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -8,7 +8,7 @@ using namespace boofcv;
 
 
 WrapJGrowQueue_I32::WrapJGrowQueue_I32(JNIEnv *env, jobject jobj)
-: env(env), jobj(jobj), data(nullptr), size(0)
+: env(env), jobj(jobj), data(nullptr), size(0), critical(false)
 {
     objClass = safe_GetObjectClass(env,jobj);
     methodResize =  safe_GetMethodID(env, objClass, "resize", "(I)V");
@@ -29,12 +29,18 @@ WrapJGrowQueue_I32::WrapJGrowQueue_I32(JNIEnv *env, jobject jobj)
 
 WrapJGrowQueue_I32::~WrapJGrowQueue_I32() {
     if( this->data != nullptr ) {
-        throw std::runtime_error("You didn't release the critical array!");
+        if( critical )
+            criticalRelease();
+        else
+            regularRelease();
     }
 }
 
 void WrapJGrowQueue_I32::criticalGet() {
     this->data = (jint *)env->GetPrimitiveArrayCritical(array_object, 0);
+    if( this->data == nullptr )
+        throw std::bad_alloc();
+    this->critical = true;
 }
 
 void WrapJGrowQueue_I32::criticalRelease() {
@@ -44,6 +50,9 @@ void WrapJGrowQueue_I32::criticalRelease() {
 
 void WrapJGrowQueue_I32::regularGet() {
     this->data = (jint *)env->GetIntArrayElements((jintArray)array_object, 0);
+    if( this->data == nullptr )
+        throw std::bad_alloc();
+    this->critical = false;
 }
 
 void WrapJGrowQueue_I32::regularRelease() {
@@ -81,10 +90,12 @@ void WrapJGrowQueue_I32::resize( uint32_t desired ) {
 //    printf("ENTER resize. desired = %d\n",desired);
 
     env->CallVoidMethod(jobj,methodResize,(jint)desired);
+    check_pending(env);
     this->size = desired;
 
     // See if the array has been resized
     if( desired > this->array_length ) {
+        env->DeleteLocalRef(this->array_object);
         this->array_object = (jarray) env->GetObjectField(jobj, fid_data);
         if (array_object == nullptr) {
             throw std::runtime_error("array object is null");
@@ -144,24 +155,34 @@ void copy_into_java( JNIEnv *env,
 
     jobject object_blocks = env->GetObjectField (dst, field_blocks);
     jobject object_sets = env->GetObjectField (dst, field_sets);
+    if( object_sets == nullptr )
+        throw std::runtime_error("sets is null");
     jclass class_fastqueue = safe_GetObjectClass(env,object_blocks);
 
     jmethodID method_resize =  safe_GetMethodID(env, class_fastqueue, "resize", "(I)V");
     jmethodID method_get =  safe_GetMethodID(env, class_fastqueue, "get", "(I)Ljava/lang/Object;");
 
     env->CallVoidMethod(object_blocks,method_resize,(jint)src._number_of_blocks);
+    check_pending(env);
     env->CallVoidMethod(object_sets,method_resize,(jint)src.set_info.size());
+    check_pending(env);
 
     for( uint32_t block_idx = 0; block_idx < src._number_of_blocks; block_idx++ ) {
         jobject the_array = env->CallObjectMethod(object_blocks,method_get,(jint)block_idx);
+        check_pending(env);
+        if( the_array == nullptr )
+            throw std::runtime_error("block is null");
 
         auto array_src = (boofcv::Point2D<boofcv::S32>*)src.blocks[block_idx];
         auto array_dst = (jint *)env->GetPrimitiveArrayCritical((jarray)the_array, 0);
+        if( array_dst == nullptr )
+            throw std::bad_alloc();
         for( uint32_t j = 0; j < src._size_of_block; j++ ) {
             array_dst[j*2  ] = array_src[j].x;
             array_dst[j*2+1] = array_src[j].y;
         }
         env->ReleasePrimitiveArrayCritical((jarray)the_array, array_dst, 0);
+        env->DeleteLocalRef(the_array);
     }
 
     jclass class_blockindexlength = safe_FindClass(env,"boofcv/struct/BlockIndexLength");
@@ -171,11 +192,21 @@ void copy_into_java( JNIEnv *env,
         const PackedSetInfo& set_info = src.set_info[i];
 
         jobject jset = env->CallObjectMethod(object_sets,method_get,(jint)i);
+        check_pending(env);
+        if( jset == nullptr )
+            throw std::runtime_error("set is null");
         env->CallVoidMethod(jset,method_bil_set,set_info.offset*2,set_info.size,set_info.block);
+        check_pending(env);
         env->DeleteLocalRef(jset);
     }
 }
 
+void check_pending( JNIEnv *env )
+{
+    if( env->ExceptionCheck() )
+        throw std::runtime_error("A Java exception is pending");
+}
+
 jlong safe_GetNativePtr( JNIEnv *env, jobject obj, jfieldID fid )
 {
     jlong ptr = env->GetLongField(obj, fid);
diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
index 77d1a9e..4005c17 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
@@ -19,6 +19,7 @@ public:
     jint* data;
     jint size;
     jint array_length;
+    bool critical;
 
     jfieldID fid_data;
     jfieldID fid_size;
@@ -104,6 +105,9 @@ void throw_to_java( JNIEnv *env );
 
 void copy_into_java( JNIEnv *env, const boofcv::PackedSet<boofcv::Point2D<boofcv::S32>>& src , jobject dst );
 
+/** Throws an exception if a call into Java left one pending */
+void check_pending( JNIEnv *env );
+
 /** Reads the field which points to the native object and makes sure there is one */
 jlong safe_GetNativePtr( JNIEnv *env, jobject obj, jfieldID fid );
 
diff --git a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
index c8eacea..5750d37 100644
--- a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
@@ -69,6 +69,7 @@ try {
         // internal contour ids will be grabbed from storagePoints
         grow_queue.setTo(p.internalIndexes);
         env->CallVoidMethod(obj,midAdd,(jint)p.id,(jint)p.externalIndex);
+        check_pending(env);
     }
 
     jfieldID field_packed = safe_GetFieldID(env, objClass, "packedPoints", "Lboofcv/struct/PackedSetsPoint2D_I32;");
@@ -165,6 +166,7 @@ try {
     jclass enumClass = safe_GetObjectClass(env,jrule);
     jmethodID mid =  safe_GetMethodID(env, enumClass, "ordinal", "()I");
     jint rule_oridinal = env->CallIntMethod(jrule,mid);
+    check_pending(env);
 
     switch( rule_oridinal ) {
         case 0:
-- 
2.43.0


From d67e04b5cadbb77acc1c3f12e849ec345b67699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:18 +0000
Subject: [PATCH 39/47] fix: release the file and the decoder when a loaded
 image doesn't fit

---
 benchmark/src/benchmark_common.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/benchmark/src/benchmark_common.cpp b/benchmark/src/benchmark_common.cpp
index 301a0c0..7d30155 100644
--- a/benchmark/src/benchmark_common.cpp
+++ b/benchmark/src/benchmark_common.cpp
@@ -74,7 +74,12 @@ bool boofcv::load_jpeg( const char *filename , Interleaved<U8>& dst) {
         goto fail;
     }
 
-    dst.reshape(dinfo.output_width, dinfo.output_height,(uint32_t)dinfo.output_components);
+    try {
+        dst.reshape(dinfo.output_width, dinfo.output_height,(uint32_t)dinfo.output_components);
+    } catch( const std::exception& e ) {
+        fprintf(stderr, "load_jpeg: can't reshape the image: %s\n", e.what());
+        goto fail;
+    }
 
     for (y = 0; y < dinfo.output_height; y++) {
         JSAMPROW row_pointer = &dst.data[dst.offset + dst.stride*y];
@@ -207,7 +212,12 @@ bool boofcv::load_png(const char *filename , Interleaved<U8>& dst)
     }
 
     // TODO determine the number of channels/bands
-    dst.reshape( (uint32_t)width, (uint32_t)height, 3);
+    try {
+        dst.reshape( (uint32_t)width, (uint32_t)height, 3);
+    } catch( const std::exception& e ) {
+        fprintf(stderr, "load_png: can't reshape the image: %s\n", e.what());
+        goto out;
+    }
 
     for (pass = 0; pass < number_passes; pass++) {
         int y;
-- 
2.43.0


From b80719a185b155c40dbcc8ad9528808f76cea838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:18 +0000
Subject: [PATCH 40/47] fix: load_jpeg() no longer reads from its file after
 closing it

---
 benchmark/src/benchmark_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmark/src/benchmark_common.cpp b/benchmark/src/benchmark_common.cpp
index 7d30155..f8fa300 100644
--- a/benchmark/src/benchmark_common.cpp
+++ b/benchmark/src/benchmark_common.cpp
@@ -87,9 +87,9 @@ bool boofcv::load_jpeg( const char *filename , Interleaved<U8>& dst) {
         jpeg_read_scanlines(&dinfo, &row_pointer, 1);
     }
 
-    fclose(infile);
     jpeg_finish_decompress(&dinfo);
     jpeg_destroy_decompress(&dinfo);
+    fclose(infile);
     return true;
 
     fail:
-- 
2.43.0


From 03be18c606346476ed58e5f50e08e561fa210ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:18 +0000
Subject: [PATCH 41/47] fix: load_jpeg() fails when the file is truncated or
 damaged

---
 benchmark/src/benchmark_common.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/benchmark/src/benchmark_common.cpp b/benchmark/src/benchmark_common.cpp
index f8fa300..4b85ab3 100644
--- a/benchmark/src/benchmark_common.cpp
+++ b/benchmark/src/benchmark_common.cpp
@@ -88,6 +88,11 @@ bool boofcv::load_jpeg( const char *filename , Interleaved<U8>& dst) {
     }
 
     jpeg_finish_decompress(&dinfo);
+
+    // libjpeg only warns when data is missing or damaged and fills in the rest of the picture
+    if (err.base.num_warnings != 0)
+        goto fail;
+
     jpeg_destroy_decompress(&dinfo);
     fclose(infile);
     return true;
-- 
2.43.0


From d68964ad65c44decfb6e38a5f95368a9679453d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:18 +0000
Subject: [PATCH 42/47] fix: load_png() returns an image with the one band it
 decodes

---
 benchmark/src/benchmark_common.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/benchmark/src/benchmark_common.cpp b/benchmark/src/benchmark_common.cpp
index 4b85ab3..7316032 100644
--- a/benchmark/src/benchmark_common.cpp
+++ b/benchmark/src/benchmark_common.cpp
@@ -216,9 +216,9 @@ bool boofcv::load_png(const char *filename , Interleaved<U8>& dst)
         goto out;
     }
 
-    // TODO determine the number of channels/bands
+    // everything is converted into 8bit grayscale, see above
     try {
-        dst.reshape( (uint32_t)width, (uint32_t)height, 3);
+        dst.reshape( (uint32_t)width, (uint32_t)height, 1);
     } catch( const std::exception& e ) {
         fprintf(stderr, "load_png: can't reshape the image: %s\n", e.what());
         goto out;
-- 
2.43.0


From 535547ecc8f6275591e3da4017267a8693f1bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:33 +0000
Subject: [PATCH 43/47] fix: normalizing a 2D kernel scaled only its first row

---
 boofcpp/src/boofcv/convolve_kernels.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 4dd7b6c..8b6ba98 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -267,7 +267,7 @@ namespace boofcv {
 
             typename Kernel1D<E>::sum_type sum = kernel.sum();
 
-            for( uint32_t i = 0; i < kernel.width; i++ ) {
+            for( uint32_t i = 0; i < kernel.data.size; i++ ) {
                 kernel.data[i] /= sum;
             }
         }
-- 
2.43.0


From 8df7934103778428f36782dfaa8a111c06d82038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:33 +0000
Subject: [PATCH 44/47] fix: gaussian2D() didn't support an unspecified width

---
 boofcpp/src/boofcv/convolve_kernels.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 8b6ba98..23ca545 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -341,6 +341,7 @@ namespace boofcv {
                                       typename std::enable_if<std::is_floating_point<E>::value>::type* = 0 )
         {
             Kernel1D<E> seed = gaussian1D<E>(sigma,width);
+            width = (int32_t)seed.width; // it might have been selected using sigma
             Kernel2D<E> output(width,width/2);
 
             for( int i = 0; i < width; i++ ) {
-- 
2.43.0


From 686749bcab7fa471a86b928a7e7223a69762b00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:17 +0000
Subject: [PATCH 45/47] fix: assigning an image its own sub-image lost its
 pixels

---
 boofcpp/src/boofcv/image_types.h | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index c5a00b5..b163e1e 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -221,7 +221,18 @@ namespace boofcv {
         {
             if (this != &other) { // self-assignment check expected
                 if( other.subimage ) {
-                    if( !this->subimage && this->data != other.data )
+                    if( !this->subimage && this->data == other.data ) {
+                        // cropping itself. The pixels are still owned by this image
+                        for( uint32_t y = 0; y < other.height; y++ ) {
+                            std::memmove(this->data+y*other.width,other.data+other.offset+y*other.stride,sizeof(T)*other.width);
+                        }
+                        this->width = other.width;
+                        this->height = other.height;
+                        this->offset = 0;
+                        this->stride = other.width;
+                        return *this;
+                    }
+                    if( !this->subimage )
                         delete []this->data;
                     this->data = other.data;
                     this->data_length = other.data_length;
@@ -424,7 +435,19 @@ namespace boofcv {
         {
             if (this != &other) { // self-assignment check expected
                 if( other.subimage ) {
-                    if( !this->subimage && this->data != other.data )
+                    if( !this->subimage && this->data == other.data ) {
+                        // cropping itself. The pixels are still owned by this image
+                        for( uint32_t y = 0; y < other.height; y++ ) {
+                            std::memmove(this->data+y*other.width*other.num_bands,other.data+other.offset+y*other.stride,sizeof(T)*other.width*other.num_bands);
+                        }
+                        this->width = other.width;
+                        this->height = other.height;
+                        this->num_bands = other.num_bands;
+                        this->offset = 0;
+                        this->stride = other.width*other.num_bands;
+                        return *this;
+                    }
+                    if( !this->subimage )
                         delete []this->data;
                     this->data = other.data;
                     this->data_length = other.data_length;
-- 
2.43.0


From e88ec330153b35af379f52b01d53c0147544b118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:50 +0000
Subject: [PATCH 46/47] Restore benchmark/src/benchmark_common.cpp: files under
 benchmark/ are not to be changed

---
 benchmark/src/benchmark_common.cpp | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/benchmark/src/benchmark_common.cpp b/benchmark/src/benchmark_common.cpp
index 7316032..301a0c0 100644
--- a/benchmark/src/benchmark_common.cpp
+++ b/benchmark/src/benchmark_common.cpp
@@ -74,12 +74,7 @@ bool boofcv::load_jpeg( const char *filename , Interleaved<U8>& dst) {
         goto fail;
     }
 
-    try {
-        dst.reshape(dinfo.output_width, dinfo.output_height,(uint32_t)dinfo.output_components);
-    } catch( const std::exception& e ) {
-        fprintf(stderr, "load_jpeg: can't reshape the image: %s\n", e.what());
-        goto fail;
-    }
+    dst.reshape(dinfo.output_width, dinfo.output_height,(uint32_t)dinfo.output_components);
 
     for (y = 0; y < dinfo.output_height; y++) {
         JSAMPROW row_pointer = &dst.data[dst.offset + dst.stride*y];
@@ -87,14 +82,9 @@ bool boofcv::load_jpeg( const char *filename , Interleaved<U8>& dst) {
         jpeg_read_scanlines(&dinfo, &row_pointer, 1);
     }
 
+    fclose(infile);
     jpeg_finish_decompress(&dinfo);
-
-    // libjpeg only warns when data is missing or damaged and fills in the rest of the picture
-    if (err.base.num_warnings != 0)
-        goto fail;
-
     jpeg_destroy_decompress(&dinfo);
-    fclose(infile);
     return true;
 
     fail:
@@ -216,13 +206,8 @@ bool boofcv::load_png(const char *filename , Interleaved<U8>& dst)
         goto out;
     }
 
-    // everything is converted into 8bit grayscale, see above
-    try {
-        dst.reshape( (uint32_t)width, (uint32_t)height, 1);
-    } catch( const std::exception& e ) {
-        fprintf(stderr, "load_png: can't reshape the image: %s\n", e.what());
-        goto out;
-    }
+    // TODO determine the number of channels/bands
+    dst.reshape( (uint32_t)width, (uint32_t)height, 3);
 
     for (pass = 0; pass < number_passes; pass++) {
         int y;
-- 
2.43.0


From 42f55c4e375b3aad315e3672e94d7967f598378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:57 +0000
Subject: [PATCH 47/47] fix: the mean of a large block of 16-bit pixels
 overflowed

---
 boofcpp/src/boofcv/threshold_block_filters.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 4dd50bd..8d173a3 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -254,7 +254,9 @@ namespace boofcv
         void computeBlockStatistics(uint32_t x0, uint32_t y0, uint32_t width, uint32_t height, uint32_t indexStats,
                                     const Gray<E>& input) override {
             typedef typename TypeInfo<E>::sum_type sum_type;
-            sum_type sum = 0;
+            // the sum of a large block of 16-bit pixels doesn't fit in 32 bits
+            typename std::conditional<std::numeric_limits<sum_type>::is_integer,int64_t,sum_type>::type total = 0;
+            sum_type sum;
 
             for (uint32_t y = 0; y < height; y++) {
 //                int indexInput = input.offset + (y0+y)*input.stride + x0;
@@ -264,13 +266,13 @@ namespace boofcv
                 E* ptr = &input.data[input.offset + (y0+y)*input.stride + x0];
                 E* end = &ptr[width];
                 while( ptr != end ) {
-                    sum += *ptr++;
+                    total += *ptr++;
                 }
             }
             if( std::numeric_limits<sum_type>::is_integer )
-                sum = static_cast<sum_type>(scale*sum/(width*height)+0.5f);
+                sum = static_cast<sum_type>(scale*total/(width*height)+0.5f);
             else {
-                sum = static_cast<sum_type>(scale*sum/(width*height));
+                sum = static_cast<sum_type>(scale*total/(width*height));
             }
             // a scale larger than one can push the threshold past the largest pixel value
             this->stats.data[indexStats] = static_cast<E>(std::min(sum,static_cast<sum_type>(std::numeric_limits<E>::max())));
-- 
2.43.0

