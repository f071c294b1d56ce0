From 1f5de475c16ee4aa2ade8b3f819ed2c1dde24c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 01/56] fix: allocate the new capacity when growing an aligned
 Array

---
 il/container/1d/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index dea1df1..b48a761 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -947,7 +947,7 @@ void Array<T>::IncreaseCapacity(il::int_t r) {
     new_data = il::allocateArray<T>(r);
     new_shift = 0;
   } else {
-    new_data = il::allocateArray<T>(n, align_r_, align_mod_, il::io, new_shift);
+    new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
   }
   if (data_) {
     if (il::isTrivial<T>::value) {
-- 
2.43.0


From 8d84fe9cc6e551e2cbc04afc3a06add0461ca872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 02/56] fix: Array assignment and Set only assign to
 constructed elements

---
 il/container/1d/Array.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index b48a761..228a622 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -585,10 +585,14 @@ Array<T>& Array<T>::operator=(const Array<T>& v) {
     if (il::isTrivial<T>::value) {
       memcpy(data_, v.data_, n * sizeof(T));
     } else {
-      for (il::int_t i = 0; i < n; ++i) {
+      const il::int_t n_old = size();
+      for (il::int_t i = 0; i < n && i < n_old; ++i) {
         data_[i] = v.data_[i];
       }
-      for (il::int_t i = size() - 1; i >= n; --i) {
+      for (il::int_t i = n_old; i < n; ++i) {
+        new (data_ + i) T(v.data_[i]);
+      }
+      for (il::int_t i = n_old - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
     }
@@ -660,7 +664,7 @@ T& Array<T>::operator[](il::int_t i) {
 
 template <typename T>
 void Array<T>::Set(const T& x) {
-  for (il::int_t i = 0; i < capacity_ - data_; ++i) {
+  for (il::int_t i = 0; i < size(); ++i) {
     data_[i] = x;
   }
 }
-- 
2.43.0


From a6d883da5e3a9f8d255fc24011ab66a20e9b1c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 03/56] fix: grow Array only after the new elements are
 constructed

---
 il/container/1d/Array.h | 84 +++++++++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 33 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 228a622..9f6cd82 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -265,6 +265,14 @@ class Array {
    */
   void IncreaseCapacity(il::int_t r);
 
+  /* \brief Allocate some storage for r elements with the current alignment
+   */
+  T* AllocateStorage(il::int_t r, il::io_t, il::int_t& new_shift) const;
+
+  /* \brief Move the elements to some new storage and release the old one
+   */
+  void MoveToStorage(T* new_data, il::int_t r, il::int_t new_shift);
+
   /* \brief Used internally in debug mode to check the invariance of the object
    */
   bool invariance() const;
@@ -743,17 +751,13 @@ void Array<T>::Resize(il::int_t n, const T& x) {
       }
     }
   } else {
-    const il::int_t n_old = size();
-    IncreaseCapacity(n);
-    if (il::isTrivial<T>::value) {
-      for (il::int_t i = n_old; i < n; ++i) {
-        data_[i] = x;
-      }
-    } else {
-      for (il::int_t i = n_old; i < n; ++i) {
-        new (data_ + i) T{x};
-      }
+    // x might be an element of this array: it is read before it is moved
+    il::int_t new_shift;
+    T* new_data = AllocateStorage(n, il::io, new_shift);
+    for (il::int_t i = size(); i < n; ++i) {
+      new (new_data + i) T(x);
     }
+    MoveToStorage(new_data, n, new_shift);
   }
   size_ = data_ + n;
 }
@@ -777,17 +781,14 @@ void Array<T>::Resize(il::int_t n, il::emplace_t, Args&&... args) {
       }
     }
   } else {
-    const il::int_t n_old = size();
-    IncreaseCapacity(n);
-    if (il::isTrivial<T>::value) {
-      for (il::int_t i = n_old; i < n; ++i) {
-        data_[i] = T(std::forward<Args>(args)...);
-      }
-    } else {
-      for (il::int_t i = n_old; i < n; ++i) {
-        new (data_ + i) T(std::forward<Args>(args)...);
-      }
+    // args might refer to an element of this array: they are used before the
+    // elements are moved
+    il::int_t new_shift;
+    T* new_data = AllocateStorage(n, il::io, new_shift);
+    for (il::int_t i = size(); i < n; ++i) {
+      new (new_data + i) T(std::forward<Args>(args)...);
     }
+    MoveToStorage(new_data, n, new_shift);
   }
   size_ = data_ + n;
 };
@@ -837,13 +838,14 @@ void Array<T>::Append(T&& x) {
     if (error) {
       il::abort();
     }
-    IncreaseCapacity(new_capacity);
+    // x might be an element of this array: it is used before it is moved
+    il::int_t new_shift;
+    T* new_data = AllocateStorage(new_capacity, il::io, new_shift);
+    new (new_data + n) T(std::move(x));
+    MoveToStorage(new_data, new_capacity, new_shift);
+  } else {
+    new (size_) T(std::move(x));
   }
-  //  if (il::isTrivial<T>::value) {
-  //    *size_ = std::move(x);
-  //  } else {
-  new (size_) T(std::move(x));
-  //  }
   ++size_;
 }
 
@@ -859,9 +861,15 @@ void Array<T>::Append(il::emplace_t, Args&&... args) {
     if (error) {
       il::abort();
     }
-    IncreaseCapacity(new_capacity);
-  };
-  new (size_) T(std::forward<Args>(args)...);
+    // args might refer to an element of this array: they are used before the
+    // elements are moved
+    il::int_t new_shift;
+    T* new_data = AllocateStorage(new_capacity, il::io, new_shift);
+    new (new_data + n) T(std::forward<Args>(args)...);
+    MoveToStorage(new_data, new_capacity, new_shift);
+  } else {
+    new (size_) T(std::forward<Args>(args)...);
+  }
   ++size_;
 }
 
@@ -944,15 +952,25 @@ template <typename T>
 void Array<T>::IncreaseCapacity(il::int_t r) {
   IL_EXPECT_FAST(capacity() < r);
 
-  const il::int_t n = size();
-  T* new_data;
   il::int_t new_shift;
+  T* new_data = AllocateStorage(r, il::io, new_shift);
+  MoveToStorage(new_data, r, new_shift);
+}
+
+template <typename T>
+T* Array<T>::AllocateStorage(il::int_t r, il::io_t,
+                             il::int_t& new_shift) const {
   if (alignment_ == 0) {
-    new_data = il::allocateArray<T>(r);
     new_shift = 0;
+    return il::allocateArray<T>(r);
   } else {
-    new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
+    return il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
   }
+}
+
+template <typename T>
+void Array<T>::MoveToStorage(T* new_data, il::int_t r, il::int_t new_shift) {
+  const il::int_t n = size();
   if (data_) {
     if (il::isTrivial<T>::value) {
       memcpy(new_data, data_, n * sizeof(T));
-- 
2.43.0


From b677309f54d9c257325387417565eb6d898e9093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 04/56] fix: set the error flag on successful safeDivision and
 reject doubling that overflows

---
 il/core/math/safe_arithmetic.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/core/math/safe_arithmetic.h b/il/core/math/safe_arithmetic.h
index 0e68996..4be47d8 100644
--- a/il/core/math/safe_arithmetic.h
+++ b/il/core/math/safe_arithmetic.h
@@ -123,6 +123,7 @@ inline int safeDivision(int a, int b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -208,7 +209,7 @@ inline long safeDifference(long a, long b, il::io_t, bool& error) {
 
 inline long safeProduct2Positive(long a, il::io_t, bool& error) {
   const unsigned long ua = static_cast<unsigned long>(a);
-  constexpr unsigned long max = static_cast<unsigned long>(2)
+  constexpr unsigned long max = static_cast<unsigned long>(1)
                                 << (sizeof(unsigned long) * 8 - 2);
   if (ua < max) {
     error = false;
@@ -272,6 +273,7 @@ inline long safeDivision(long a, long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -402,6 +404,7 @@ inline long long safeDivision(long long a, long long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
-- 
2.43.0


From 38aec3bfb447997f08134e03b6afc0d24553f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 05/56] fix: do not square past the last bit in ipow

---
 il/math.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/il/math.h b/il/math.h
index fc77d85..46f4ccf 100644
--- a/il/math.h
+++ b/il/math.h
@@ -163,8 +163,10 @@ T ipow(T x, il::int_t n) {
     if (n & 1) {
       ans *= x;
     }
-    x *= x;
     n >>= 1;
+    if (n != 0) {
+      x *= x;
+    }
   }
   return ans;
 }
-- 
2.43.0


From 3d10805656652c9b0ead18062dbc2b6caf17a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 06/56] fix: abort when no element of an allocated block has
 the requested alignment

---
 il/core/memory/allocate.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/il/core/memory/allocate.h b/il/core/memory/allocate.h
index a83da2f..c02b672 100644
--- a/il/core/memory/allocate.h
+++ b/il/core/memory/allocate.h
@@ -83,10 +83,14 @@ T* allocateArray(il::int_t n, il::int_t align_r, il::int_t align_mod, il::io_t,
   const std::size_t align_r_unsigned = static_cast<std::size_t>(align_r);
   const std::size_t p_int = reinterpret_cast<std::size_t>(p);
   const std::size_t r = p_int % align_mod_unsigned;
-  const std::size_t local_shift =
-      align_r_unsigned >= r
-          ? (align_r_unsigned - r) / sizeof(T)
-          : (align_mod_unsigned - (r - align_r_unsigned)) / sizeof(T);
+  const std::size_t byte_shift =
+      align_r_unsigned >= r ? align_r_unsigned - r
+                            : align_mod_unsigned - (r - align_r_unsigned);
+  if (byte_shift % sizeof(T) != 0) {
+    // No element of this block has the requested alignment
+    il::abort();
+  }
+  const std::size_t local_shift = byte_shift / sizeof(T);
 
   IL_ENSURE(local_shift < static_cast<std::size_t>(align_mod));
 
-- 
2.43.0


From 286957d161810f2c7729ff8494a014b1861fdf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 07/56] fix: keep every column of an aligned 2D array without
 elements aligned

---
 il/container/2d/Array2C.h | 35 ++++++++++++++++++++++++----
 il/container/2d/Array2D.h | 49 +++++++++++++++++++++++++++++++++------
 2 files changed, 72 insertions(+), 12 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index d00efa3..1fa39d6 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -328,7 +328,12 @@ Array2C<T>::Array2C(il::int_t n0, il::int_t n1, il::align_t,
     r1 = 0;
   } else {
     r0 = (n0 == 0) ? 1 : n0;
-    r1 = (n1 == 0) ? 1 : n1;
+    r1 = n1;
+    if (n1 == 0) {
+      r1 = (alignment > 0) ? static_cast<il::int_t>(
+                                  static_cast<std::size_t>(alignment) / alignof(T))
+                            : 1;
+    }
   }
   bool error = false;
   const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -438,7 +443,12 @@ Array2C<T>::Array2C(il::int_t n0, il::int_t n1, const T& x, il::align_t,
     r1 = 0;
   } else {
     r0 = (n0 == 0) ? 1 : n0;
-    r1 = (n1 == 0) ? 1 : n1;
+    r1 = n1;
+    if (n1 == 0) {
+      r1 = (alignment > 0) ? static_cast<il::int_t>(
+                                  static_cast<std::size_t>(alignment) / alignof(T))
+                            : 1;
+    }
   }
   bool error = false;
   const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -563,7 +573,12 @@ Array2C<T>::Array2C(const Array2C<T>& A) {
     r1 = 0;
   } else {
     r0 = (n0 == 0) ? 1 : n0;
-    r1 = (n1 == 0) ? 1 : n1;
+    r1 = n1;
+    if (n1 == 0) {
+      r1 = (A.alignment_ > 0) ? static_cast<il::int_t>(
+                                  static_cast<std::size_t>(A.alignment_) / alignof(T))
+                            : 1;
+    }
   }
   bool error = false;
   const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -652,7 +667,12 @@ Array2C<T>& Array2C<T>::operator=(const Array2C<T>& A) {
         }
       } else {
         r0 = (n0 == 0) ? 1 : n0;
-        r1 = (n1 == 0) ? 1 : n1;
+        r1 = n1;
+        if (n1 == 0) {
+          r1 = (alignment > 0) ? static_cast<il::int_t>(
+                                      static_cast<std::size_t>(alignment) / alignof(T))
+                                : 1;
+        }
       }
       bool error = false;
       const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -840,7 +860,12 @@ void Array2C<T>::Resize(il::int_t n0, il::int_t n1) {
       r1 = 0;
     } else {
       r0 = (n0 == 0) ? 1 : n0;
-      r1 = (n1 == 0) ? 1 : n1;
+      r1 = n1;
+      if (n1 == 0) {
+        r1 = (alignment_ > 0) ? static_cast<il::int_t>(
+                                    static_cast<std::size_t>(alignment_) / alignof(T))
+                              : 1;
+      }
     }
     bool error = false;
     const il::int_t r = il::safeProduct(r0, r1, il::io, error);
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index a7a9b78..8635ffb 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -342,7 +342,12 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, il::align_t,
     r0 = 0;
     r1 = 0;
   } else {
-    r0 = (n0 == 0) ? 1 : n0;
+    r0 = n0;
+    if (n0 == 0) {
+      r0 = (alignment > 0) ? static_cast<il::int_t>(
+                                  static_cast<std::size_t>(alignment) / alignof(T))
+                            : 1;
+    }
     r1 = (n1 == 0) ? 1 : n1;
   }
   bool error = false;
@@ -485,7 +490,12 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, const T& x, il::align_t,
     r0 = 0;
     r1 = 0;
   } else {
-    r0 = (n0 == 0) ? 1 : n0;
+    r0 = n0;
+    if (n0 == 0) {
+      r0 = (alignment > 0) ? static_cast<il::int_t>(
+                                  static_cast<std::size_t>(alignment) / alignof(T))
+                            : 1;
+    }
     r1 = (n1 == 0) ? 1 : n1;
   }
   bool error = false;
@@ -610,7 +620,12 @@ Array2D<T>::Array2D(const Array2D<T>& A) {
     r0 = 0;
     r1 = 0;
   } else {
-    r0 = (n0 == 0) ? 1 : n0;
+    r0 = n0;
+    if (n0 == 0) {
+      r0 = (A.alignment_ > 0) ? static_cast<il::int_t>(
+                                  static_cast<std::size_t>(A.alignment_) / alignof(T))
+                            : 1;
+    }
     r1 = (n1 == 0) ? 1 : n1;
   }
   bool error = false;
@@ -699,7 +714,12 @@ Array2D<T>& Array2D<T>::operator=(const Array2D<T>& A) {
           r1 = n1;
         }
       } else {
-        r0 = (n0 == 0) ? 1 : n0;
+        r0 = n0;
+        if (n0 == 0) {
+          r0 = (alignment > 0) ? static_cast<il::int_t>(
+                                      static_cast<std::size_t>(alignment) / alignof(T))
+                                : 1;
+        }
         r1 = (n1 == 0) ? 1 : n1;
       }
       bool error = false;
@@ -878,7 +898,12 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1) {
       r0 = 0;
       r1 = 0;
     } else {
-      r0 = (n0 == 0) ? 1 : n0;
+      r0 = n0;
+      if (n0 == 0) {
+        r0 = (alignment_ > 0) ? static_cast<il::int_t>(
+                                    static_cast<std::size_t>(alignment_) / alignof(T))
+                              : 1;
+      }
       r1 = (n1 == 0) ? 1 : n1;
     }
     bool error = false;
@@ -993,7 +1018,12 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
       r0 = 0;
       r1 = 0;
     } else {
-      r0 = (n0 == 0) ? 1 : n0;
+      r0 = n0;
+      if (n0 == 0) {
+        r0 = (alignment_ > 0) ? static_cast<il::int_t>(
+                                    static_cast<std::size_t>(alignment_) / alignof(T))
+                              : 1;
+      }
       r1 = (n1 == 0) ? 1 : n1;
     }
     bool error = false;
@@ -1106,7 +1136,12 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
       r0 = 0;
       r1 = 0;
     } else {
-      r0 = (n0 == 0) ? 1 : n0;
+      r0 = n0;
+      if (n0 == 0) {
+        r0 = (alignment_ > 0) ? static_cast<il::int_t>(
+                                    static_cast<std::size_t>(alignment_) / alignof(T))
+                              : 1;
+      }
       r1 = (n1 == 0) ? 1 : n1;
     }
     bool error = false;
-- 
2.43.0


From d530e784ac7b33790e72f835957e69127f8b9d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 08/56] fix: use the alignment of the source in the copy
 constructor of Array2C

---
 il/container/2d/Array2C.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 1fa39d6..fe07383 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -558,7 +558,7 @@ Array2C<T>::Array2C(const Array2C<T>& A) {
     if (il::isTrivial<T>::value && A.align_mod_ != 0) {
       r0 = n0;
       const il::int_t nb_lanes = static_cast<il::int_t>(
-          static_cast<std::size_t>(alignment_) / alignof(T));
+          static_cast<std::size_t>(A.alignment_) / alignof(T));
       bool error = false;
       r1 = il::safeUpperRound(n1, nb_lanes, il::io, error);
       if (error) {
-- 
2.43.0


From 6c31ca280b1bf99746bfc1b836861560e582fdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 09/56] fix: construct the new elements when assigning a larger
 2D array of objects within the capacity

---
 il/container/2d/Array2C.h | 6 +++++-
 il/container/2d/Array2D.h | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index fe07383..613cdc7 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -727,7 +727,11 @@ Array2C<T>& Array2C<T>::operator=(const Array2C<T>& A) {
       } else {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
-            data_[i0 * capacity(1) + i1] = A(i0, i1);
+            if (i0 < size(0) && i1 < size(1)) {
+              data_[i0 * capacity(1) + i1] = A(i0, i1);
+            } else {
+              new (data_ + i0 * capacity(1) + i1) T(A(i0, i1));
+            }
           }
         }
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 8635ffb..f8d4cf2 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -775,7 +775,11 @@ Array2D<T>& Array2D<T>::operator=(const Array2D<T>& A) {
       } else {
         for (il::int_t i1 = 0; i1 < n1; ++i1) {
           for (il::int_t i0 = 0; i0 < n0; ++i0) {
-            data_[i1 * capacity(0) + i0] = A(i0, i1);
+            if (i0 < size(0) && i1 < size(1)) {
+              data_[i1 * capacity(0) + i0] = A(i0, i1);
+            } else {
+              new (data_ + i1 * capacity(0) + i0) T(A(i0, i1));
+            }
           }
         }
         for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
-- 
2.43.0


From b15c99a1460712e0e7afacf2ff6b85ebeb45105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 10/56] fix: an aligned 2D array without storage is a legal
 state

---
 il/container/2d/Array2C.h | 3 ---
 il/container/2d/Array2D.h | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 613cdc7..2a2774d 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -1115,9 +1115,6 @@ bool Array2C<T>::invariance() const {
     ans = ans && (size_[1] == nullptr);
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
-    ans = ans && (align_mod_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (alignment_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index f8d4cf2..396a3ff 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1406,9 +1406,6 @@ bool Array2D<T>::invariance() const {
     ans = ans && (size_[1] == nullptr);
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
-- 
2.43.0


From 43010f29ea42ceb145f77675eccdf559b0811612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 11/56] fix: check the range and use the stride in the column
 views of Array2D

---
 il/container/2d/Array2D.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 396a3ff..3c26928 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1309,7 +1309,14 @@ il::Array2DView<T> Array2D<T>::view() const {
 
 template <typename T>
 il::ArrayView<T> Array2D<T>::view(il::Range range0, il::int_t i1) const {
-  return il::ArrayView<T>{data() + i1 * size(0) + range0.begin,
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.begin) <
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.end) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
+  return il::ArrayView<T>{data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
@@ -1360,7 +1367,14 @@ il::Array2DEdit<T> Array2D<T>::Edit(il::Range range0, il::Range range1) {
 
 template <typename T>
 il::ArrayEdit<T> Array2D<T>::Edit(il::Range range0, il::int_t i1) {
-  return il::ArrayEdit<T>{data() + i1 * stride(1) + range0.begin,
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.begin) <
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.end) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
+  return il::ArrayEdit<T>{Data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
-- 
2.43.0


From 63edb02cf136715b3ff1625b3fd6b2e5889f3551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:35 +0000
Subject: [PATCH 12/56] fix: Array2CEdit::Edit addresses rows with the row
 stride

---
 il/container/2d/Array2CView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2CView.h b/il/container/2d/Array2CView.h
index ac65e44..f58d2b6 100644
--- a/il/container/2d/Array2CView.h
+++ b/il/container/2d/Array2CView.h
@@ -235,8 +235,8 @@ Array2CEdit<T> Array2CEdit<T>::Edit(il::Range r0, il::Range r1) {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(r1.end) <=
                    static_cast<std::size_t>(this->size(1)));
 
-  const il::int_t my_stride = this->stride(1);
-  return il::Array2CEdit<T>{Data() + r0.begin + r1.begin * my_stride,
+  const il::int_t my_stride = this->stride(0);
+  return il::Array2CEdit<T>{Data() + r0.begin * my_stride + r1.begin,
                             r0.end - r0.begin,
                             r1.end - r1.begin,
                             my_stride,
-- 
2.43.0


From 5e82a9d57cd09faea0e2e37ca053ac6aec6fe059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:09 +0000
Subject: [PATCH 13/56] fix: reserving a 2D array with one extent 0 leaves a
 legal state

---
 il/container/2d/Array2C.h | 3 +++
 il/container/2d/Array2D.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 2a2774d..9830e3b 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -971,6 +971,9 @@ void Array2C<T>::Reserve(il::int_t r0, il::int_t r1) {
   if (need_memory) {
     const il::int_t n0_old = size(0);
     const il::int_t n1_old = size(1);
+    // There is no storage without at least one row and one column
+    r0 = (r0 == 0) ? 1 : r0;
+    r1 = (r1 == 0) ? 1 : r1;
     if (il::isTrivial<T>::value && alignment_ != 0) {
       const il::int_t nb_lanes = static_cast<il::int_t>(
           static_cast<std::size_t>(alignment_) / alignof(T));
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 3c26928..f9ca042 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1245,6 +1245,9 @@ void Array2D<T>::Reserve(il::int_t r0, il::int_t r1) {
   if (need_memory) {
     const il::int_t n0_old = size(0);
     const il::int_t n1_old = size(1);
+    // There is no storage without at least one row and one column
+    r0 = (r0 == 0) ? 1 : r0;
+    r1 = (r1 == 0) ? 1 : r1;
     if (il::isTrivial<T>::value && alignment_ != 0) {
       const il::int_t nb_lanes = static_cast<il::int_t>(
           static_cast<std::size_t>(alignment_) / alignof(T));
-- 
2.43.0


From b0784f8f48f11cb898e1896e11ef0835dab899f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 14/56] fix: SmallArray move assignment empties its source
 instead of itself

---
 il/container/1d/SmallArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index bc51f0a..d3ab9f4 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -405,7 +405,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       } else {
         for (il::int_t i = n - 1; i >= 0; --i) {
           new (data_ + i) T(std::move(A.data_[i]));
-          (data_ + i)->~T();
+          (A.data_ + i)->~T();
         }
       }
       size_ = data_ + n;
@@ -415,7 +415,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       size_ = A.size_;
       capacity_ = A.capacity_;
     }
-    data_ = reinterpret_cast<T*>(small_data_);
+    A.data_ = reinterpret_cast<T*>(A.small_data_);
     A.size_ = A.data_ + 0;
     A.capacity_ = A.data_ + small_size;
   }
-- 
2.43.0


From 27371a44542455f0d9f54cb0a9eb880ba76e2acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 15/56] fix: SmallArray::Resize within the capacity keeps the
 surviving elements

---
 il/container/1d/SmallArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index d3ab9f4..a514866 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -479,7 +479,7 @@ void SmallArray<T, small_size>::Resize(il::int_t n) {
       }
 #endif
     } else {
-      for (il::int_t i = size() - 1; i >= 0; --i) {
+      for (il::int_t i = size() - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
       for (il::int_t i = size(); i < n; ++i) {
-- 
2.43.0


From 186f5c54906891b5ff9ffeebbbbb0a3105f4eccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 16/56] fix: SmallArray copy assignment constructs the elements
 it adds

---
 il/container/1d/SmallArray.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index a514866..798250b 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -367,14 +367,18 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       size_ = data_ + n;
       capacity_ = data_ + n;
     } else {
+      const il::int_t n_old = size();
       if (!il::isTrivial<T>::value) {
-        for (il::int_t i = size() - 1; i >= n; --i) {
+        for (il::int_t i = n_old - 1; i >= n; --i) {
           (data_ + i)->~T();
         }
       }
-      for (il::int_t i = 0; i < n; ++i) {
+      for (il::int_t i = 0; i < (n < n_old ? n : n_old); ++i) {
         data_[i] = A.data_[i];
       }
+      for (il::int_t i = n_old; i < n; ++i) {
+        new (data_ + i) T(A.data_[i]);
+      }
       size_ = data_ + n;
     }
   }
-- 
2.43.0


From a6e7364f58de4ef761e951d817b0061a10a06d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 17/56] fix: SmallArray::Append accepts arguments from the
 array itself

---
 il/container/1d/SmallArray.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index 798250b..86d6de8 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -554,9 +554,12 @@ void SmallArray<T, small_size>::Append(Args&&... args) {
     if (error) {
       il::abort();
     }
+    T x_new(args...);
     IncreaseCapacity(new_capacity);
-  };
-  new (size_) T(args...);
+    new (size_) T(std::move(x_new));
+  } else {
+    new (size_) T(args...);
+  }
   ++size_;
 }
 
-- 
2.43.0


From c96698a488bc6cf716ebf0bba186ac3407b037fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 18/56] fix: String::Append(n, rune) records the n appended
 ASCII characters

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 38fff8c..11f74d0 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -606,7 +606,7 @@ inline void String::Append(il::int_t n, int rune) {
       p[old_n + k] = static_cast<char>(rune);
     }
     p[old_n + n] = '\0';
-    SetInvariant(il::unsafe, t, old_n + 1);
+    SetInvariant(il::unsafe, t, old_n + n);
   } else if (urune < 0x00000800u) {
     Grow(il::unsafe, old_n, old_n + 2 * n);
     char* p = Data();
-- 
2.43.0


From c5a8f9d5213459cf8a70ff63a3dbff8c9a484e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 19/56] fix: String::Append(n, rune) makes room for n 3-byte
 runes

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 11f74d0..0750063 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -619,7 +619,7 @@ inline void String::Append(il::int_t n, int rune) {
     SetInvariant(il::unsafe, il::joinType(t, il::StringType::Utf8),
                  old_n + 2 * n);
   } else if (urune < 0x00010000u) {
-    Grow(il::unsafe, old_n, old_n + 3);
+    Grow(il::unsafe, old_n, old_n + 3 * n);
     char* p = Data();
     for (il::int_t k = 0; k < n; ++k) {
       p[old_n + 3 * k] = static_cast<char>((urune >> 12) | 0x000000E0u);
-- 
2.43.0


From b6d6e3f7b22db1f8a360c950d6775e77fa2b06a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 20/56] fix: String::Append(n, c) refuses a negative count

---
 il/container/string/String.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 0750063..92d4123 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -579,6 +579,7 @@ inline void String::Append(int rune) {
 }
 
 inline void String::Append(il::int_t n, char c) {
+  IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
 
   const il::int_t old_n = size();
-- 
2.43.0


From 0bbe3476c83fbeeaa434042b69d78cd2e0c974c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 21/56] fix: String::Grow does not drop the heap block of a
 short string

---
 il/container/string/String.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 92d4123..5059b25 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1058,10 +1058,7 @@ inline void String::Grow(il::unsafe_t, il::int_t n_to_copy, il::int_t n) {
   const bool old_is_small = isSmall();
   char* old_data = Data();
   const il::int_t old_capacity = capacity();
-  if (n <= max_small_size_) {
-    if (!old_is_small) {
-      std::memcpy(small_, old_data, n_to_copy);
-    }
+  if (old_is_small && n <= max_small_size_) {
     setSmall(il::StringType::Byte, n);
   } else if (n <= old_capacity) {
     setLarge(il::StringType::Byte, n, old_capacity);
-- 
2.43.0


From ef609cca10f18da8fbc69dbeba9d0703b7de8b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 22/56] fix: String self-assignment does not read released
 memory

---
 il/container/string/String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 5059b25..34a46cb 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -404,6 +404,9 @@ inline String& String::operator=(const char (&data)[m]) {
 }
 
 inline String& String::operator=(const String& s) {
+  if (this == &s) {
+    return *this;
+  }
   const il::int_t size = s.size();
   const il::StringType type = s.type();
   if (size <= max_small_size_) {
-- 
2.43.0


From a43a1515f730937975dc4ca775cd6f9f8e0eadb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 23/56] fix: moving a short string held on the heap does not
 leak its block

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 34a46cb..e0c1dfe 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -362,7 +362,7 @@ inline String::String(const String& s) : String{s.type(), s.data(), s.size()} {}
 inline String::String(String&& s) {
   const il::int_t size = s.size();
   const il::StringType type = s.type();
-  if (size <= max_small_size_) {
+  if (s.isSmall()) {
     std::memcpy(small_, s.asCString(), size + 1);
     setSmall(type, size);
   } else {
-- 
2.43.0


From 8e16aa5f65348e956b63002d488507fed08d1035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 24/56] fix: String move assignment releases its previous block

---
 il/container/string/String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index e0c1dfe..47a9815 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -444,6 +444,9 @@ inline String& String::operator=(String&& s) {
       std::memcpy(small_, s.data(), size + 1);
       setSmall(type, size);
     } else {
+      if (!isSmall()) {
+        il::deallocate(large_.data);
+      }
       large_.data = s.large_.data;
       large_.size = s.large_.size;
       large_.capacity = s.large_.capacity;
-- 
2.43.0


From 7a4f4f92eec8c468864c5c4b578e9aca748998cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 25/56] fix: String substring and subview read the heap block
 of long strings

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 47a9815..24db667 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -927,7 +927,7 @@ inline il::String String::substring(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::String{type(), small_ + i0, i1 - i0};
+  return il::String{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
@@ -941,7 +941,7 @@ inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::StringView{type(), small_ + i0, i1 - i0};
+  return il::StringView{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::view() const {
-- 
2.43.0


From ecf921b5a67ed075b7cbce27bdbac4eef6d6d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 26/56] fix: String::endsWith(c) looks at the last character

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 24db667..17ed40a 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1002,7 +1002,7 @@ inline bool String::endsWith(char c) const {
     return false;
   }
   const char* s = data();
-  if (*s == 'c') {
+  if (s[n - 1] == c) {
     return true;
   } else {
     return false;
-- 
2.43.0


From 8bd955415289efda3ec338190d0ae8c48cabcbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 27/56] fix: String::isEqual compares the lengths

---
 il/container/string/String.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 17ed40a..115c254 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1023,10 +1023,13 @@ inline bool String::isEqual(const char* s) const {
     }
     ++i;
   }
-  return ans;
+  return ans && i == size();
 }
 
 inline bool String::isEqual(const char* s, il::int_t n) const {
+  if (n != size()) {
+    return false;
+  }
   bool ans = true;
   const char* p = data();
   il::int_t i = 0;
-- 
2.43.0


From 85bd5d01aba65118155a0113ee8e3cc4c2035bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 28/56] fix: StringView comparison with a C string compares the
 lengths

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 115c254..7fbe7ff 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1440,7 +1440,7 @@ inline bool StringView::operator==(const char* string) const {
     }
     ++k;
   }
-  return match;
+  return match && k == size() && string[k] == '\0';
 }
 
 inline const char* StringView::asCString() const {
-- 
2.43.0


From ef2a96a74e7e44bcc253fb757213478c1f961362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 29/56] fix: isRune excludes all surrogates

---
 il/container/string/String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 7fbe7ff..5308e9c 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -233,11 +233,11 @@ class StringView {
 
 inline bool isRune(int rune) {
   const unsigned int code_point_max = 0x0010FFFFu;
-  const unsigned int lead_surrogate_min = 0x0000D800u;
-  const unsigned int lead_surrogate_max = 0x0000DBFFu;
+  const unsigned int surrogate_min = 0x0000D800u;
+  const unsigned int surrogate_max = 0x0000DFFFu;
   const unsigned int urune = static_cast<unsigned int>(rune);
   return urune <= code_point_max &&
-         (urune < lead_surrogate_min || urune > lead_surrogate_max);
+         (urune < surrogate_min || urune > surrogate_max);
 }
 
 inline bool isAscii(const char* s, il::int_t n) {
-- 
2.43.0


From ead1375072b4027ec067c4d487b56d4da29779a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 30/56] fix: a string can be appended pieces of itself

---
 il/container/string/String.h | 84 ++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 47 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 5308e9c..06d8840 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -162,6 +162,8 @@ class String {
   void SetInvariant(il::unsafe_t, il::StringType type, il::int_t n);
 
  private:
+  void AppendBytes(il::StringType t, const char* s0, il::int_t n0,
+                   const char* s1, il::int_t n1, const char* s2, il::int_t n2);
   il::int_t smallSize() const;
   il::int_t largeCapacity() const;
   // Does not set the '\0'. You are responsible for that.
@@ -659,79 +661,67 @@ inline void String::Append(il::int_t n, int rune) {
 
 template <il::int_t m>
 inline void String::Append(const char (&s0)[m]) {
-  const il::int_t old_n = size();
-  const il::int_t n0 = m - 1;
   const il::StringType t = joinType(type(), il::StringType::Utf8);
-  Grow(il::unsafe, old_n, old_n + n0);
-  char* p = Data();
-  std::memcpy(p + old_n, s0, n0);
-  p[old_n + n0] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n0);
+  AppendBytes(t, s0, m - 1, nullptr, 0, nullptr, 0);
 }
 
 template <il::int_t m>
 inline void String::Append(il::StringType t0, const char (&s0)[m]) {
-  const il::int_t old_n = size();
-  const il::int_t n0 = m - 1;
   const il::StringType t = joinType(type(), t0);
-  Grow(il::unsafe, old_n, old_n + n0);
-  char* p = Data();
-  std::memcpy(p + old_n, s0, n0);
-  p[old_n + n0] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n0);
+  AppendBytes(t, s0, m - 1, nullptr, 0, nullptr, 0);
 }
 
 inline void String::Append(il::StringType t0, const char* data, il::int_t n) {
   IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_AXIOM("data must point to an array of length at least n");
 
-  const il::int_t old_n = size();
   const il::StringType t = joinType(type(), t0);
-  Grow(il::unsafe, old_n, old_n + n);
-  char* p = this->Data();
-  std::memcpy(p + old_n, data, n);
-  p[old_n + n] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n);
+  AppendBytes(t, data, n, nullptr, 0, nullptr, 0);
 }
 
 inline void String::Append(const StringView& s0) {
-  const il::int_t old_n = size();
-  const il::int_t n0 = s0.size();
   const il::StringType t = joinType(type(), s0.type());
-  Grow(il::unsafe, old_n, old_n + n0);
-  char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
-  p[old_n + n0] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n0);
+  AppendBytes(t, s0.data(), s0.size(), nullptr, 0, nullptr, 0);
 }
 
 inline void String::Append(const StringView& s0, const StringView& s1) {
-  const il::int_t old_n = size();
-  const il::int_t n0 = s0.size();
-  const il::int_t n1 = s1.size();
   const il::StringType t = joinType(type(), s0.type(), s1.type());
-  Grow(il::unsafe, old_n, old_n + n0 + n1);
-  char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
-  std::memcpy(p + old_n + n0, s1.data(), n1);
-  p[old_n + n0 + n1] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n0 + n1);
+  AppendBytes(t, s0.data(), s0.size(), s1.data(), s1.size(), nullptr, 0);
 }
 
 inline void String::Append(const StringView& s0, const StringView& s1,
                            const StringView& s2) {
-  const il::int_t old_n = size();
-  const il::int_t n0 = s0.size();
-  const il::int_t n1 = s1.size();
-  const il::int_t n2 = s2.size();
   const il::StringType t = joinType(type(), s0.type(), s1.type(), s2.type());
-  Grow(il::unsafe, old_n, old_n + n0 + n1 + n2);
-  char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
-  std::memcpy(p + old_n + n0, s1.data(), n1);
-  std::memcpy(p + old_n + n0 + n1, s2.data(), n2);
-  p[old_n + n0 + n1 + n2] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n0 + n1 + n2);
+  AppendBytes(t, s0.data(), s0.size(), s1.data(), s1.size(), s2.data(),
+              s2.size());
+}
+
+// The pieces may belong to the string itself: when the capacity is exceeded,
+// its storage is released once they have been copied
+inline void String::AppendBytes(il::StringType t, const char* s0, il::int_t n0,
+                                const char* s1, il::int_t n1, const char* s2,
+                                il::int_t n2) {
+  const il::int_t old_n = size();
+  const il::int_t n = old_n + n0 + n1 + n2;
+  const bool in_place = n <= capacity();
+  const il::int_t r = in_place ? capacity() : nextCapacity(n);
+  char* p = in_place ? Data() : il::allocateArray<char>(r + 1);
+  if (!in_place) {
+    std::memcpy(p, Data(), old_n);
+  }
+  std::memcpy(p + old_n, s0, n0);
+  std::memcpy(p + old_n + n0, s1, n1);
+  std::memcpy(p + old_n + n0 + n1, s2, n2);
+  p[n] = '\0';
+  if (in_place) {
+    SetInvariant(il::unsafe, t, n);
+  } else {
+    if (!isSmall()) {
+      il::deallocate(large_.data);
+    }
+    large_.data = p;
+    setLarge(t, n, r);
+  }
 }
 
 inline void String::Insert(il::int_t i, char c) {
-- 
2.43.0


From 3fa74b65e4fe975fea674483c3b2f43c40d3d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 31/56] fix: UTF16String::validRune excludes all surrogates

---
 il/container/string/UTF16String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 89cf524..a9aac1f 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -426,11 +426,11 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
 
 inline bool UTF16String::validRune(int cp) const {
   const unsigned int code_point_max = 0x0010FFFFu;
-  const unsigned int lead_surrogate_min = 0x0000D800u;
-  const unsigned int lead_surrogate_max = 0x0000DBFFu;
+  const unsigned int surrogate_min = 0x0000D800u;
+  const unsigned int surrogate_max = 0x0000DFFFu;
   const unsigned int ucp = static_cast<unsigned int>(cp);
   return ucp <= code_point_max &&
-         (ucp < lead_surrogate_min || ucp > lead_surrogate_max);
+         (ucp < surrogate_min || ucp > surrogate_max);
 }
 }  // namespace il
 
-- 
2.43.0


From bccdf9183e143a056afad2cc4e08418712dcf4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 32/56] fix: UTF16String::Append(n, c) makes room for the n
 characters and records them

---
 il/container/string/UTF16String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index a9aac1f..b9207d6 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -272,7 +272,7 @@ inline void UTF16String::Append(il::int_t n, char c) {
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
 
   const il::int_t old_size = size();
-  const il::int_t new_size = old_size + 1;
+  const il::int_t new_size = old_size + n;
   const il::int_t new_capacity = il::max(new_size, 2 * old_size);
   Reserve(new_capacity);
   unsigned short* data = Data() + old_size;
-- 
2.43.0


From 2465c96f9368fcc875642eb0572fe91b2ccec7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 33/56] fix: UTF16String::Append(n, cp) appends the code point
 n times

---
 il/container/string/UTF16String.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index b9207d6..754169f 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -321,8 +321,9 @@ inline void UTF16String::Append(il::int_t n, int cp) {
   IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(validRune(cp));
 
-  IL_UNUSED(n);
-  IL_UNUSED(cp);
+  for (il::int_t i = 0; i < n; ++i) {
+    Append(cp);
+  }
 }
 
 inline const unsigned short* UTF16String::data() const {
-- 
2.43.0


From c15fed39f3593866ba2206079d2dfff5a438060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 34/56] fix: UTF16String move assignment releases its previous
 block

---
 il/container/string/UTF16String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 754169f..f24337f 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -182,6 +182,9 @@ inline UTF16String& UTF16String::operator=(UTF16String&& s) {
       std::memcpy(data_, s.Data(), 2 * (static_cast<std::size_t>(size) + 1));
       SetSmallSize(size);
     } else {
+      if (!isSmall()) {
+        il::deallocate(large_.data);
+      }
       large_.data = s.large_.data;
       large_.size = s.large_.size;
       large_.capacity = s.large_.capacity;
-- 
2.43.0


From e614bf9f87d03ca55418d893e8cb26d846087ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 35/56] fix: UTF16String self-assignment does not read released
 memory

---
 il/container/string/UTF16String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index f24337f..a4bd994 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -146,6 +146,9 @@ inline UTF16String::UTF16String(UTF16String&& s) {
 }
 
 inline UTF16String& UTF16String::operator=(const UTF16String& s) {
+  if (this == &s) {
+    return *this;
+  }
   const il::int_t size = s.size();
   if (size <= max_small_size_) {
     if (!isSmall()) {
-- 
2.43.0


From 2a107b5073d04a724c9b9925f91a1d5275350e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 36/56] fix: toUtf8 and toUtf16 do not add a null character to
 the string

---
 il/container/string/unicode.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/il/container/string/unicode.h b/il/container/string/unicode.h
index 34e6728..37f390c 100644
--- a/il/container/string/unicode.h
+++ b/il/container/string/unicode.h
@@ -92,7 +92,6 @@ inline il::UTF16String toUtf16(const il::String& string) {
   for (il::int_t i = 0; i < view.size(); i = view.nextRune(i)) {
     ans.Append(view.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
@@ -102,7 +101,6 @@ inline il::String toUtf8(const il::UTF16String& string) {
   for (il::int_t i = 0; i < string.size(); i = string.nextRune(i)) {
     ans.Append(string.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
-- 
2.43.0


From 353b6ba20913986ce8f2f4e0cba48011744ba9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 37/56] fix: toString(int_t) has room for every integer

---
 il/container/string/algorithmString.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/algorithmString.h b/il/container/string/algorithmString.h
index 20a852e..37fe085 100644
--- a/il/container/string/algorithmString.h
+++ b/il/container/string/algorithmString.h
@@ -26,8 +26,8 @@
 namespace il {
 
 inline il::String toString(il::int_t n) {
-  il::String ans{il::unsafe, 11};
-  const il::int_t m = std::snprintf(ans.Data(), 11 + 1, "%td", n);
+  il::String ans{il::unsafe, 20};
+  const il::int_t m = std::snprintf(ans.Data(), 20 + 1, "%td", n);
   ans.SetInvariant(il::unsafe, il::StringType::Ascii, m);
 
   IL_ENSURE(m > 0);
-- 
2.43.0


From aca18683c08b86745793fc2cad7c54151c8f37e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 38/56] fix: an UTF-16 string can be appended to itself

---
 il/container/string/UTF16String.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index a4bd994..49162f4 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -417,10 +417,20 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
   IL_EXPECT_AXIOM("data must point to an array of length at least n");
 
   const il::int_t old_size = size();
-  const il::int_t new_capacity = il::max(old_size + n, 2 * old_size);
-  Reserve(new_capacity);
-
-  if (isSmall()) {
+  if (old_size + n > capacity()) {
+    // data may belong to the string itself
+    const il::int_t new_capacity = il::max(old_size + n, 2 * old_size);
+    unsigned short* new_data = il::allocateArray<unsigned short>(new_capacity + 1);
+    std::memcpy(new_data, this->data(), 2 * static_cast<std::size_t>(old_size));
+    std::memcpy(new_data + old_size, data, 2 * static_cast<std::size_t>(n));
+    new_data[old_size + n] = static_cast<unsigned short>('\0');
+    if (!isSmall()) {
+      il::deallocate(large_.data);
+    }
+    large_.data = new_data;
+    large_.size = old_size + n;
+    SetLargeCapacity(new_capacity);
+  } else if (isSmall()) {
     std::memcpy(data_ + old_size, data, 2 * static_cast<std::size_t>(n));
     data_[old_size + n] = static_cast<unsigned short>('\0');
     SetSmallSize(old_size + n);
-- 
2.43.0


From 63f237283c4b635fe947886143e912670ef61960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 39/56] fix: min, max and maxAbs do not truncate the elements
 to integers

---
 il/algorithm/algorithmArray.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 606ab1c..8cac49c 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -31,7 +31,7 @@ template <typename T>
 T min(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t min_value = v[0];
+  T min_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -44,7 +44,7 @@ template <typename T>
 T min(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t min_value = v[range.begin];
+  T min_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -57,7 +57,7 @@ template <typename T>
 T max(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = v[0];
+  T max_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -70,7 +70,7 @@ template <typename T>
 T max(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = v[range.begin];
+  T max_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -83,7 +83,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = il::abs(v[0]);
+  T max_value = il::abs(v[0]);
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
@@ -96,7 +96,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = il::abs(v[range.begin]);
+  T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = il::abs(v[i]);
-- 
2.43.0


From d34f557b060ac60fa259e7016e71743a40b9a28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 40/56] fix: maxAbs over a range compares absolute values

---
 il/algorithm/algorithmArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 8cac49c..632a33a 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -98,7 +98,7 @@ T maxAbs(const il::Array<T>& v, il::Range range) {
 
   T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
-    if (v[i] > max_value) {
+    if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
     }
   }
-- 
2.43.0


From d5aa578d981285e55da8637c9db9a81677aaea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 41/56] fix: minMax over a range starts from the first element
 of the range

---
 il/algorithm/algorithmArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 632a33a..db487e3 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -221,11 +221,11 @@ MinMax<T> minMax(const il::Array<T>& v) {
 
 template <typename T>
 MinMax<T> minMax(const il::Array<T>& v, il::Range range) {
-  IL_EXPECT_FAST(v.size() > 0);
+  IL_EXPECT_FAST(range.begin < range.end);
 
   MinMax<T> ans{};
   ans.min = v[range.begin];
-  ans.max = v[range.end];
+  ans.max = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < ans.min) {
       ans.min = v[i];
-- 
2.43.0


From 96aa72c17c0f250c862d9bc18c61ed3df5661bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 42/56] fix: sorting a small range leaves the elements before
 it in place

---
 il/algorithm/algorithmArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index db487e3..0674dbf 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -249,7 +249,7 @@ void sort_aux(il::Range range, il::io_t, il::Array<T>& v) {
   } else if (range.end - range.begin <= 15) {
     for (il::int_t i = range.begin + 1; i < range.end; ++i) {
       il::int_t j = i;
-      while (j > 0 && v[j - 1] > v[j]) {
+      while (j > range.begin && v[j - 1] > v[j]) {
         const T aux = v[j];
         v[j] = v[j - 1];
         v[j - 1] = aux;
-- 
2.43.0


From 0688c0618add74e8a42abceaded32a6730830343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 43/56] fix: pushing at the back of a full deque aborts instead
 of overwriting its front

---
 il/container/deque/Deque.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index e609004..df851e2 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -133,7 +133,8 @@ void Deque<T>::PushBack(const T& x) {
     data_[0] = x;
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ + 1 < front_ ||
+             (front_ <= back_ && back_ + 1 < data_.size())) {
     ++back_;
     data_[back_] = x;
   } else if (back_ + 1 == data_.size()) {
@@ -155,7 +156,8 @@ void Deque<T>::PushBack(il::emplace_t, Args&&... args) {
     data_[0] = T(std::forward<Args>(args)...);
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ + 1 < front_ ||
+             (front_ <= back_ && back_ + 1 < data_.size())) {
     ++back_;
     data_[back_] = T(std::forward<Args>(args)...);
   } else if (back_ + 1 == data_.size()) {
-- 
2.43.0


From a97070a3b5654363f1de2f4e69e0ac9cc283820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 44/56] fix: popping the only element at the back leaves an
 empty deque

---
 il/container/deque/Deque.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index df851e2..78446b4 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -218,7 +218,10 @@ template <typename T>
 void Deque<T>::PopBack() {
   IL_EXPECT_MEDIUM(size() > 0);
 
-  if (back_ > 0) {
+  if (size() == 1) {
+    front_ = -1;
+    back_ = -1;
+  } else if (back_ > 0) {
     --back_;
   } else {
     back_ = data_.size() - 1;
-- 
2.43.0


From 98cdc924b0d7df100e0790279e64e689cb5fef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 45/56] fix: assigning a packed triangular matrix copies all of
 its elements

---
 il/container/2d/LowerArray2D.h | 2 +-
 il/container/2d/UpperArray2D.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/LowerArray2D.h b/il/container/2d/LowerArray2D.h
index 1f5a114..a26e436 100644
--- a/il/container/2d/LowerArray2D.h
+++ b/il/container/2d/LowerArray2D.h
@@ -176,7 +176,7 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         for (il::int_t k = 0; k < nb_elements; ++k) {
           data_[k] = A.data_[k];
diff --git a/il/container/2d/UpperArray2D.h b/il/container/2d/UpperArray2D.h
index 912d669..d29a921 100644
--- a/il/container/2d/UpperArray2D.h
+++ b/il/container/2d/UpperArray2D.h
@@ -176,7 +176,7 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         for (il::int_t k = 0; k < nb_elements; ++k) {
           data_[k] = A.data_[k];
-- 
2.43.0


From ef43ea8354f41663e408a1dd381278822d7bb640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 46/56] fix: assigning a packed triangular matrix of class type
 destroys and constructs the elements it has

---
 il/container/2d/LowerArray2D.h | 13 ++++++++++---
 il/container/2d/UpperArray2D.h | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/il/container/2d/LowerArray2D.h b/il/container/2d/LowerArray2D.h
index a26e436..89d5d83 100644
--- a/il/container/2d/LowerArray2D.h
+++ b/il/container/2d/LowerArray2D.h
@@ -158,7 +158,8 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
@@ -178,10 +179,16 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
       if (il::isTrivial<T>::value) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
-        for (il::int_t k = 0; k < nb_elements; ++k) {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+        const il::int_t nb_common{nb_elements < nb_elements_old
+                                      ? nb_elements
+                                      : nb_elements_old};
+        for (il::int_t k = 0; k < nb_common; ++k) {
           data_[k] = A.data_[k];
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+        for (il::int_t k{nb_common}; k < nb_elements; ++k) {
+          new (data_ + k) T{A.data_[k]};
+        }
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
diff --git a/il/container/2d/UpperArray2D.h b/il/container/2d/UpperArray2D.h
index d29a921..7dcb309 100644
--- a/il/container/2d/UpperArray2D.h
+++ b/il/container/2d/UpperArray2D.h
@@ -158,7 +158,8 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
@@ -178,10 +179,16 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
       if (il::isTrivial<T>::value) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
-        for (il::int_t k = 0; k < nb_elements; ++k) {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+        const il::int_t nb_common{nb_elements < nb_elements_old
+                                      ? nb_elements
+                                      : nb_elements_old};
+        for (il::int_t k = 0; k < nb_common; ++k) {
           data_[k] = A.data_[k];
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+        for (il::int_t k{nb_common}; k < nb_elements; ++k) {
+          new (data_ + k) T{A.data_[k]};
+        }
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
-- 
2.43.0


From 9226457223fc94d1d387f19c5e22e65003e775b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:29 +0000
Subject: [PATCH 47/56] fix: Info::search finds exactly the key, not one of its
 prefixes

---
 il/container/info/Info.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 37ff6ab..859f885 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -270,10 +270,11 @@ inline il::int_t Info::search(const char* key) const {
     const int step = get_int(i);
 
     j = 0;
-    while (key[j] != '\0' && p[i + sizeof(int) + j] == key[j]) {
+    while (key[j] != '\0' &&
+           p[i + sizeof(int) + j] == static_cast<unsigned char>(key[j])) {
       ++j;
     }
-    if (p[i + sizeof(int) + j] == '\0') {
+    if (key[j] == '\0' && p[i + sizeof(int) + j] == '\0') {
       found = true;
     } else {
       i += step;
-- 
2.43.0


From b3f0c5d8c42f0991442b810fd516765645f559ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:29 +0000
Subject: [PATCH 48/56] fix: an int stored in an Info can be read back as an
 integer

---
 il/container/info/Info.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 859f885..4612ea1 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -169,7 +169,8 @@ inline Info& Info::operator=(Info&& other) {
 
 inline void Info::Set(const char* key, int value) {
   const int key_length = static_cast<int>(strlen(key));
-  const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
+  const int n =
+      key_length + 2 + static_cast<int>(sizeof(int) + sizeof(il::int_t));
   il::int_t i = size();
   Resize(i + n);
 
@@ -183,10 +184,10 @@ inline void Info::Set(const char* key, int value) {
   }
   i += key_length + 1;
 
-  p[i] = 3;
+  p[i] = 0;
   ++i;
 
-  Set(value, p + i);
+  Set(static_cast<il::int_t>(value), p + i);
 }
 
 #ifdef IL_64_BIT
-- 
2.43.0


From d624a974c560388bb218b345273a73ab4da0a97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:29 +0000
Subject: [PATCH 49/56] fix: Info releases its block when destroyed or move
 assigned

---
 il/container/info/Info.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 4612ea1..9d70247 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -47,6 +47,7 @@ class Info {
   Info(Info&& other);
   Info& operator=(const Info& other);
   Info& operator=(Info&& other);
+  ~Info();
 
   bool isEmpty() const;
   void clear();
@@ -160,6 +161,9 @@ inline Info& Info::operator=(Info&& other) {
       std::memcpy(small_, other.data(), size);
       SetSmallSize(size);
     } else {
+      if (!isSmall()) {
+        delete[] large_.data;
+      }
       large_ = other.large_;
       other.SetSmallSize(0);
     }
@@ -167,6 +171,12 @@ inline Info& Info::operator=(Info&& other) {
   return *this;
 }
 
+inline Info::~Info() {
+  if (!isSmall()) {
+    delete[] large_.data;
+  }
+}
+
 inline void Info::Set(const char* key, int value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n =
-- 
2.43.0


From bfdfa8d5085ddc8321f183e2c155e50a547d92f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:29 +0000
Subject: [PATCH 50/56] fix: Info self-assignment does not copy overlapping
 memory

---
 il/container/info/Info.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 9d70247..f8ea634 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -127,6 +127,9 @@ inline Info::Info(Info&& other) {
 }
 
 inline Info& Info::operator=(const Info& other) {
+  if (this == &other) {
+    return *this;
+  }
   const il::int_t size = other.size();
   if (size <= max_small_size_) {
     if (!isSmall()) {
-- 
2.43.0


From 67d67e4a5a415ca2f2c1ab022f3a12c660a363a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:54 +0000
Subject: [PATCH 51/56] fix: a Tree keeps the flags of nodes with more than 6
 children

---
 il/container/tree/Tree.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index e59544c..87c53e6 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -19,6 +19,8 @@
 #ifndef IL_TREE_H
 #define IL_TREE_H
 
+// <cstdint> is needed for std::uint64_t
+#include <cstdint>
 // <cstring> is needed for memcpy
 #include <cstring>
 // <initializer_list> is needed for std::initializer_list<T>
@@ -35,18 +37,21 @@ namespace il {
 
 template <typename T, il::int_t n>
 class Tree {
+  static_assert(n <= 62, "il::Tree<T, n>: a node can not have more than 62 children");
+
  private:
   struct Node {
    public:
     T value;
-    unsigned char flag;
+    // bit 0: valid, bit 1: not empty, bit 2 + i: has the i-th child
+    std::uint64_t flag;
 
    public:
     Node() : Node{false} {};
     Node(bool valid)
         : value{},
-          flag{valid ? static_cast<unsigned char>(1)
-                     : static_cast<unsigned char>(0)} {};
+          flag{valid ? static_cast<std::uint64_t>(1)
+                     : static_cast<std::uint64_t>(0)} {};
     bool isValid() const { return (flag % 2) == 1; };
     bool isEmpty() const { return ((flag / 2) % 2) == 0; };
     bool hasChild() const { return flag >= 4; };
@@ -135,7 +140,7 @@ bool Tree<T, n>::hasChild(il::spot_t s) const {
 
 template <typename T, il::int_t n>
 bool Tree<T, n>::hasChild(il::spot_t s, il::int_t i) const {
-  unsigned char flag = tree_[s.index].flag;
+  const std::uint64_t flag = tree_[s.index].flag;
   if (i == 0) {
     return (flag / 4) % 2 == 1;
   } else if (i == 1) {
@@ -153,7 +158,7 @@ bool Tree<T, n>::hasChild(il::spot_t s, il::int_t i) const {
 
 template <typename T, il::int_t n>
 il::SmallArray<il::int_t, n> Tree<T, n>::children(il::spot_t s) const {
-  il::int_t flag = tree_[s.index].flag / 4;
+  std::uint64_t flag = tree_[s.index].flag / 4;
   il::SmallArray<il::int_t, n> ans{};
   il::int_t i = 0;
   while (flag != 0) {
@@ -170,7 +175,7 @@ template <typename T, il::int_t n>
 void Tree<T, n>::AddChild(il::spot_t s, il::int_t i) {
   IL_EXPECT_MEDIUM(i >= 0 && i < n);
 
-  unsigned char flag = 1 << (2 + i);
+  const std::uint64_t flag = static_cast<std::uint64_t>(1) << (2 + i);
   tree_[s.index].flag = tree_[s.index].flag | flag;
   if (n * s.index + 1 + i >= tree_.size()) {
     tree_.Resize(n * s.index + 2 + i);
-- 
2.43.0


From d9d546ffa2257f69f74d3cbca5e37571326aa2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:56 +0000
Subject: [PATCH 52/56] fix: hasChild of a Tree answers for every child number

---
 il/container/tree/Tree.h | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index 87c53e6..fd68f3c 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -140,20 +140,9 @@ bool Tree<T, n>::hasChild(il::spot_t s) const {
 
 template <typename T, il::int_t n>
 bool Tree<T, n>::hasChild(il::spot_t s, il::int_t i) const {
-  const std::uint64_t flag = tree_[s.index].flag;
-  if (i == 0) {
-    return (flag / 4) % 2 == 1;
-  } else if (i == 1) {
-    return (flag / 8) % 2 == 1;
-  } else if (i == 2) {
-    return (flag / 16) % 2 == 1;
-  } else if (i == 3) {
-    return (flag / 32) % 2 == 1;
-  } else {
-    IL_UNREACHABLE;
-  }
-  IL_UNREACHABLE;
-  return true;
+  IL_EXPECT_MEDIUM(i >= 0 && i < n);
+
+  return (tree_[s.index].flag >> (2 + i)) % 2 == 1;
 };
 
 template <typename T, il::int_t n>
-- 
2.43.0


From b87cace1baeec352aab9764d89b902ca145a44d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:10 +0000
Subject: [PATCH 53/56] fix: an aligned 3D array of size 0 can be destroyed

---
 il/container/3d/Array3C.h | 3 ---
 il/container/3d/Array3D.h | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 4545d0a..fa1a555 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -1185,9 +1185,6 @@ bool Array3C<T>::invariance() const {
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
     ans = ans && (capacity_[2] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index c7fddc9..06ac03c 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -1187,9 +1187,6 @@ bool Array3D<T>::invariance() const {
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
     ans = ans && (capacity_[2] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
-- 
2.43.0


From 37256777ab88f4af9c2d584ebd43a36c93e3dff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 54/56] fix: construct the new elements when assigning a larger
 3D array of objects within the capacity

---
 il/container/3d/Array3C.h | 8 +++++++-
 il/container/3d/Array3D.h | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index fa1a555..0b8e3fc 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -811,7 +811,13 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i2 = 0; i2 < n2; ++i2) {
-              data_[(i0 * capacity(1) + i1) * capacity(2) + i2] = A(i0, i1, i2);
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                data_[(i0 * capacity(1) + i1) * capacity(2) + i2] =
+                    A(i0, i1, i2);
+              } else {
+                new (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2)
+                    T(A(i0, i1, i2));
+              }
             }
           }
         }
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index 06ac03c..ce35b00 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -811,7 +811,13 @@ Array3D<T>& Array3D<T>::operator=(const Array3D<T>& A) {
         for (il::int_t i2 = 0; i2 < n2; ++i2) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i0 = 0; i0 < n0; ++i0) {
-              data_[(i2 * capacity(1) + i1) * capacity(0) + i0] = A(i0, i1, i2);
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                data_[(i2 * capacity(1) + i1) * capacity(0) + i0] =
+                    A(i0, i1, i2);
+              } else {
+                new (data_ + (i2 * capacity(1) + i1) * capacity(0) + i0)
+                    T(A(i0, i1, i2));
+              }
             }
           }
         }
-- 
2.43.0


From 8c2adbf085f77e1fa70f162d48c667d5f4192310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 55/56] fix: assigning to an Array3C of objects destroys
 exactly the elements that are left

---
 il/container/3d/Array3C.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 0b8e3fc..e4b57fd 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -824,7 +824,7 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
           for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
             for (il::int_t i2 = size(2) - 1;
-                 i2 >= (i0 < n0 && i1 < n1 ? n0 : 0); --i2) {
+                 i2 >= (i0 < n0 && i1 < n1 ? n2 : 0); --i2) {
               (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2)->~T();
             }
           }
-- 
2.43.0


From 76e6e01c387f02e64cf819e5584c611aedee4c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:30 +0000
Subject: [PATCH 56/56] fix: aligned 3D arrays are filled with the requested
 value in release builds too

---
 il/container/3d/Array3C.h | 2 --
 il/container/3d/Array3D.h | 2 --
 2 files changed, 4 deletions(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index e4b57fd..5a0397c 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -489,7 +489,6 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
     il::int_t shift;
     data_ = il::allocateArray<T>(r, align_r, align_mod, il::io, shift);
     shift_ = static_cast<short>(shift);
-#ifdef IL_DEFAULT_VALUE
     for (il::int_t i0 = 0; i0 < n0; ++i0) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i2 = 0; i2 < n2; ++i2) {
@@ -497,7 +496,6 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
         }
       }
     }
-#endif
   } else {
     data_ = nullptr;
     shift_ = 0;
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index ce35b00..0125cc9 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -485,7 +485,6 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
     il::int_t shift;
     data_ = il::allocateArray<T>(r, align_r, align_mod, il::io, shift);
     shift_ = static_cast<short>(shift);
-#ifdef IL_DEFAULT_VALUE
     for (il::int_t i2 = 0; i2 < n2; ++i2) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
@@ -493,7 +492,6 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
         }
       }
     }
-#endif
   } else {
     data_ = nullptr;
     shift_ = 0;
-- 
2.43.0

