From e0a5de0d78a029458dfc336b7a1f9973a4e1c1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:23 +0000
Subject: [PATCH 01/74] hook: let clang parse name.h and vec3.h under
 KORIN_VERIF

---
 src/korin/core/public/math/vec3.h      | 13 ++++++++++++-
 src/korin/core/public/templates/name.h |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/vec3.h b/src/korin/core/public/math/vec3.h
index 7331ced..b6441fc 100644
--- a/src/korin/core/public/math/vec3.h
+++ b/src/korin/core/public/math/vec3.h
@@ -421,4 +421,15 @@ template<>
 FORCE_INLINE bool Vec3<float32>::isNearlyZero() const
 {
 	return getSquaredSize() < 4 * FLT_EPSILON;
-}
\ No newline at end of file
+}
+
+#ifdef KORIN_VERIF // Declare the specializations defined in math.cpp before quat.h instantiates them
+template<> const Vec3<float32> Vec3<float32>::zero;
+template<> const Vec3<float32> Vec3<float32>::unit;
+template<> const Vec3<float32> Vec3<float32>::right;
+template<> const Vec3<float32> Vec3<float32>::left;
+template<> const Vec3<float32> Vec3<float32>::up;
+template<> const Vec3<float32> Vec3<float32>::down;
+template<> const Vec3<float32> Vec3<float32>::forward;
+template<> const Vec3<float32> Vec3<float32>::backward;
+#endif
diff --git a/src/korin/core/public/templates/name.h b/src/korin/core/public/templates/name.h
index 2e11194..a11d4d3 100644
--- a/src/korin/core/public/templates/name.h
+++ b/src/korin/core/public/templates/name.h
@@ -96,6 +96,7 @@ public:
 		return buffer[idx];
 	}
 
+#ifndef KORIN_VERIF // Not accepted by clang, Name is incomplete here
 	/**
 	 * Utility for compile-time
 	 * concatenation of names.
@@ -131,6 +132,7 @@ public:
 		/// Output name object
 		static constexpr Name name{buffer};
 	};
+#endif
 
 protected:
 	/// Pointer to static buffer
-- 
2.43.0


From 2a0caf5b28fc6dcbcf46b52f9a379bb288e96567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 02/74] fix: MallocPool::realloc returned a block it had just
 released when the size was too big

---
 src/korin/core/private/hal/malloc_pool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 32e0f86..1515fda 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -105,7 +105,8 @@ void * MallocPool::realloc(void * orig, sizet size, sizet alignment)
 	{
 		if (size > pool.blockSize)
 		{
-			pool.releaseBlock(orig);
+			// Refuse, the original block is left untouched
+			out = nullptr;
 		}
 		else
 			; // Return original block
-- 
2.43.0


From 8a4fa7c3cda4f0f3e2fc7e5722bf6fc5b7ae3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 03/74] fix: MallocPooled placed its bookkeeping inside the
 blocks when the alignment was below the minimum

---
 src/korin/core/private/hal/malloc_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 1515fda..4a4919e 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -136,8 +136,8 @@ MallocPooled::MallocPooled(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockA
 	, poolInfo{
 		inNumBlocks,
 		inBlockSize,
-		inBlockAlignment,
-		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, inBlockAlignment)
+		PlatformMath::max(inBlockAlignment, MIN_ALIGNMENT),
+		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, PlatformMath::max(inBlockAlignment, MIN_ALIGNMENT))
 	}
 	, poolAllocSize{0}
 {
-- 
2.43.0


From 035bc67b9b2b5acd84e5131acf7e56aa62e3f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 04/74] fix: MallocPooled::free left the pool behind exhausted
 ones, so new pools were created endlessly

---
 src/korin/core/private/hal/malloc_pool.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 4a4919e..76d7c30 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -252,5 +252,22 @@ void MallocPooled::free(void * orig)
 	}
 
 	// Release block, return to pool
-	if (it) it->data->releaseBlock(orig);
+	if (it)
+	{
+		it->data->releaseBlock(orig);
+
+		// Move pool to front, it has at least one free block
+		Link * link = reinterpret_cast<Link*>(it + 1);
+		if (link != head)
+		{
+			link->prev->next = link->next;
+			link->next->prev = link->prev;
+
+			link->next = head;
+			link->prev = head->prev;
+			link->next->prev = link;
+			link->prev->next = link;
+			head = link;
+		}
+	}
 }
\ No newline at end of file
-- 
2.43.0


From 8e48cbe8946fe0a580cf22ceec559dea37ec4c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 05/74] fix: MallocPooled::realloc reported success for sizes
 larger than a block

---
 src/korin/core/private/hal/malloc_pool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 76d7c30..ee93da6 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -231,7 +231,8 @@ void * MallocPooled::realloc(void * orig, sizet size, sizet alignment)
 	CHECKF(size <= poolInfo.blockSize, "requested size exceed pool block max size, backup allocator will be used (pool block size is 0x%llx, requested size is 0x%llx)", poolInfo.blockSize, size)
 	CHECKF(alignment <= poolInfo.blockAlignment, "requested alignment exceeds pool block alignment, backup allocator will be used (pool block alignment is 0x%llx, requested alignment is 0x%llx)", poolInfo.blockAlignment, alignment)
 
-	return orig;
+	// Refuse if block is not big enough
+	return size <= poolInfo.blockSize ? orig : nullptr;
 }
 
 void MallocPooled::free(void * orig)
-- 
2.43.0


From 6fb0449645cc12507b278262dd99a6824ca29ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 06/74] fix: MallocBinned ignored the smallest bucket size when
 choosing a bucket

---
 src/korin/core/public/hal/malloc_binned.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/hal/malloc_binned.h b/src/korin/core/public/hal/malloc_binned.h
index bef2ccd..3835194 100644
--- a/src/korin/core/public/hal/malloc_binned.h
+++ b/src/korin/core/public/hal/malloc_binned.h
@@ -63,8 +63,11 @@ protected:
 	{
 		CHECK(size != 0);
 
+		// First bucket
+		if (size <= bucketInfo.allocUnitMinSize) return 0;
+
 		// Get power of two index
-		return PlatformMath::log2(size - 1) / PlatformMath::log2(bucketInfo.allocUnitIncrement);
+		return (PlatformMath::log2(size - 1) - PlatformMath::log2(bucketInfo.allocUnitMinSize)) / PlatformMath::log2(bucketInfo.allocUnitIncrement) + 1;
 	}
 
 public:
-- 
2.43.0


From 94df3f694e9d634478f0fdeef90c7d86b2f99ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 07/74] fix: MallocBinned leaked all of its buckets

---
 src/korin/core/public/hal/malloc_binned.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/korin/core/public/hal/malloc_binned.h b/src/korin/core/public/hal/malloc_binned.h
index 3835194..f036559 100644
--- a/src/korin/core/public/hal/malloc_binned.h
+++ b/src/korin/core/public/hal/malloc_binned.h
@@ -50,6 +50,15 @@ public:
 	 */
 	MallocBinned(const BucketInfo & inInfo = {1ull << 16ull/* 1 MB */, 1ull << 3ull, 1ull << 18ull, 1ull << 3ull}, sizet inPoolAlign = DEFAULT_ALIGNMENT);
 
+	/**
+	 * Destructor, destroys all buckets
+	 */
+	virtual ~MallocBinned()
+	{
+		for (uint32 i = 0; i < numBuckets; ++i)
+			delete buckets[i];
+	}
+
 protected:
 	/**
 	 * Compute bucket index from requested
-- 
2.43.0


From 910b9b2d6c598769e5d613ed52be697c4ea8e981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 08/74] fix: MallocBinned::realloc lost the block instead of
 reallocating it

---
 src/korin/core/private/hal/malloc_binned.cpp | 30 +++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index 9c1964c..64e0b1f 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -43,7 +43,35 @@ void * MallocBinned::alloc(sizet size, sizet alignment)
 
 void * MallocBinned::realloc(void * orig, sizet size, sizet alignment)
 {
-	// TODO
+	if (!orig) return alloc(size, alignment);
+
+	if (size == 0)
+	{
+		// Basically a free
+		free(orig);
+		return nullptr;
+	}
+
+	for (uint32 i = 0; i < numBuckets; ++i)
+	{
+		MallocPooled * bucket = buckets[i];
+		if (bucket->hasBlock(orig))
+		{
+			// Same bucket, keep block
+			if (getBucketIdx(size) == i) return bucket->realloc(orig, size, alignment);
+
+			// Move to another bucket
+			void * out = alloc(size, alignment);
+			if (out)
+			{
+				Memory::memcpy(out, orig, PlatformMath::min(size, bucket->poolInfo.blockSize));
+				bucket->free(orig);
+			}
+
+			return out;
+		}
+	}
+
 	return nullptr;
 }
 
-- 
2.43.0


From eabdf3cf6608037044613ece58a97447472db521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 09/74] fix: copyElements never advanced its counter and ran
 off both arrays

---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index b5bd1fa..809d432 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -112,7 +112,7 @@ struct GenericPlatformMemory
 	template<typename TT>
 	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
 	{
-		for (uint64 i = 0; i < n; ++n, ++dst, ++src)
+		for (uint64 i = 0; i < n; ++i, ++dst, ++src)
 			// Non overlapping required
 			*dst = *src;
 	}
-- 
2.43.0


From 96215cd897322b01d2e1a581419d5c7e7fa52752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 10/74] fix: moveElements moved nothing when the destination
 follows the source

---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index 809d432..f2f6b18 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -145,7 +145,7 @@ struct GenericPlatformMemory
 				dst[i] = move(src[i]);
 			}
 		}
-		else if (LIKELY(src > dst))
+		else if (LIKELY(dst > src))
 		{
 			// Copy right to left
 			for (uint64 i = 1; i <= n; ++i)
-- 
2.43.0


From e8840278f39f5b743d7d7b41396fff1dac229cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 11/74] fix: constructCopyElements bypassed the copy
 constructor of types with a trivial default constructor

---
 src/korin/core/public/generic/generic_platform_memory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index f2f6b18..5b02e85 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -86,14 +86,14 @@ struct GenericPlatformMemory
 	 * @param m num of elements
 	 */
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<!IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
 		for (uint32 i = 0; i < n; ++i)
 			new (dst + i) T{src[i]};
 	}
 
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
 		memcpy(dst, src, n * sizeof(T));
 	}
-- 
2.43.0


From a684856293d5217fb56bc6af53b79299755ecd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 12/74] fix: memcmp lost the sign of the comparison it
 documents

---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index 5b02e85..b570af2 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -51,7 +51,7 @@ struct GenericPlatformMemory
 	 * 	mem0 is greater than the corresponding
 	 * 	byte in mem1
 	 */
-	static FORCE_INLINE bool memcmp(const void * mem0, const void * mem1, sizet size)
+	static FORCE_INLINE int32 memcmp(const void * mem0, const void * mem1, sizet size)
 	{
 		return ::memcmp(mem0, mem1, size);
 	}
-- 
2.43.0


From 63d2d09f6bda104e4a2a555399a87c83821e9af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 13/74] fix: Array did not destroy the elements of the buffer
 it outgrew

---
 src/korin/core/public/containers/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index e3d46b2..7b35efe 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -319,6 +319,7 @@ protected:
 			if (buffer)
 			{
 				Memory::constructCopyElements(inBuffer, buffer, count);
+				Memory::destroyElements(buffer, buffer + count);
 				malloc.free(buffer);
 			}
 
-- 
2.43.0


From 9d969a25b7bbadc615d79f7bef1cd9adb4768cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 14/74] fix: Array::removeLast destroyed nothing

---
 src/korin/core/public/containers/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 7b35efe..6685049 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -808,7 +808,7 @@ public:
 		--count;
 
 		// Destroy element
-		Memory::destroyElements(buffer + count, buffer + count);
+		Memory::destroyElements(buffer + count, buffer + count + 1);
 	}
 
 	/**
-- 
2.43.0


From 58fe0e68b30a8aa7a5958440bb6f4bb83207205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 15/74] fix: Array::removeAt assigned to destroyed elements and
 left the last ones alive

---
 src/korin/core/public/containers/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 6685049..debb2fd 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -780,12 +780,12 @@ public:
 	{
 		if (num > 0)
 		{
-			// Destroy element
-			Memory::destroyElements(buffer + idx, buffer + idx + num);
-
 			// Move elements to the left
 			Memory::moveElements(buffer + idx, buffer + idx + num, count - (idx + num));
 
+			// Destroy the elements left over at the end
+			Memory::destroyElements(buffer + count - num, buffer + count);
+
 			// Decrement count
 			count -= num;
 		}
-- 
2.43.0


From 87a392bf13dd86e3145cd381214e8b05c606f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 16/74] fix: Array copied elements over default-constructed
 ones, which were never destroyed

---
 src/korin/core/public/containers/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index debb2fd..ffb9a53 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -389,12 +389,13 @@ public:
 	 * @param slack extra space required
 	 */
 	FORCE_INLINE Array(const T * inBuffer, uint64 inCount, uint64 slack = 0)
-		: Array{inCount + slack, inCount}
+		: Array{inCount + slack, inBuffer ? 0 : inCount}
 	{
 		CHECK(buffer != nullptr)
 
 		// Copy source buffer to destination
-		if (inBuffer && count > 0) Memory::constructCopyElements(buffer, inBuffer, count);
+		if (inBuffer && inCount > 0) Memory::constructCopyElements(buffer, inBuffer, inCount);
+		count = inCount;
 	}
 
 	/**
-- 
2.43.0


From 712550c73776875280c84bdf062eceaed6690d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 17/74] fix: Array::insertAt read elements past the end of the
 old buffer when it had to grow

---
 src/korin/core/public/containers/array.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index ffb9a53..d35579b 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -675,7 +675,11 @@ public:
 			Memory::moveElements(buffer + j, buffer + idx, count - idx);
 			++count;
 		}
-		else resizeIfNecessary(count = j);
+		else
+		{
+			resizeIfNecessary(j);
+			count = j;
+		}
 		
 		// Copy construct element
 		return insertNoResize(idx, forward<ItemT>(item));
@@ -696,7 +700,11 @@ public:
 			Memory::moveElements(buffer + j, buffer + idx, count - idx);
 			count += numArgs;
 		}
-		else resizeIfNecessary((count = j));
+		else
+		{
+			resizeIfNecessary(j);
+			count = j;
+		}
 		
 		// Copy construct elements
 		insertNoResize(idx, forward<ItemT>(item), forward<ItemListT>(items) ...);
-- 
2.43.0


From 0f52a60c75cff7129ac4aa24c789b37640d11b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 18/74] fix: Array::insertAt past the end left elements before
 it unconstructed

---
 src/korin/core/public/containers/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index d35579b..fcdb10b 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -678,6 +678,7 @@ public:
 		else
 		{
 			resizeIfNecessary(j);
+			Memory::constructDefaultElements(buffer + count, buffer + idx);
 			count = j;
 		}
 		
@@ -703,6 +704,7 @@ public:
 		else
 		{
 			resizeIfNecessary(j);
+			Memory::constructDefaultElements(buffer + count, buffer + idx);
 			count = j;
 		}
 		
-- 
2.43.0


From a17a166b62af8eb879bfeb67d45168eabfa39af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 19/74] fix: Array inserted elements by assigning to
 unconstructed memory and over live ones

---
 src/korin/core/public/containers/array.h | 25 ++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index fcdb10b..abe6ea3 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -625,6 +625,23 @@ public:
 	/** @} */
 
 protected:
+	/**
+	 * Move elements up to make room for
+	 * new ones, which are not constructed.
+	 * Buffer must be big enough already.
+	 * 
+	 * @param idx position in which to insert
+	 * @param num number of elements to insert
+	 */
+	FORCE_INLINE void moveElementsUp(uint64 idx, uint64 num)
+	{
+		for (uint64 i = count; i > idx; --i)
+		{
+			new (buffer + i - 1 + num) T{move(buffer[i - 1])};
+			Memory::destroyElements(buffer + i - 1, buffer + i);
+		}
+	}
+
 	/**
 	 * Insert item without resizing.
 	 * 
@@ -672,7 +689,7 @@ public:
 			resizeIfNecessary(count + 1);
 
 			// Move elements up to accomodate
-			Memory::moveElements(buffer + j, buffer + idx, count - idx);
+			moveElementsUp(idx, 1);
 			++count;
 		}
 		else
@@ -698,7 +715,7 @@ public:
 			resizeIfNecessary(count + numArgs);
 
 			// Move element up to accomodate
-			Memory::moveElements(buffer + j, buffer + idx, count - idx);
+			moveElementsUp(idx, numArgs);
 			count += numArgs;
 		}
 		else
@@ -727,7 +744,7 @@ public:
 		resizeIfNecessary(count + 1);
 
 		// Move elements up
-		Memory::moveElements(buffer + 1, buffer, count);
+		moveElementsUp(0, 1);
 		++count;
 
 		// Copy construct element
@@ -741,7 +758,7 @@ public:
 
 		// Resize and move elements up
 		resizeIfNecessary(count + numArgs);
-		Memory::moveElements(buffer + numArgs, buffer, count);
+		moveElementsUp(0, numArgs);
 		count += numArgs;
 
 		insertNoResize(0, forward<ItemT>(item), forward<ItemListT>(items) ...);
-- 
2.43.0


From 68c934ac6b96b0fc3424882d19e6ad0a8784871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 20/74] fix: List moved from lvalues when several elements were
 pushed at once

---
 src/korin/core/public/containers/list.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 0542e89..9070f7a 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -464,7 +464,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushBack(DataListT && ... datas)
 	{
-		(pushBack(forward<DataT>(datas)), ...);
+		(pushBack(forward<DataListT>(datas)), ...);
 	}
 	/** @} */
 
@@ -512,7 +512,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushFront(DataListT && ... datas)
 	{
-		(... ,pushFront(forward<DataT>(datas)));
+		(... ,pushFront(forward<DataListT>(datas)));
 	}
 	/** @} */
 
-- 
2.43.0


From 328ece5f3afbd4c532c1bedaaf74485346738651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 21/74] fix: List copy assignment kept the old length when the
 list became shorter

---
 src/korin/core/public/containers/list.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 9070f7a..bf8fd6a 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -318,6 +318,7 @@ public:
 				LinkT * link = it;
 				it = it->next;
 				destroyLink(link);
+				--length;
 			}
 
 			// Push remaining objects
-- 
2.43.0


From 841552b814a7232268632d42e142720b9a9f8c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 22/74] fix: List move assignment returned nothing

---
 src/korin/core/public/containers/list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index bf8fd6a..226a0b9 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -351,6 +351,8 @@ public:
 
 		other.head = other.tail = nullptr;
 		other.length = 0;
+
+		return *this;
 	}
 
 	/**
-- 
2.43.0


From a39434a08a9ed5f2b2dbd822239abd91f655e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 23/74] fix: List::remove left a link to the removed head or
 tail

---
 src/korin/core/public/containers/list.h | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 226a0b9..e94d2ab 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -524,19 +524,14 @@ public:
 	 */
 	void remove(LinkT * link)
 	{
-		if (link != head && link != tail)
-		{
-			LinkT * prev = link->prev;
-			LinkT * next = link->next;
-			
-			if (prev) prev->next = next;
-			if (next) next->prev = prev;
-		}
-		else
-		{
-			if (link == head) head = head->next;
-			if (link == tail) tail = tail->prev;
-		}
+		LinkT * prev = link->prev;
+		LinkT * next = link->next;
+		
+		if (prev) prev->next = next;
+		if (next) next->prev = prev;
+
+		if (link == head) head = next;
+		if (link == tail) tail = prev;
 
 		--length;
 
-- 
2.43.0


From b3dbb67804db20ebfc1ea2e1c7d53d3cca7bb083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 24/74] fix: List with a managed allocator freed its links
 after the allocator was gone

---
 src/korin/core/public/containers/list.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index e94d2ab..eb81072 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -701,6 +701,15 @@ public:
 		//
 	}
 
+	/**
+	 * Destructor, destroys links here
+	 * because we need the allocator.
+	 */
+	FORCE_INLINE ~List()
+	{
+		Base::destroy();
+	}
+
 protected:
 	/// Managed allocator
 	MallocT autoMalloc;
-- 
2.43.0


From aef5969e9f7bff65a9494002042a740291c310f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 25/74] fix: BinaryTree copy constructor dereferenced the
 missing root of an empty tree

---
 src/korin/core/public/containers/tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index db39000..3a12d2d 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -1100,7 +1100,7 @@ public:
 	FORCE_INLINE BinaryTree(const BinaryTree & other)
 		: BinaryTree{}
 	{
-		root = cloneSubtree(other.root);
+		if (other.root) root = cloneSubtree(other.root);
 		numNodes = other.numNodes;
 	}	
 	
-- 
2.43.0


From 2077ffbf1511de94303049e8de70f6f01fae198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 26/74] fix: BinaryNode::getNumNodes did not compile

---
 src/korin/core/public/containers/tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index 3a12d2d..18375df 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -140,7 +140,7 @@ struct BinaryNode
 	 * 	spawning from root node
 	 * @{
 	 */
-	static FORCE_INLINE uint64 getTreeSize(BinaryNode * root)
+	static FORCE_INLINE uint64 getTreeSize(const BinaryNode * root)
 	{
 		return root ? 1 + getTreeSize(root->right) + getTreeSize(root->left) : 0;
 	}
-- 
2.43.0


From 08c87e6f899d3782aafe046816e45083b935cb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 27/74] fix: Set::any ignored its first key

---
 src/korin/core/public/containers/set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index dd73b06..74f29cd 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -223,7 +223,7 @@ public:
 	template<typename KeyT, typename ...KeyListT>
 	FORCE_INLINE bool any(const KeyT & key, KeyListT && ...keys) const
 	{
-		return (get(keys) || ... || false);
+		return get(key) || (get(keys) || ... || false);
 	}
 
 	/**
-- 
2.43.0


From 94f0ea103e4476b264e9a0bba63fa86ff6991473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 28/74] fix: Set::get could not return an element of a constant
 set

---
 src/korin/core/public/containers/set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 74f29cd..12c5e38 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -185,10 +185,10 @@ public:
 	}
 
 	template<typename KeyT>
-	FORCE_INLINE bool get(const KeyT & key, T const & outValue) const
+	FORCE_INLINE bool get(const KeyT & key, T & outValue) const
 	{
 		// Get node to fetch value
-		if (NodeT * node = tree.findNode(key))
+		if (const NodeT * node = tree.findNode(key))
 		{
 			outValue = node->data;
 			return true;
-- 
2.43.0


From c2995f8c13d06e97213b8358b725676c18ff5585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 29/74] fix: Set strict inclusion missed extra elements after
 the last common one

---
 src/korin/core/public/containers/set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 12c5e38..54c4a78 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -648,7 +648,7 @@ public:
 		}
 		
 		// Return true only if other still has elements
-		return !it && !eq;
+		return !it && (jt || !eq);
 	}
 
 	/**
@@ -698,7 +698,7 @@ public:
 		}
 		
 		// Return true only if other still has elements
-		return !jt && !eq;
+		return !jt && (it || !eq);
 	}
 
 private:
-- 
2.43.0


From 9c78f0999684d15b24cb09e7ea2a885c428bee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 30/74] fix: Set difference with itself walked freed nodes

---
 src/korin/core/public/containers/set.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 54c4a78..9316510 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -412,6 +412,13 @@ public:
 	 */
 	Set & operator-=(const Set & other)
 	{
+		if (this == &other)
+		{
+			// Other loses the nodes we remove
+			tree.empty();
+			return *this;
+		}
+
 		NodeT * it = tree.getMin();
 		const NodeT * jt = other.tree.getMin();
 
-- 
2.43.0


From c1886eeb53cee6fecd42b286d7f021aeeac295c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:08 +0000
Subject: [PATCH 31/74] fix: String::splice was ambiguous without a replacement
 string

---
 src/korin/core/public/containers/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 025f45c..4685a46 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -615,7 +615,7 @@ public:
 	 * @return ref to self
 	 * @{
 	 */
-	StringBase & splice(sizet pos, sizet len, const StringBase & inserted = "")
+	StringBase & splice(sizet pos, sizet len, const StringBase & inserted)
 	{
 		return splice(pos, len, *inserted, inserted.getLength());
 	}
-- 
2.43.0


From 640a382219180083f0dcdc6b70073e0f831eb20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 32/74] fix: String of a given capacity was not empty but full
 of uninitialized characters

---
 src/korin/core/public/containers/string.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 4685a46..c394e9a 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -32,9 +32,9 @@ public:
 	 * @param n string capacity
 	 */
 	explicit FORCE_INLINE StringBase(sizet n)
-		: array{nullptr, n + 1}
+		: array{n + 1, 0}
 	{
-		array[0] = '\0';
+		array(0) = '\0';
 	}
 
 	/**
@@ -64,7 +64,7 @@ public:
 	 * @param len source length (in Bytes)
 	 */
 	FORCE_INLINE StringBase(const CharT * src, sizet n)
-		: StringBase{n}
+		: array{nullptr, n + 1}
 	{
 		// Copy source and terminate string
 		Memory::memcpy(*array, src, n);
-- 
2.43.0


From f1f3c487cf777f6bfe5750c00d9a787b1fa76776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 33/74] fix: String appended to itself read the buffer it had
 just released

---
 src/korin/core/public/containers/string.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index c394e9a..97a0aeb 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -303,10 +303,15 @@ private:
 	StringBase & appendString(const CharT * src, sizet len)
 	{
 		const sizet currLen = getLength();
+
+		// Source could be part of this string, and
+		// move with it if the buffer is resized
+		const bool bAliased = src >= *array && src <= *array + currLen;
+		const sizet srcPos = bAliased ? src - *array : 0;
 		
 		// Resize buffer and copy string content
 		array(currLen + len) = '\0';
-		Memory::memcpy(*array + currLen, src, len);
+		Memory::memcpy(*array + currLen, bAliased ? *array + srcPos : src, len);
 
 		return *this;
 	}
-- 
2.43.0


From 29638d014f112f0c049f6e92e8cca6aba51b241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:36 +0000
Subject: [PATCH 34/74] fix: String::splice garbled a replacement that is part
 of the string

---
 src/korin/core/public/containers/string.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 97a0aeb..b9519c4 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -582,6 +582,14 @@ private:
 	 */
 	StringBase & splice(sizet subPos, sizet subLen, const CharT * replSrc, sizet replLen)
 	{
+		if (replSrc >= *array && replSrc <= *array + getLength())
+		{
+			// Replacement string is part of this
+			// string, which is about to change
+			const StringBase repl{replSrc, replLen};
+			return splice(subPos, subLen, *repl, replLen);
+		}
+
 		if (replLen <= subLen)
 		{
 			// Since replacement string is smaller
-- 
2.43.0


From 6e34395f0c132f6e3f1b1869acd0a2410b9fa261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:41 +0000
Subject: [PATCH 35/74] fix: String printing returned nothing and kept the
 length of longer previous content

---
 src/korin/core/public/containers/string.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index b9519c4..253f565 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -453,8 +453,12 @@ private:
 	 */
 	StringBase & printString(const CharT * src, sizet len)
 	{
+		// Previous content may be longer
+		array.empty();
 		array(len) = '\0';
 		Memory::memcpy(*array, src, len);
+
+		return *this;
 	}
 
 	/**
-- 
2.43.0


From a30e7bb0d0ba44273701f2e2a24e6193b0ffaf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:41 +0000
Subject: [PATCH 36/74] fix: String::format read past its internal buffer when
 the text did not fit

---
 src/korin/core/public/containers/string.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 253f565..9bcb991 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -563,8 +563,14 @@ public:
 		char buff[maxlen] = {};
 
 		// Print and return new string
-		int32 len = snprintf(buff, maxlen, format, forward<Args>(args)...);
-		return StringBase{buff, (sizet)len};
+		const int32 len = snprintf(buff, maxlen, format, args...);
+		if (len < (int32)maxlen) return StringBase{buff, (sizet)len};
+
+		// Text was truncated, print it directly into
+		// a string that is long enough
+		StringBase out{(sizet)len, '\0'};
+		snprintf(*out, len + 1, format, forward<Args>(args)...);
+		return out;
 	}
 
 	/**
-- 
2.43.0


From 37f255d970fed3f119647fffbe80ec3d19e16131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:23 +0000
Subject: [PATCH 37/74] fix: String::findIndex read out of bounds when starting
 past the end

---
 src/korin/core/public/containers/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 9bcb991..42a631c 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -669,7 +669,7 @@ public:
 		patternLen = patternLen ? patternLen : PlatformStrings::getLength(pattern);
 
 		// Check pattern length doesn't exceed string length
-		if (patternLen > getLength() - startPos) return -1;
+		if (startPos > getLength() || patternLen > getLength() - startPos) return -1;
 
 		for (sizet idx = startPos, lastIdx = getLength() - patternLen; idx <= lastIdx; ++idx)
 		{
-- 
2.43.0


From e568aac72500f2b1c94a29cbf2413363ca39e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:20 +0000
Subject: [PATCH 38/74] fix: String::replaceAll never returned when the pattern
 was empty

---
 src/korin/core/public/containers/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 42a631c..8612b2d 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -733,6 +733,9 @@ public:
 		sizet replacementLen = replacement.getLength();
 		int64 startPos = 0;
 
+		// An empty pattern has no occurences to replace
+		if (patternLen == 0) return *this;
+
 		while ((startPos = findIndex(pattern, startPos)) != -1)
 		{
 			// Occurence found, needs replacing
-- 
2.43.0


From f78acc3b18f52cec7b897bd4a546783c77e08744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:20 +0000
Subject: [PATCH 39/74] fix: String::replaceAll with the string itself as an
 operand kept comparing with the changing text

---
 src/korin/core/public/containers/string.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 8612b2d..621e36a 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -729,6 +729,12 @@ public:
 	 */
 	StringBase & replaceAll(const StringBase & pattern, const StringBase & replacement)
 	{
+		if (&pattern == this || &replacement == this)
+		{
+			// Operands must not change while replacing
+			return replaceAll(StringBase{pattern}, StringBase{replacement});
+		}
+
 		sizet patternLen = pattern.getLength();
 		sizet replacementLen = replacement.getLength();
 		int64 startPos = 0;
-- 
2.43.0


From 7f5bcdd77c2759053c28fc3e31d2c7474a626ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:30 +0000
Subject: [PATCH 40/74] fix: string comparison put a string after its
 extensions by characters above 127

---
 src/korin/core/public/generic/generic_platform_strings.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_strings.h b/src/korin/core/public/generic/generic_platform_strings.h
index b8a39a9..1b4ece8 100644
--- a/src/korin/core/public/generic/generic_platform_strings.h
+++ b/src/korin/core/public/generic/generic_platform_strings.h
@@ -39,7 +39,8 @@ struct GenericPlatformStrings
 			// All characters before the termination are equal
 			if (*s1 == '\0') return 0;
 		
-		return *s1 - *s2;
+		// Compare as bytes, so that prefixes come first
+		return (uint8)*s1 - (uint8)*s2;
 	}
 
 	/**
@@ -70,7 +71,7 @@ struct GenericPlatformStrings
 	{
 		const sizet end = start + len;
 		for (sizet n = start; n < end; ++n)
-			if (s1[n] != s2[n]) return s1[n] - s2[n];
+			if (s1[n] != s2[n]) return (uint8)s1[n] - (uint8)s2[n];
 		
 		return 0;
 	}
-- 
2.43.0


From fd7cd4e72ac3fefddf5d4eebc99f1cf3a35f8a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:47 +0000
Subject: [PATCH 41/74] fix: Sort::partition did not return the partition point

---
 src/korin/core/public/algorithm/sort.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/algorithm/sort.h b/src/korin/core/public/algorithm/sort.h
index 11452b7..54ef229 100644
--- a/src/korin/core/public/algorithm/sort.h
+++ b/src/korin/core/public/algorithm/sort.h
@@ -37,6 +37,8 @@ struct Sort
 		It i = begin, j = begin;
 		for (; i != end; ++i)
 			if (cmp(*i, pivot) < 0) swap(*i, *j), ++j;
+
+		return j;
 	}
 
 	/**
-- 
2.43.0


From 2d26989dfde3ff3782e7a76862974d56dddf567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 42/74] fix: Optional destroyed its value twice, and destroyed
 values it never held

---
 src/korin/core/public/templates/optional.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 0b8b08d..1b74368 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -183,7 +183,7 @@ struct Optional
 		if (engaged)
 		{
 			engaged = false;
-			storage.~OptionalStorage();
+			storage.value.~T();
 		}
 	}
 
@@ -271,11 +271,12 @@ protected:
 		}
 
 		/**
-		 * Destructor.
+		 * Destructor, destroys nothing. The
+		 * value is destroyed when reset.
 		 */
 		~OptionalStorage()
 		{
-			value.~U();
+			//
 		}
 
 		/// Empty byte
-- 
2.43.0


From 01c7341e6bde287dd3e4289e4b913e24d9e1e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 43/74] fix: Optional::emplace did not destroy the value it
 replaced

---
 src/korin/core/public/templates/optional.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 1b74368..5ff7b7c 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -130,6 +130,9 @@ struct Optional
 	template<typename ...ArgsT>
 	FORCE_INLINE void emplace(ArgsT && ...args)
 	{
+		// Destroy existing object
+		reset();
+
 		engaged = true;
 		new (&storage.value) T{forward<ArgsT>(args)...};
 	}
-- 
2.43.0


From f18fe3196e0335f89dddba7214ff27a6950ffe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 44/74] fix: Optional move assignment never destroyed the
 moved-from value

---
 src/korin/core/public/templates/optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 5ff7b7c..c4e47d4 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -79,13 +79,13 @@ struct Optional
 		{
 			// Move object
 			storage.value = move(*other);
-			other.engaged = false;
+			other.reset();
 		}
 		else if (other.engaged && !this->engaged)
 		{
 			// Move costruct object
 			emplace(move(*other));
-			other.engaged = false;
+			other.reset();
 		}
 		else if (!other.engaged && this->engaged)
 		{
-- 
2.43.0


From c600277da5118251d4279e9ab4b23a74ee3fbfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:06 +0000
Subject: [PATCH 45/74] fix: Function kept a reference to the functor it was
 built from and rejected free functions

---
 src/korin/core/public/templates/function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index c6273d2..fba340e 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -171,7 +171,7 @@ struct FunctionStorage : FunctionStorageBase
 	template<typename FunctorT>
 	typename DecayType<FunctorT>::Type * bind(FunctorT && fn)
 	{
-		using OwnedT = FunctionOwnedObject<FunctorT>;
+		using OwnedT = FunctionOwnedObject<typename DecayType<FunctorT>::Type>;
 
 		// TODO: Use global allocator
 		heap = MallocAnsi{}.alloc(sizeof(OwnedT), alignof(OwnedT));
-- 
2.43.0


From 38b9783e9861304c3a172692d00c59d39b14d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:06 +0000
Subject: [PATCH 46/74] fix: copies of a Function owned no target and crashed

---
 src/korin/core/public/templates/function.h | 29 ++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index fba340e..9e440b0 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -47,6 +47,11 @@ struct FunctionOwnedObjectInterface
 	 */
 	virtual void * getAddress() = 0;
 
+	/**
+	 * Returns a copy of the owned object
+	 */
+	virtual FunctionOwnedObjectInterface * clone() const = 0;
+
 	/**
 	 * 
 	 */
@@ -110,6 +115,15 @@ struct FunctionOwnedObject : public FunctionOwnedObjectHeap
 	{
 		return &object;
 	}
+
+	virtual FORCE_INLINE FunctionOwnedObjectInterface * clone() const override
+	{
+		if constexpr (__is_constructible(T, const T&))
+			return new (MallocAnsi{}.alloc(sizeof(FunctionOwnedObject), alignof(FunctionOwnedObject))) FunctionOwnedObject{object};
+		else
+			// Cannot be copied
+			return nullptr;
+	}
 };
 
 /**
@@ -154,6 +168,17 @@ struct FunctionStorageBase
 		return getOwnedObject()->getAddress();
 	}
 
+	/**
+	 * Copy the object owned by another storage
+	 * 
+	 * @return true if the object was copied
+	 */
+	FORCE_INLINE bool bindCopy(const FunctionStorageBase & other)
+	{
+		heap = other.getOwnedObject()->clone();
+		return heap != nullptr;
+	}
+
 	/**
 	 * Destroy owned object
 	 */
@@ -236,10 +261,10 @@ struct FunctionBase<StorageT, RetT(Args...)>
 	 * Copy constructor
 	 */
 	FORCE_INLINE FunctionBase(const FunctionBase & other)
-		: callable{other.callable}
+		: callable{nullptr}
 	{
 		// Copy storage
-		//if (callable) storage.bindCopy(other.storage);
+		if (other.callable && storage.bindCopy(other.storage)) callable = other.callable;
 	}
 
 	/**
-- 
2.43.0


From 9e930b65646d689abcc9b6eb3fc968adfe480dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:06 +0000
Subject: [PATCH 47/74] fix: Function assignment did not compile when copying
 and recursed endlessly when moving

---
 src/korin/core/public/templates/function.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index 9e440b0..748b076 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -360,8 +360,7 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(const Function & other)
 	{
-		swap(*this, Function{other});
-		return *this;
+		return *this = Function{other};
 	}
 
 	/**
@@ -369,7 +368,8 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(Function && other)
 	{
-		swap(*this, other);
+		swap(this->callable, other.callable);
+		swap(this->storage.heap, other.storage.heap);
 		return *this;
 	}
 
-- 
2.43.0


From e5a18900921b7244497451eb2cebc7376ac31e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 48/74] fix: StaticArray could not be copied unless it was
 constant

---
 src/korin/core/public/templates/array.h | 26 +++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/korin/core/public/templates/array.h b/src/korin/core/public/templates/array.h
index 455dfbe..33bd34a 100644
--- a/src/korin/core/public/templates/array.h
+++ b/src/korin/core/public/templates/array.h
@@ -43,6 +43,32 @@ struct StaticArray
 		}
 	}
 
+	/**
+	 * Copy constructors.
+	 * @{
+	 */
+	constexpr FORCE_INLINE StaticArray(const StaticArray & other) = default;
+
+	constexpr FORCE_INLINE StaticArray(StaticArray & other)
+		: StaticArray{const_cast<const StaticArray&>(other)}
+	{
+		//
+	}
+	/** @} */
+
+	/**
+	 * Move constructor.
+	 */
+	constexpr FORCE_INLINE StaticArray(StaticArray && other) = default;
+
+	/**
+	 * Default assignments.
+	 * @{
+	 */
+	StaticArray & operator=(const StaticArray&) = default;
+	StaticArray & operator=(StaticArray&&) = default;
+	/** @} */
+
 	/**
 	 * Constructor that accepts one or
 	 * more item values.
-- 
2.43.0


From f1c335642b8ab4c61577d5056e2b598d03229569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 49/74] fix: Pair comparison applied the key comparison to the
 pairs and recursed endlessly

---
 src/korin/core/public/containers/pair.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/pair.h b/src/korin/core/public/containers/pair.h
index d73c9b4..82354cf 100644
--- a/src/korin/core/public/containers/pair.h
+++ b/src/korin/core/public/containers/pair.h
@@ -113,7 +113,7 @@ struct Pair
 	 */
 	FORCE_INLINE bool operator==(const Pair & other) const
 	{
-		return CompareT{}(*this, other) == 0;
+		return FindPair{}(*this, other) == 0;
 	}
 
 	FORCE_INLINE bool operator!=(const Pair & other) const
@@ -123,12 +123,12 @@ struct Pair
 
 	FORCE_INLINE bool operator<(const Pair & other) const
 	{
-		return CompareT{}(*this, other) < 0;
+		return FindPair{}(*this, other) < 0;
 	}
 
 	FORCE_INLINE bool operator>(const Pair & other) const
 	{
-		return CompareT{}(*this, other) > 0;
+		return FindPair{}(*this, other) > 0;
 	}
 
 	FORCE_INLINE bool operator<=(const Pair & other) const
-- 
2.43.0


From e18f73f9dd03847d1ac6c4e2c834605b7ca1630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 50/74] fix: ThreeWayCompare of pointers did not compile

---
 src/korin/core/public/templates/functional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/functional.h b/src/korin/core/public/templates/functional.h
index a887d1c..27b0811 100644
--- a/src/korin/core/public/templates/functional.h
+++ b/src/korin/core/public/templates/functional.h
@@ -41,6 +41,6 @@ struct ThreeWayCompare
 	template<typename A, typename B>
 	FORCE_INLINE int32 operator()(const A * a, const B * b) const
 	{
-		return *this(forward<A>(*a), forward<B>(*b));
+		return (*this)(*a, *b);
 	}
 };
\ No newline at end of file
-- 
2.43.0


From 827ce804f0b313c2156e237e26a27fa70a8c144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 51/74] fix: atomic pointers moved by bytes while returning
 elements

---
 .../core/public/unix/unix_platform_atomics.h    | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/korin/core/public/unix/unix_platform_atomics.h b/src/korin/core/public/unix/unix_platform_atomics.h
index f49b00f..a5ab2dd 100644
--- a/src/korin/core/public/unix/unix_platform_atomics.h
+++ b/src/korin/core/public/unix/unix_platform_atomics.h
@@ -36,6 +36,23 @@ struct UnixPlatformAtomics : public GenericPlatformAtomics
 		return __sync_fetch_and_sub(value, amount);
 	}
 
+	/**
+	 * Pointers move by whole elements.
+	 * @{
+	 */
+	template<typename T, typename IntT>
+	static FORCE_INLINE T * add(T * volatile * value, IntT amount)
+	{
+		return __atomic_fetch_add(value, amount * static_cast<intp>(sizeof(T)), __ATOMIC_SEQ_CST);
+	}
+
+	template<typename T, typename IntT>
+	static FORCE_INLINE T * sub(T * volatile * value, IntT amount)
+	{
+		return __atomic_fetch_sub(value, amount * static_cast<intp>(sizeof(T)), __ATOMIC_SEQ_CST);
+	}
+	/** @} */
+
 	/**
 	 * 
 	 */
-- 
2.43.0


From 1a70a11ea40d9fbaf83b93ac3dc973a6463763d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 52/74] fix: assigning to an atomic returned whatever it held
 later

---
 src/korin/core/public/templates/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/atomic.h b/src/korin/core/public/templates/atomic.h
index 8aeadd8..f27752e 100644
--- a/src/korin/core/public/templates/atomic.h
+++ b/src/korin/core/public/templates/atomic.h
@@ -265,7 +265,7 @@ struct Atomic final : public ChooseAtomicTypeT<AtomicT>
 	 */
 	FORCE_INLINE AtomicT operator=(const AtomicT & inValue)
 	{
-		return (this->store(inValue), this->value);
+		return (this->store(inValue), inValue);
 	}
 
 private:
-- 
2.43.0


From f8677f3c4204daf11fc92f9d21934518925a37d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 53/74] fix: scalar minus and over a vector swapped their
 operands, and scalar with Vec4 did not compile

---
 src/korin/core/public/math/vec2.h | 4 ++--
 src/korin/core/public/math/vec3.h | 4 ++--
 src/korin/core/public/math/vec4.h | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index 2047bc6..b62cb32 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -252,7 +252,7 @@ struct alignas(2 * sizeof(T)) Vec2
 
 	friend FORCE_INLINE Vec2 operator-(T s, Vec2 v)
 	{
-		return v -= s;
+		return Vec2{s} -= v;
 	}
 
 	friend FORCE_INLINE Vec2 operator*(T s, Vec2 v)
@@ -262,7 +262,7 @@ struct alignas(2 * sizeof(T)) Vec2
 
 	friend FORCE_INLINE Vec2 operator/(T s, Vec2 v)
 	{
-		return v /= s;
+		return Vec2{s} /= v;
 	}
 	/// @}
 
diff --git a/src/korin/core/public/math/vec3.h b/src/korin/core/public/math/vec3.h
index b6441fc..4e344b7 100644
--- a/src/korin/core/public/math/vec3.h
+++ b/src/korin/core/public/math/vec3.h
@@ -270,7 +270,7 @@ struct Vec3
 
 	friend FORCE_INLINE Vec3 operator-(T s, const Vec3 & v)
 	{
-		return v - s;
+		return Vec3{s} -= v;
 	}
 
 	friend FORCE_INLINE Vec3 operator*(T s, const Vec3 & v)
@@ -280,7 +280,7 @@ struct Vec3
 
 	friend FORCE_INLINE Vec3 operator/(T s, const Vec3 & v)
 	{
-		return v / s;
+		return Vec3{s} /= v;
 	}
 	/// @}
 
diff --git a/src/korin/core/public/math/vec4.h b/src/korin/core/public/math/vec4.h
index 26cbc68..cf25488 100644
--- a/src/korin/core/public/math/vec4.h
+++ b/src/korin/core/public/math/vec4.h
@@ -262,22 +262,22 @@ struct Vec4
 
 	friend FORCE_INLINE Vec4 operator+(T s, const Vec4 & v)
 	{
-		return v += s;
+		return v + s;
 	}
 
 	friend FORCE_INLINE Vec4 operator-(T s, const Vec4 & v)
 	{
-		return v -= s;
+		return Vec4{s} -= v;
 	}
 
 	friend FORCE_INLINE Vec4 operator*(T s, const Vec4 & v)
 	{
-		return v *= s;
+		return v * s;
 	}
 
 	friend FORCE_INLINE Vec4 operator/(T s, const Vec4 & v)
 	{
-		return v /= s;
+		return Vec4{s} /= v;
 	}
 	/// @}
 
-- 
2.43.0


From 6de631a5d7fb031079cf44af6095b02a2300ddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 54/74] fix: Vec2 cross product did not compile for integer
 vectors

---
 src/korin/core/public/math/vec2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index b62cb32..3e08676 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -285,7 +285,7 @@ struct alignas(2 * sizeof(T)) Vec2
 	 */
 	FORCE_INLINE Vec3<T> operator^(Vec2 other) const
 	{
-		return Vec3<T>{0.f, 0.f, x * other.y - y * other.x};
+		return Vec3<T>{T(0), T(0), x * other.y - y * other.x};
 	}
 
 	/**
-- 
2.43.0


From 6acf3818f3ed28d05ae80b20f8842a46b54b7661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 55/74] fix: Quat product applied the rotations in the opposite
 order to the documented one

---
 src/korin/core/public/math/quat.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 72aa05c..bcc90b5 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -110,9 +110,9 @@ public:
 		// thus everything is inverted
 		
 		return Quat{
-			this->w * other.x + this->x * other.w - this->y * other.z + this->z * other.y,
-			this->w * other.y + this->x * other.z + this->y * other.w - this->z * other.x,
-			this->w * other.z - this->x * other.y + this->y * other.x + this->z * other.w,
+			this->w * other.x + this->x * other.w + this->y * other.z - this->z * other.y,
+			this->w * other.y - this->x * other.z + this->y * other.w + this->z * other.x,
+			this->w * other.z + this->x * other.y - this->y * other.x + this->z * other.w,
 			this->w * other.w - this->x * other.x - this->y * other.y - this->z * other.z
 		};
 	}
-- 
2.43.0


From 10c0a24c747a31450a8fd85f1018c35e8033f03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 56/74] fix: Quat::getAngleAndAxis returned w in place of the z
 component of the axis

---
 src/korin/core/public/math/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index bcc90b5..a6fc20f 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -72,7 +72,7 @@ public:
 		float32 s = 1.f / PlatformMath::sin(a);
 
 		outAngle = a * 2.f;
-		outAxis = Vec3<float32>(this->x * s, this->y * s, this->w * s);
+		outAxis = Vec3<float32>(this->x * s, this->y * s, this->z * s);
 	}
 
 	/**
-- 
2.43.0


From 3174952c92e97f23737b8ceae974c2128602c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 57/74] fix: Quat could not be built from a rotation vector and
 would have divided by zero for no rotation

---
 src/korin/core/public/math/quat.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index a6fc20f..bcc32af 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -47,16 +47,15 @@ public:
 	/**
 	 * Constructs from physics rotation vector
 	 */
-	FORCE_INLINE Quat(Vec3<float32> v)
+	FORCE_INLINE Quat(const Vec3<float32> & v)
 	{
 		float32 alpha = v.getSize();
 		float32 a = alpha * 0.5f;
+		float32 s = alpha > 0.f ? PlatformMath::sin(a) / alpha : 0.5f;
 
-		v *= PlatformMath::sin(a) / alpha;
-
-		this->x = v.x;
-		this->y = v.y;
-		this->z = v.z;
+		this->x = v.x * s;
+		this->y = v.y * s;
+		this->z = v.z * s;
 		this->w = PlatformMath::cos(a);
 	}
 
-- 
2.43.0


From 354130a1693ef17323d10c31517bcc70e12cd255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 58/74] fix: Quat::getAngleAndAxis returned no axis for the
 identity

---
 src/korin/core/public/math/quat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index bcc32af..7185113 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -68,10 +68,10 @@ public:
 	FORCE_INLINE void getAngleAndAxis(float32 & outAngle, Vec3<float32> & outAxis) const
 	{
 		float32 a = PlatformMath::acos(this->w);
-		float32 s = 1.f / PlatformMath::sin(a);
+		float32 s = PlatformMath::sin(a);
 
 		outAngle = a * 2.f;
-		outAxis = Vec3<float32>(this->x * s, this->y * s, this->z * s);
+		outAxis = s != 0.f ? Vec3<float32>(this->x / s, this->y / s, this->z / s) : Vec3<float32>::right; // Any axis will do for no rotation
 	}
 
 	/**
-- 
2.43.0


From 9358decd1d95ad95ee6e6b760db21a6d28f5fe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 59/74] fix: matching a repetition of something empty never
 ended

---
 src/korin/core/public/regex/executor.h | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 447e0ae..d058965 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -2,6 +2,8 @@
 
 #include "core_types.h"
 #include "containers/tuple.h"
+#include "containers/set.h"
+#include "templates/functional.h"
 #include "./regex_types.h"
 
 namespace Re
@@ -29,6 +31,16 @@ namespace Re
 		using AlphaStringT = typename StateT::AlphaStringT;
 		using VisitT = Tuple<const StateT* /* currentState */, AlphaStringT /* input */, int32 /* totRead */>;
 
+		/// Orders visits by state and position
+		struct FindVisitT
+		{
+			FORCE_INLINE int32 operator()(const VisitT & a, const VisitT & b) const
+			{
+				const int32 order = FindStateT{}(a.template get<0>(), b.template get<0>());
+				return order ? order : ThreeWayCompare{}(a.template get<2>(), b.template get<2>());
+			}
+		};
+
 	public:
 		Executor() = delete;
 
@@ -129,6 +141,7 @@ namespace Re
 		{
 			// Empty visit queue
 			visitQueue.empty();
+			visitedSet = Set<VisitT, FindVisitT>{};
 
 			// Reset current visit with
 			// start state and input
@@ -169,6 +182,10 @@ namespace Re
 		/// Queue of states to visit
 		List<VisitT> visitQueue;
 
+		/// Visits already queued. Without it loops
+		/// that read nothing would never end
+		Set<VisitT, FindVisitT> visitedSet;
+
 		/// Current visited state and input
 		VisitT currVisit;
 	};
@@ -189,7 +206,13 @@ namespace Re
 		{
 			for (const StateT * nextState : currState->getNextStates())
 			{
-				visitQueue.pushBack(VisitT{nextState, AlphabetTraitsT::consumeInput(currInput, numRead), currNumRead + numRead});
+				VisitT nextVisit{nextState, AlphabetTraitsT::consumeInput(currInput, numRead), currNumRead + numRead};
+
+				if (!visitedSet.get(nextVisit))
+				{
+					visitedSet.set(nextVisit);
+					visitQueue.pushBack(nextVisit);
+				}
 			}
 		}
 
-- 
2.43.0


From 066c8ad1e47ff3d3ea77f69f5cedcb6202b4daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 60/74] fix: regex read past the end of the subject where a
 negated class or a trailing backslash met it

---
 src/korin/core/public/regex/executor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index d058965..11a83f8 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -202,7 +202,8 @@ namespace Re
 		AlphaStringT & currInput = currVisit.template get<1>();
 		int32 currNumRead = currVisit.template get<2>();
 
-		if (currState->enterState(currInput, numRead, currNumRead))
+		// A state may not read past the end of the input
+		if (currState->enterState(currInput, numRead, currNumRead) && !(numRead > 0 && AlphabetTraitsT::isEOF(currInput)))
 		{
 			for (const StateT * nextState : currState->getNextStates())
 			{
-- 
2.43.0


From 783627ed048ceb5bc866633b1a4fb7cb34876dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 61/74] fix: lookahead, and so a negated class, took into
 account all of the subject that follows

---
 src/korin/core/public/regex/state.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index e0d31ef..f8246d1 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -682,8 +682,9 @@ namespace Re
 	template<typename AlphaT>
 	bool StatePositiveLookahed<AlphaT>::execute(ExecutorT && executor, int32 & outNumRead) const
 	{
+		// What follows the lookahead is not its business
 		bool isAccepted = false;
-		while (!executor.step(isAccepted));
+		while (!executor.step(isAccepted) && !(isAccepted = executor.isAcceptedState()));
 
 		outNumRead = 0;
 		return isAccepted;
@@ -713,8 +714,9 @@ namespace Re
 	template<typename AlphaT>
 	bool StateNegativeLookahed<AlphaT>::execute(ExecutorT && executor, int32 & outNumRead) const
 	{
+		// What follows the lookahead is not its business
 		bool isAccepted = false;
-		while (!executor.step(isAccepted));
+		while (!executor.step(isAccepted) && !(isAccepted = executor.isAcceptedState()));
 
 		outNumRead = 0;
 		return !isAccepted;
-- 
2.43.0


From 54c94fb7c7263fd0bf3e2d0551620b5f195b8551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 62/74] fix: a repeated group with several paths continued from
 any of its states

---
 src/korin/core/public/regex/automaton.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 3966be5..4117bda 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -360,6 +360,10 @@ namespace Re
 					prevState->addNextState(currentState);
 				}
 			} while (visitQueue.popBack(currVisit));
+
+			// Continue from the clone of the end state,
+			// which may not be the last one visited
+			visitedStates.find(endState, currentState);
 		}
 
 	public:
-- 
2.43.0


From 6763de4c4b50806579e48a5bdcbd7ceb864727b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 63/74] fix: quantifiers {0}, {0,n}, {0,} and {1,} crashed or
 counted wrong

---
 src/korin/core/private/regex/regex.cpp  |  2 +-
 src/korin/core/public/regex/automaton.h | 67 ++++++++++++++-----------
 2 files changed, 39 insertions(+), 30 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 9ed8bc1..6973403 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -355,7 +355,7 @@ namespace Re
 					if (idx + 1 == closeBracketPos)
 					{
 						// Repeat at least min times
-						builder.pushRepeat(min, 0);
+						builder.pushRepeat(min, -1);
 						idx = closeBracketPos;
 						break;
 					}
diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 4117bda..6654acb 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -628,8 +628,8 @@ namespace Re
 		 * 	of group repetitions (default 1)
 		 * @param maxRepeats maximum number
 		 * 	of group repetitions. If this
-		 * 	value is zero, @c minRepeats is
-		 * 	treated as `at least` lower
+		 * 	value is negative, @c minRepeats
+		 * 	is treated as `at least` lower
 		 * 	bound
 		 * @return ref to self
 		 */
@@ -637,48 +637,57 @@ namespace Re
 		{
 			// Create epsilon state as future group end
 			// and also to skip groups
+			StateT * startState = groupStart[currentGroup];
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
-			StateT * prevState;
 
-			for (int32 repeatIdx = 1; repeatIdx < minRepeats; ++repeatIdx)
-			{
-				// Process min repetitions first.
-				// Insert an epsilon state between
-				// clones so that we can create a
-				// jump circuit if necessary
-				// (otherwise we have problems
-				// with symbol states vs. proper
-				// groups)
-				prevState = currentState = currentState->addNextState(automaton.template pushState<typename State::EpsilonT>());
-				
-				// Create a clone of the group
-				cloneCurrentGroup();
-			}
+			CHECK(maxRepeats < 0 || minRepeats <= maxRepeats);
 
-			if (maxRepeats == 0)
-			{
-				// Create jump circuit
-				currentState->addNextState(prevState);
-			}
-			else
+			if (maxRepeats != 0)
 			{
-				CHECK(minRepeats <= maxRepeats);
+				// The group itself is the first repetition
+				StateT * prevState = startState;
+				const int32 numRepeats = maxRepeats < 0 ? minRepeats : maxRepeats;
 
-				for (int32 repeatIdx = minRepeats; repeatIdx < maxRepeats; ++repeatIdx)
+				for (int32 repeatIdx = 1; repeatIdx < numRepeats; ++repeatIdx)
 				{
-					// Groups here can be skipped.
-					currentState->addNextState(epsilon);
+					if (repeatIdx >= minRepeats)
+					{
+						// Repetitions from here on can be skipped
+						currentState->addNextState(epsilon);
+					}
+
+					// Insert an epsilon state between
+					// clones so that we can create a
+					// jump circuit if necessary
+					// (otherwise we have problems
+					// with symbol states vs. proper
+					// groups)
+					prevState = currentState = currentState->addNextState(automaton.template pushState<typename State::EpsilonT>());
 
-					// Create group clone
+					// Create a clone of the group
 					cloneCurrentGroup();
 				}
+
+				if (maxRepeats < 0)
+				{
+					// Create jump circuit
+					currentState->addNextState(prevState);
+				}
+
+				currentState->addNextState(epsilon);
+			}
+
+			if (minRepeats == 0)
+			{
+				// No repetition at all
+				startState->addNextState(epsilon);
 			}
 
 			// Define current group as entire
 			// repetition group, such that
 			// following operations address
 			// it
-			groupEnd[currentGroup] = currentState = currentState->addNextState(epsilon);
+			groupEnd[currentGroup] = currentState = epsilon;
 
 			return *this;
 		}
-- 
2.43.0


From 769f9a828d7c6b60b7fb6842f0ba606ce5047142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 64/74] fix: compiling a repetition of an optional or repeated
 item never ended

---
 src/korin/core/public/regex/automaton.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 6654acb..eae03f9 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -580,8 +580,10 @@ namespace Re
 			currentState->addNextState(epsilon);
 			currentState = epsilon;
 
-			// Create shortcut
+			// Create shortcut. It is part of the group
+			// for operations that follow
 			groupStart[currentGroup]->addNextState(epsilon);
+			groupEnd[currentGroup] = epsilon;
 
 			return *this;
 		}
@@ -609,6 +611,10 @@ namespace Re
 			// to the beginning of the group
 			groupEnd[currentGroup]->addNextState(groupStart[currentGroup]);
 
+			// The jump is part of the group for
+			// operations that follow
+			groupEnd[currentGroup] = currentState = currentState->addNextState(automaton.template pushState<typename State::EpsilonT>());
+
 			return *this;
 		}
 
-- 
2.43.0


From 0124fa24c3d65eab1d37d183c0a45debc25a1e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 65/74] fix: destroying an automaton leaked what its states own

---
 src/korin/core/public/regex/state.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index f8246d1..5e1abeb 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -75,6 +75,12 @@ namespace Re
 			//
 		}
 
+		/**
+		 * States are destroyed through their
+		 * base.
+		 */
+		virtual ~StateBase() = default;
+
 		/**
 		 * Returns the immutable set of
 		 * next states (i.e. a set of states
@@ -563,7 +569,6 @@ namespace Re
 		LambdaT lambda;
 
 		/// Optional lambda name
-		// FIXME: Investigate possible memory leak
 		String name;
 	};
 
-- 
2.43.0


From 7ff9a054addfb50737c5401a83b2db6180e24b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 66/74] fix: a character class ending in an escaped backslash
 was not recognized as a class

---
 src/korin/core/private/regex/regex.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 6973403..1d57a14 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -217,9 +217,13 @@ namespace Re
 					// Get index of open and close brackets
 					sizet openBracketIdx = idx;
 					sizet closeBracketIdx = idx;
-					for (; (pattern[closeBracketIdx] != ']' || pattern[closeBracketIdx - 1] == '\\') && closeBracketIdx < patternLen ; ++closeBracketIdx);
+					for (++closeBracketIdx; closeBracketIdx < patternLen && pattern[closeBracketIdx] != ']'; ++closeBracketIdx)
+					{
+						// Skip escaped character
+						if (pattern[closeBracketIdx] == '\\') ++closeBracketIdx;
+					}
 					
-					if (closeBracketIdx == patternLen)
+					if (closeBracketIdx >= patternLen)
 					{
 						// If no close bracket found, interpret
 						// this as square bracket symbol, and
-- 
2.43.0


From 1ffb3538d46f6e4f29aa420854c4cce1d75477c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 67/74] fix: a range ending in an escaped character ran past
 its character class

---
 src/korin/core/private/regex/regex.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 1d57a14..17b7945 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -279,10 +279,11 @@ namespace Re
 						}
 						else if (pattern[idx + 1] == '-' && pattern[idx + 2] != ']')
 						{
-							// Range specifier
-							CHECKF(pattern[idx] < pattern[idx + 2], "Character range out of order");
-							builder.pushState<RangeT>(pattern[idx], pattern[idx + 2]);
-							idx += 3;
+							// Range specifier, its end may be escaped
+							const sizet maxIdx = pattern[idx + 2] == '\\' ? idx + 3 : idx + 2;
+							CHECKF(pattern[idx] < pattern[maxIdx], "Character range out of order");
+							builder.pushState<RangeT>(pattern[idx], pattern[maxIdx]);
+							idx = maxIdx + 1;
 						}
 						else
 						{
-- 
2.43.0


From da7bf27ab578ed534739348b7c036b71d38ba6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 68/74] fix: Executor::reset with another input started over on
 the old one

---
 src/korin/core/public/regex/executor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 11a83f8..d9a8bac 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -150,10 +150,10 @@ namespace Re
 
 		FORCE_INLINE void reset(const AlphaStringT & inInput)
 		{
-			reset();
-
 			// Change input string
 			input = inInput;
+
+			reset();
 		}
 		/** @} */
 
-- 
2.43.0


From 6ce07c7c2811e200b51a810034293b6d5e340dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 69/74] fix: Executor::getCurrentState did not compile

---
 src/korin/core/public/regex/executor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index d9a8bac..6b4b951 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -76,7 +76,7 @@ namespace Re
 			return currVisit.template get<0>();
 		}
 
-		FORCE_INLINE StateT * getCurrentState()
+		FORCE_INLINE const StateT * getCurrentState()
 		{
 			return currVisit.template get<0>();
 		}
-- 
2.43.0


From 82f8f1cb495e76222aaab9d0bf84738f8413430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 70/74] fix: inserting an element of an array into the same
 array read it after it moved

---
 src/korin/core/public/containers/array.h | 25 ++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index abe6ea3..0573c42 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -585,6 +585,8 @@ public:
 	{
 		if (idx >= count)
 		{
+			if (isStored(initValue)) return operator()(idx, T{forward<ItemT>(initValue)});
+
 			return *(new (&(operator()(idx))) T{forward<ItemT>(initValue)});
 		}
 		
@@ -625,6 +627,17 @@ public:
 	/** @} */
 
 protected:
+	/**
+	 * Returns true if any of the items is
+	 * stored in this array, and would move
+	 * with it.
+	 */
+	template<typename ... ItemListT>
+	FORCE_INLINE bool isStored(const ItemListT & ... items) const
+	{
+		return (((const void*)&items >= buffer && (const void*)&items < buffer + count) || ...);
+	}
+
 	/**
 	 * Move elements up to make room for
 	 * new ones, which are not constructed.
@@ -682,6 +695,8 @@ public:
 	template<typename ItemT>
 	T & insertAt(uint64 idx, ItemT && item)
 	{
+		if (isStored(item)) return insertAt(idx, T{forward<ItemT>(item)});
+
 		const uint64 j = idx + 1;
 
 		if (idx < count)
@@ -706,6 +721,8 @@ public:
 	template<typename ItemT, typename ... ItemListT>
 	void insertAt(uint64 idx, ItemT && item, ItemListT && ... items)
 	{
+		if (isStored(item, items ...)) return insertAt(idx, T{forward<ItemT>(item)}, T{forward<ItemListT>(items)} ...);
+
 		// Number of elements to insert
 		constexpr uint64 numArgs = 1 + sizeof... (ItemListT);
 		const uint64 j = idx + numArgs;
@@ -741,6 +758,8 @@ public:
 	template<typename ItemT>
 	T & insertFirst(ItemT && item)
 	{
+		if (isStored(item)) return insertFirst(T{forward<ItemT>(item)});
+
 		resizeIfNecessary(count + 1);
 
 		// Move elements up
@@ -754,6 +773,8 @@ public:
 	template<typename ItemT, typename ... ItemListT>
 	void insertFirst(ItemT && item, ItemListT && ... items)
 	{
+		if (isStored(item, items ...)) return insertFirst(T{forward<ItemT>(item)}, T{forward<ItemListT>(items)} ...);
+
 		constexpr uint64 numArgs = 1 + sizeof... (items);
 
 		// Resize and move elements up
@@ -776,6 +797,8 @@ public:
 	template<typename ItemT>
 	T & insertLast(ItemT && item)
 	{
+		if (isStored(item)) return insertLast(T{forward<ItemT>(item)});
+
 		resizeIfNecessary(count + 1);
 		return insertNoResize(count++, forward<ItemT>(item));
 	}
@@ -783,6 +806,8 @@ public:
 	template<typename ItemT, typename ... ItemListT>
 	void insertLast(ItemT && item, ItemListT && ... items)
 	{
+		if (isStored(item, items ...)) return insertLast(T{forward<ItemT>(item)}, T{forward<ItemListT>(items)} ...);
+
 		constexpr uint64 numArgs = 1 + sizeof... (items);
 
 		// Resize and copy construct elements
-- 
2.43.0


From 812e9a27583f1ddba9bf26c6d244bbc17242ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 71/74] fix: a moved-from container lost its allocator,
 assigning or adding to it crashed

---
 src/korin/core/public/hal/malloc_object.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/korin/core/public/hal/malloc_object.h b/src/korin/core/public/hal/malloc_object.h
index 3caf770..65bf1b7 100644
--- a/src/korin/core/public/hal/malloc_object.h
+++ b/src/korin/core/public/hal/malloc_object.h
@@ -43,7 +43,7 @@ public:
 	FORCE_INLINE MallocObject(MallocObject && other)
 		: malloc{other.malloc}
 	{
-		other.malloc = nullptr;
+		// Other keeps its allocator, it may be used again
 	}
 
 	/**
@@ -52,8 +52,6 @@ public:
 	FORCE_INLINE MallocObject & operator=(MallocObject && other)
 	{
 		malloc = other.malloc;
-		other.malloc = nullptr;
-
 		return *this;
 	}
 
-- 
2.43.0


From 9b87442309306deca96b334ea518f03db0558981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 72/74] fix: copying a container that owns its allocator

The implicit copy of Array, List and BinaryTree with a managed allocator
copied the allocator memberwise, so that the copy of a pool allocator
shared and freed the blocks of the original. Copy the elements into
memory of the copy's own allocator instead.
---
 src/korin/core/public/containers/array.h | 20 ++++++++++++++++++++
 src/korin/core/public/containers/list.h  | 20 ++++++++++++++++++++
 src/korin/core/public/containers/tree.h  | 20 ++++++++++++++++++++
 3 files changed, 60 insertions(+)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 0573c42..7cc37fa 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -986,6 +986,26 @@ public:
 		//
 	}
 
+	/**
+	 * Copy constructor, the array has an
+	 * allocator of its own.
+	 */
+	Array(const Array & other)
+		: Base{&autoMalloc}
+		, autoMalloc{}
+	{
+		Base::operator=(other);
+	}
+
+	/**
+	 * Copy assignment, keeps the allocator.
+	 */
+	Array & operator=(const Array & other)
+	{
+		Base::operator=(other);
+		return *this;
+	}
+
 	/**
 	 * Destructor, destroy array buffer
 	 * here, because we need allocator,
diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index eb81072..2185b67 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -701,6 +701,26 @@ public:
 		//
 	}
 
+	/**
+	 * Copy constructor, the list has an
+	 * allocator of its own.
+	 */
+	List(const List & other)
+		: Base{&autoMalloc}
+		, autoMalloc{}
+	{
+		Base::operator=(other);
+	}
+
+	/**
+	 * Copy assignment, keeps the allocator.
+	 */
+	List & operator=(const List & other)
+	{
+		Base::operator=(other);
+		return *this;
+	}
+
 	/**
 	 * Destructor, destroys links here
 	 * because we need the allocator.
diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index 18375df..39cb66a 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -1641,6 +1641,26 @@ public:
 		//
 	}
 
+	/**
+	 * Copy constructor, the tree has an
+	 * allocator of its own.
+	 */
+	BinaryTree(const BinaryTree & other)
+		: Base{&autoMalloc}
+		, autoMalloc{}
+	{
+		Base::operator=(other);
+	}
+
+	/**
+	 * Copy assignment, keeps the allocator.
+	 */
+	BinaryTree & operator=(const BinaryTree & other)
+	{
+		Base::operator=(other);
+		return *this;
+	}
+
 	/**
 	 * Destroy tree before destroying
 	 * managed allocator.
-- 
2.43.0


From 60757d667479c3a7b7d8e78b73430d678d5a7283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 73/74] fix: order of the components of a SIMD vector loaded
 from scalars

_mm_set_ps takes the components from the last to the first.
---
 src/korin/core/public/math/simd_float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/simd_float.h b/src/korin/core/public/math/simd_float.h
index 2d2380c..248d784 100644
--- a/src/korin/core/public/math/simd_float.h
+++ b/src/korin/core/public/math/simd_float.h
@@ -31,7 +31,7 @@ struct Vector4<float32>
 
 	static FORCE_INLINE Type load(T a, T b, T c, T d)
 	{
-		return _mm_set_ps(a, b, c, d);
+		return _mm_setr_ps(a, b, c, d);
 	}
 
 	static FORCE_INLINE Type load(T s)
-- 
2.43.0


From 8008b1c902b8b6d789723b63492bcebe8d4a865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 74/74] fix: masked store of a SIMD vector

_mm_mask_store_ps needs AVX-512, which the project does not enable; use
the AVX masked store.
---
 src/korin/core/public/math/simd_float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/simd_float.h b/src/korin/core/public/math/simd_float.h
index 248d784..14840f5 100644
--- a/src/korin/core/public/math/simd_float.h
+++ b/src/korin/core/public/math/simd_float.h
@@ -60,7 +60,7 @@ struct Vector4<float32>
 	template<uint8 mask = 0xf>
 	static FORCE_INLINE void store(T * ptr, Type v)
 	{
-		_mm_mask_store_ps(ptr, mask, v);
+		_mm_maskstore_ps(ptr, _mm_setr_epi32(mask & 1 ? -1 : 0, mask & 2 ? -1 : 0, mask & 4 ? -1 : 0, mask & 8 ? -1 : 0), v);
 	}
 
 	/**
-- 
2.43.0

