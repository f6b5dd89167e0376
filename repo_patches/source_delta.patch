From 1cae56689f6da749d71243218ce7f467a9983cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 01/94] fix: element-wise copy must stop after n elements

---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index b5bd1fa..809d432 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -112,7 +112,7 @@ struct GenericPlatformMemory
 	template<typename TT>
 	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
 	{
-		for (uint64 i = 0; i < n; ++n, ++dst, ++src)
+		for (uint64 i = 0; i < n; ++i, ++dst, ++src)
 			// Non overlapping required
 			*dst = *src;
 	}
-- 
2.43.0


From b4712280a346f4e7ef08742cfbdf4d74300303c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 02/94] fix: moving elements up must copy from right to left

---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index 809d432..f2f6b18 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -145,7 +145,7 @@ struct GenericPlatformMemory
 				dst[i] = move(src[i]);
 			}
 		}
-		else if (LIKELY(src > dst))
+		else if (LIKELY(dst > src))
 		{
 			// Copy right to left
 			for (uint64 i = 1; i <= n; ++i)
-- 
2.43.0


From db63fcf10fb33c09f0354a495cd1da00cdda8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 03/94] fix: memory comparison must return the sign of the
 difference

---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index f2f6b18..04802bb 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -51,7 +51,7 @@ struct GenericPlatformMemory
 	 * 	mem0 is greater than the corresponding
 	 * 	byte in mem1
 	 */
-	static FORCE_INLINE bool memcmp(const void * mem0, const void * mem1, sizet size)
+	static FORCE_INLINE int32 memcmp(const void * mem0, const void * mem1, sizet size)
 	{
 		return ::memcmp(mem0, mem1, size);
 	}
-- 
2.43.0


From df2b3647a469b97808fe0909902cf3f967e5d7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 04/94] fix: copy constructor must run for elements that are
 not trivially copyable

---
 src/korin/core/public/generic/generic_platform_memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index 04802bb..f9499e9 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -77,7 +77,7 @@ struct GenericPlatformMemory
 
 	/**
 	 * Copy elements from source to destination.
-	 * If elements are not trivially constructible
+	 * If elements are not trivially copyable
 	 * invoke copy constructor on each element,
 	 * otherwise a simple memory copy is performed.
 	 * 
@@ -86,14 +86,14 @@ struct GenericPlatformMemory
 	 * @param m num of elements
 	 */
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<!IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
-		for (uint32 i = 0; i < n; ++i)
+		for (uint64 i = 0; i < n; ++i)
 			new (dst + i) T{src[i]};
 	}
 
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
 		memcpy(dst, src, n * sizeof(T));
 	}
-- 
2.43.0


From f348bb7f3067de86c0f5a89036f5c362f2ab1244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 05/94] fix: array growth, insertion and removal must construct
 and destroy the items they move

---
 src/korin/core/public/containers/array.h      | 14 +++----
 .../public/generic/generic_platform_memory.h  | 40 +++++++++++++++++++
 2 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index e3d46b2..08bf580 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -315,10 +315,10 @@ protected:
 			// Allocate new memory
 			T * inBuffer = malloc.alloc(capacity);
 
-			// Copy elements and free old buffer
+			// Move elements and free old buffer
 			if (buffer)
 			{
-				Memory::constructCopyElements(inBuffer, buffer, count);
+				Memory::relocateElements(inBuffer, buffer, count);
 				malloc.free(buffer);
 			}
 
@@ -670,7 +670,7 @@ public:
 			resizeIfNecessary(count + 1);
 
 			// Move elements up to accomodate
-			Memory::moveElements(buffer + j, buffer + idx, count - idx);
+			Memory::relocateElements(buffer + j, buffer + idx, count - idx);
 			++count;
 		}
 		else resizeIfNecessary(count = j);
@@ -691,7 +691,7 @@ public:
 			resizeIfNecessary(count + numArgs);
 
 			// Move element up to accomodate
-			Memory::moveElements(buffer + j, buffer + idx, count - idx);
+			Memory::relocateElements(buffer + j, buffer + idx, count - idx);
 			count += numArgs;
 		}
 		else resizeIfNecessary((count = j));
@@ -715,7 +715,7 @@ public:
 		resizeIfNecessary(count + 1);
 
 		// Move elements up
-		Memory::moveElements(buffer + 1, buffer, count);
+		Memory::relocateElements(buffer + 1, buffer, count);
 		++count;
 
 		// Copy construct element
@@ -729,7 +729,7 @@ public:
 
 		// Resize and move elements up
 		resizeIfNecessary(count + numArgs);
-		Memory::moveElements(buffer + numArgs, buffer, count);
+		Memory::relocateElements(buffer + numArgs, buffer, count);
 		count += numArgs;
 
 		insertNoResize(0, forward<ItemT>(item), forward<ItemListT>(items) ...);
@@ -783,7 +783,7 @@ public:
 			Memory::destroyElements(buffer + idx, buffer + idx + num);
 
 			// Move elements to the left
-			Memory::moveElements(buffer + idx, buffer + idx + num, count - (idx + num));
+			Memory::relocateElements(buffer + idx, buffer + idx + num, count - (idx + num));
 
 			// Decrement count
 			count -= num;
diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index f9499e9..178901b 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -164,6 +164,46 @@ struct GenericPlatformMemory
 	}
 	/// @}
 
+	/**
+	 * Move elements to another place, which
+	 * may overlap with the current one.
+	 * Elements are constructed in the destination
+	 * (which is treated as raw memory) and
+	 * destroyed in the source.
+	 * 
+	 * @param dst destination buffer
+	 * @param src source buffer
+	 * @param n number of elements
+	 * @{
+	 */
+	template<typename TT>
+	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type relocateElements(TT * dst, TT * src, uint64 n)
+	{
+		if (dst < src)
+		{
+			for (uint64 i = 0; i < n; ++i)
+			{
+				new (dst + i) TT{move(src[i])};
+				src[i].~TT();
+			}
+		}
+		else if (dst > src)
+		{
+			for (uint64 i = n; i > 0; --i)
+			{
+				new (dst + i - 1) TT{move(src[i - 1])};
+				src[i - 1].~TT();
+			}
+		}
+	}
+
+	template<typename TT>
+	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<TT>::value>::Type relocateElements(TT * dst, TT * src, uint64 n)
+	{
+		memmov(dst, src, n * sizeof(TT));
+	}
+	/// @}
+
 	/**
 	 * Destroy elements in range
 	 * 
-- 
2.43.0


From 92438b85e6d4821c999a2543710b9cf45ddf1c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 06/94] fix: removing the last item of an array must destroy it

---
 src/korin/core/public/containers/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 08bf580..8c609b8 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -807,7 +807,7 @@ public:
 		--count;
 
 		// Destroy element
-		Memory::destroyElements(buffer + count, buffer + count);
+		Memory::destroyElements(buffer + count, buffer + count + 1);
 	}
 
 	/**
-- 
2.43.0


From 1b1512f9fdc390b00394367fdd1cf344221e11b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 07/94] fix: inserting past the last item of an array must not
 read past the old buffer

---
 src/korin/core/public/containers/array.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 8c609b8..2f602c2 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -673,7 +673,11 @@ public:
 			Memory::relocateElements(buffer + j, buffer + idx, count - idx);
 			++count;
 		}
-		else resizeIfNecessary(count = j);
+		else
+		{
+			resizeIfNecessary(j);
+			count = j;
+		}
 		
 		// Copy construct element
 		return insertNoResize(idx, forward<ItemT>(item));
@@ -694,7 +698,11 @@ public:
 			Memory::relocateElements(buffer + j, buffer + idx, count - idx);
 			count += numArgs;
 		}
-		else resizeIfNecessary((count = j));
+		else
+		{
+			resizeIfNecessary(j);
+			count = j;
+		}
 		
 		// Copy construct elements
 		insertNoResize(idx, forward<ItemT>(item), forward<ItemListT>(items) ...);
-- 
2.43.0


From e61df93770a21c912424e20eef1d1a0547370335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 08/94] fix: an array built from a buffer must construct each
 item once

---
 src/korin/core/public/containers/array.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 2f602c2..8f7ccec 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -388,12 +388,15 @@ public:
 	 * @param slack extra space required
 	 */
 	FORCE_INLINE Array(const T * inBuffer, uint64 inCount, uint64 slack = 0)
-		: Array{inCount + slack, inCount}
+		: Array{inCount + slack}
 	{
 		CHECK(buffer != nullptr)
 
 		// Copy source buffer to destination
-		if (inBuffer && count > 0) Memory::constructCopyElements(buffer, inBuffer, count);
+		if (inBuffer && inCount > 0) Memory::constructCopyElements(buffer, inBuffer, inCount);
+		else Memory::constructDefaultElements(buffer, buffer + inCount);
+
+		count = inCount;
 	}
 
 	/**
-- 
2.43.0


From 83f65688fcc9d0f50d4187a27f2122317933088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 09/94] fix: an item of an array can be inserted in the same
 array

---
 src/korin/core/public/containers/array.h | 26 +++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 8f7ccec..f6072a2 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -668,6 +668,10 @@ public:
 	{
 		const uint64 j = idx + 1;
 
+		// The item could be part of this array, make
+		// it before anything is moved
+		T newItem{forward<ItemT>(item)};
+
 		if (idx < count)
 		{
 			resizeIfNecessary(count + 1);
@@ -682,8 +686,8 @@ public:
 			count = j;
 		}
 		
-		// Copy construct element
-		return insertNoResize(idx, forward<ItemT>(item));
+		// Move construct element
+		return insertNoResize(idx, move(newItem));
 	}
 
 	template<typename ItemT, typename ... ItemListT>
@@ -723,14 +727,17 @@ public:
 	template<typename ItemT>
 	T & insertFirst(ItemT && item)
 	{
+		// The item could be part of this array
+		T newItem{forward<ItemT>(item)};
+
 		resizeIfNecessary(count + 1);
 
 		// Move elements up
 		Memory::relocateElements(buffer + 1, buffer, count);
 		++count;
 
-		// Copy construct element
-		return insertNoResize(0, forward<ItemT>(item));
+		// Move construct element
+		return insertNoResize(0, move(newItem));
 	}
 
 	template<typename ItemT, typename ... ItemListT>
@@ -758,7 +765,16 @@ public:
 	template<typename ItemT>
 	T & insertLast(ItemT && item)
 	{
-		resizeIfNecessary(count + 1);
+		if (count == capacity)
+		{
+			// The item could be part of this array,
+			// make it before the buffer is replaced
+			T newItem{forward<ItemT>(item)};
+
+			resizeIfNecessary(count + 1);
+			return insertNoResize(count++, move(newItem));
+		}
+
 		return insertNoResize(count++, forward<ItemT>(item));
 	}
 
-- 
2.43.0


From 1a8c2f2551fe8ce5f902939fdc2e5cb8878bc3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 10/94] fix: a moved-from container must still be able to
 allocate

---
 src/korin/core/public/hal/malloc_object.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/korin/core/public/hal/malloc_object.h b/src/korin/core/public/hal/malloc_object.h
index 3caf770..13a3b87 100644
--- a/src/korin/core/public/hal/malloc_object.h
+++ b/src/korin/core/public/hal/malloc_object.h
@@ -43,7 +43,7 @@ public:
 	FORCE_INLINE MallocObject(MallocObject && other)
 		: malloc{other.malloc}
 	{
-		other.malloc = nullptr;
+		// Keep the source usable, it shares the allocator
 	}
 
 	/**
@@ -52,7 +52,6 @@ public:
 	FORCE_INLINE MallocObject & operator=(MallocObject && other)
 	{
 		malloc = other.malloc;
-		other.malloc = nullptr;
 
 		return *this;
 	}
-- 
2.43.0


From 1a217abb906dcd1b5f0d677a64571ad1a1eba290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 11/94] fix: list move assignment must return the list

---
 src/korin/core/public/containers/list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 0542e89..4f942bf 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -350,6 +350,8 @@ public:
 
 		other.head = other.tail = nullptr;
 		other.length = 0;
+
+		return *this;
 	}
 
 	/**
-- 
2.43.0


From 1361c9ddb440556328c6c1ea7572ab595b80d63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 12/94] fix: assigning a shorter list must update the length

---
 src/korin/core/public/containers/list.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 4f942bf..3f0a3ad 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -318,6 +318,7 @@ public:
 				LinkT * link = it;
 				it = it->next;
 				destroyLink(link);
+				--length;
 			}
 
 			// Push remaining objects
-- 
2.43.0


From 0b70b4f88a9ed292504ff8f73a844c171d1a911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 13/94] fix: removing the first or last link of a list must
 unlink it from its neighbour

---
 src/korin/core/public/containers/list.h | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 3f0a3ad..46bdc0a 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -524,19 +524,14 @@ public:
 	 */
 	void remove(LinkT * link)
 	{
-		if (link != head && link != tail)
-		{
-			LinkT * prev = link->prev;
-			LinkT * next = link->next;
-			
-			if (prev) prev->next = next;
-			if (next) next->prev = prev;
-		}
-		else
-		{
-			if (link == head) head = head->next;
-			if (link == tail) tail = tail->prev;
-		}
+		LinkT * prev = link->prev;
+		LinkT * next = link->next;
+
+		if (prev) prev->next = next;
+		if (next) next->prev = prev;
+
+		if (link == head) head = next;
+		if (link == tail) tail = prev;
 
 		--length;
 
-- 
2.43.0


From 9c1bf2d8335dd7a53a8b81996a63ea08f3cb8fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 14/94] fix: pushing several items to a list must not move from
 the caller's objects

---
 src/korin/core/public/containers/list.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 46bdc0a..e6390dc 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -467,7 +467,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushBack(DataListT && ... datas)
 	{
-		(pushBack(forward<DataT>(datas)), ...);
+		(pushBack(forward<DataListT>(datas)), ...);
 	}
 	/** @} */
 
@@ -515,7 +515,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushFront(DataListT && ... datas)
 	{
-		(... ,pushFront(forward<DataT>(datas)));
+		(... ,pushFront(forward<DataListT>(datas)));
 	}
 	/** @} */
 
-- 
2.43.0


From 142a9cd53746f4f8b4d9624bfe58761810c820e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 15/94] fix: a list that owns its allocator must destroy its
 links first

---
 src/korin/core/public/containers/list.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index e6390dc..4c72c14 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -701,6 +701,15 @@ public:
 		//
 	}
 
+	/**
+	 * Destructor, destroy links here
+	 * because we need the allocator.
+	 */
+	FORCE_INLINE ~List()
+	{
+		Base::destroy();
+	}
+
 protected:
 	/// Managed allocator
 	MallocT autoMalloc;
-- 
2.43.0


From bf822a521b41be979242de9852d0ade04442bad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 16/94] fix: copying an empty tree must not dereference its
 missing root

---
 src/korin/core/public/containers/tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index db39000..3a12d2d 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -1100,7 +1100,7 @@ public:
 	FORCE_INLINE BinaryTree(const BinaryTree & other)
 		: BinaryTree{}
 	{
-		root = cloneSubtree(other.root);
+		if (other.root) root = cloneSubtree(other.root);
 		numNodes = other.numNodes;
 	}	
 	
-- 
2.43.0


From 4768b6b80eb58cdb3204e8fbca813cf4f156c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 17/94] fix: the number of nodes of a constant subtree can be
 asked for

---
 src/korin/core/public/containers/tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index 3a12d2d..18375df 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -140,7 +140,7 @@ struct BinaryNode
 	 * 	spawning from root node
 	 * @{
 	 */
-	static FORCE_INLINE uint64 getTreeSize(BinaryNode * root)
+	static FORCE_INLINE uint64 getTreeSize(const BinaryNode * root)
 	{
 		return root ? 1 + getTreeSize(root->right) + getTreeSize(root->left) : 0;
 	}
-- 
2.43.0


From 32cf6f7c202d3fca5ce5483c2455be0de53304a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 18/94] fix: set any() must also look for its first key

---
 src/korin/core/public/containers/set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index dd73b06..74f29cd 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -223,7 +223,7 @@ public:
 	template<typename KeyT, typename ...KeyListT>
 	FORCE_INLINE bool any(const KeyT & key, KeyListT && ...keys) const
 	{
-		return (get(keys) || ... || false);
+		return get(key) || (get(keys) || ... || false);
 	}
 
 	/**
-- 
2.43.0


From 81d5b483e802ca74c7ac6084775f65b0c624c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 19/94] fix: a constant set can be asked for an item

---
 src/korin/core/public/containers/set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 74f29cd..12c5e38 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -185,10 +185,10 @@ public:
 	}
 
 	template<typename KeyT>
-	FORCE_INLINE bool get(const KeyT & key, T const & outValue) const
+	FORCE_INLINE bool get(const KeyT & key, T & outValue) const
 	{
 		// Get node to fetch value
-		if (NodeT * node = tree.findNode(key))
+		if (const NodeT * node = tree.findNode(key))
 		{
 			outValue = node->data;
 			return true;
-- 
2.43.0


From c0328644ecc0ebe8e2f964069a3fc7440085e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 20/94] fix: strict inclusion of sets must hold when the extra
 items are the last ones

---
 src/korin/core/public/containers/set.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 12c5e38..bf403cd 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -647,8 +647,8 @@ public:
 			}
 		}
 		
-		// Return true only if other still has elements
-		return !it && !eq;
+		// Return true only if other has more elements
+		return !it && (jt || !eq);
 	}
 
 	/**
@@ -697,8 +697,8 @@ public:
 			}
 		}
 		
-		// Return true only if other still has elements
-		return !jt && !eq;
+		// Return true only if this has more elements
+		return !jt && (it || !eq);
 	}
 
 private:
-- 
2.43.0


From df87e755c9a7efcf8c75ae8f6693c6ad5a928eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 21/94] fix: a set can be subtracted from itself

---
 src/korin/core/public/containers/set.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index bf403cd..520f8a1 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -412,6 +412,13 @@ public:
 	 */
 	Set & operator-=(const Set & other)
 	{
+		if (this == &other)
+		{
+			// Nothing remains, and nodes cannot be
+			// removed while we iterate over them
+			tree.empty();
+			return *this;
+		}
 		NodeT * it = tree.getMin();
 		const NodeT * jt = other.tree.getMin();
 
-- 
2.43.0


From beec7b9ea6407e521f808c15a640a96e4457b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 22/94] fix: a string built with a capacity is empty

---
 src/korin/core/public/containers/string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 025f45c..3b7c09a 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -32,7 +32,7 @@ public:
 	 * @param n string capacity
 	 */
 	explicit FORCE_INLINE StringBase(sizet n)
-		: array{nullptr, n + 1}
+		: array{n + 1, 1}
 	{
 		array[0] = '\0';
 	}
@@ -64,7 +64,7 @@ public:
 	 * @param len source length (in Bytes)
 	 */
 	FORCE_INLINE StringBase(const CharT * src, sizet n)
-		: StringBase{n}
+		: array{nullptr, n + 1}
 	{
 		// Copy source and terminate string
 		Memory::memcpy(*array, src, n);
-- 
2.43.0


From 3922e3d8fbc5ad92db2568083d62d5176f486009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 23/94] fix: a string can be appended to itself

---
 src/korin/core/public/containers/string.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 3b7c09a..25cbaba 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -303,10 +303,15 @@ private:
 	StringBase & appendString(const CharT * src, sizet len)
 	{
 		const sizet currLen = getLength();
+
+		// Source may be part of this string, in
+		// which case it moves with the buffer
+		const bool isOwn = src >= *array && src <= *array + currLen;
+		const sizet offset = isOwn ? src - *array : 0;
 		
 		// Resize buffer and copy string content
 		array(currLen + len) = '\0';
-		Memory::memcpy(*array + currLen, src, len);
+		Memory::memcpy(*array + currLen, isOwn ? *array + offset : src, len);
 
 		return *this;
 	}
-- 
2.43.0


From 8b4292b9fe4e95b63207e2afee4d7b933b46ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 24/94] fix: printing a value into a string must replace its
 whole content

---
 src/korin/core/public/containers/string.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 25cbaba..56338c0 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -453,8 +453,7 @@ private:
 	 */
 	StringBase & printString(const CharT * src, sizet len)
 	{
-		array(len) = '\0';
-		Memory::memcpy(*array, src, len);
+		return (*this = StringBase{src, len});
 	}
 
 	/**
-- 
2.43.0


From 42fc85d4c5b2f625eebc57459a20807f1851fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 25/94] fix: formatted text longer than the format buffer must
 not be read past it

---
 src/korin/core/public/containers/string.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 56338c0..421b1e2 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -559,7 +559,13 @@ public:
 
 		// Print and return new string
 		int32 len = snprintf(buff, maxlen, format, forward<Args>(args)...);
-		return StringBase{buff, (sizet)len};
+		if (len < (int32)maxlen) return StringBase{buff, (sizet)len};
+
+		// Buffer was too small, print directly in
+		// a string of the required length
+		StringBase out{(sizet)len, '\0'};
+		snprintf(*out, len + 1, format, forward<Args>(args)...);
+		return out;
 	}
 
 	/**
-- 
2.43.0


From c86746b3ab12ffbdd9616ff2f9c652dc5fc6e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 26/94] fix: a part of a string can be replaced with the string
 itself, or with nothing

---
 src/korin/core/public/containers/string.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 421b1e2..878174f 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -587,6 +587,14 @@ private:
 	 */
 	StringBase & splice(sizet subPos, sizet subLen, const CharT * replSrc, sizet replLen)
 	{
+		if (replSrc >= *array && replSrc <= *array + getLength())
+		{
+			// Replacement is part of this string, which
+			// is about to be modified. Make a copy
+			const StringBase repl{replSrc, replLen};
+			return splice(subPos, subLen, *repl, replLen);
+		}
+
 		if (replLen <= subLen)
 		{
 			// Since replacement string is smaller
@@ -630,7 +638,7 @@ public:
 		return splice(pos, len, *inserted, inserted.getLength());
 	}
 
-	StringBase & splice(sizet pos, sizet len, const CharT * cStr = "")
+	StringBase & splice(sizet pos, sizet len, const CharT * cStr)
 	{
 		return splice(pos, len, cStr, PlatformStrings::getLength(cStr));
 	}
-- 
2.43.0


From cc4c558f0c74440494736108d3d380447778c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 27/94] fix: searching from past the end of a string must not
 read past it

---
 src/korin/core/public/containers/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 878174f..9ccc4eb 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -664,7 +664,7 @@ public:
 		patternLen = patternLen ? patternLen : PlatformStrings::getLength(pattern);
 
 		// Check pattern length doesn't exceed string length
-		if (patternLen > getLength() - startPos) return -1;
+		if (startPos > getLength() || patternLen > getLength() - startPos) return -1;
 
 		for (sizet idx = startPos, lastIdx = getLength() - patternLen; idx <= lastIdx; ++idx)
 		{
-- 
2.43.0


From 7f4b4973c4e8665f01007e3f3c2a8c0c96f5e8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 28/94] fix: replacing all must terminate with an empty
 pattern, and accept the string itself

---
 src/korin/core/public/containers/string.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 9ccc4eb..ffab5bc 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -724,10 +724,17 @@ public:
 	 */
 	StringBase & replaceAll(const StringBase & pattern, const StringBase & replacement)
 	{
+		// Operands must not change during replacement
+		if (this == &pattern || this == &replacement)
+			return replaceAll(StringBase{pattern}, StringBase{replacement});
+
 		sizet patternLen = pattern.getLength();
 		sizet replacementLen = replacement.getLength();
 		int64 startPos = 0;
 
+		// An empty pattern leaves nothing to replace
+		if (patternLen == 0) return *this;
+
 		while ((startPos = findIndex(pattern, startPos)) != -1)
 		{
 			// Occurence found, needs replacing
-- 
2.43.0


From d32838481f51c2c6e6b2351bc80ade27f4b53a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 29/94] fix: string comparison must order a text before its
 extensions

---
 src/korin/core/public/generic/generic_platform_strings.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_strings.h b/src/korin/core/public/generic/generic_platform_strings.h
index b8a39a9..74d471d 100644
--- a/src/korin/core/public/generic/generic_platform_strings.h
+++ b/src/korin/core/public/generic/generic_platform_strings.h
@@ -39,7 +39,7 @@ struct GenericPlatformStrings
 			// All characters before the termination are equal
 			if (*s1 == '\0') return 0;
 		
-		return *s1 - *s2;
+		return (uint8)*s1 - (uint8)*s2;
 	}
 
 	/**
@@ -70,7 +70,7 @@ struct GenericPlatformStrings
 	{
 		const sizet end = start + len;
 		for (sizet n = start; n < end; ++n)
-			if (s1[n] != s2[n]) return s1[n] - s2[n];
+			if (s1[n] != s2[n]) return (uint8)s1[n] - (uint8)s2[n];
 		
 		return 0;
 	}
-- 
2.43.0


From 2303073720dc3fa256afeec5f4863d380d8e975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 30/94] fix: case-insensitive comparison must not depend on the
 case

---
 .../public/generic/generic_platform_strings.h | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_strings.h b/src/korin/core/public/generic/generic_platform_strings.h
index 74d471d..1550ce9 100644
--- a/src/korin/core/public/generic/generic_platform_strings.h
+++ b/src/korin/core/public/generic/generic_platform_strings.h
@@ -14,6 +14,19 @@
  */
 struct GenericPlatformStrings
 {
+	/**
+	 * Difference of two characters, regardless
+	 * of their case
+	 * 
+	 * @param [in] c1,c2 characters
+	 * @return difference of the lowercase characters
+	 */
+	static FORCE_INLINE int32 diffi(char c1, char c2)
+	{
+		const int32 l1 = c1 >= 'A' && c1 <= 'Z' ? c1 + ('a' - 'A') : (uint8)c1;
+		const int32 l2 = c2 >= 'A' && c2 <= 'Z' ? c2 + ('a' - 'A') : (uint8)c2;
+		return l1 - l2;
+	}
 	/**
 	 * Returns the length of the string
 	 * String must be terminated
@@ -54,8 +67,7 @@ struct GenericPlatformStrings
 			// All characters before the termination are equal
 			if (*s1 == '\0') return 0;
 		
-		// TODO: what should we return?
-		return *s1 - *s2;
+		return diffi(*s1, *s2);
 	}
 
 	/**
@@ -87,9 +99,7 @@ struct GenericPlatformStrings
 	{
 		const sizet end = start + len;
 		for (sizet n = start; n < end; ++n)
-			// TODO: what should we return
-			// ?
-			if (!CHAR_COMPAREI(s1[n], s2[n])) return s1[n] - s2[n];
+			if (!CHAR_COMPAREI(s1[n], s2[n])) return diffi(s1[n], s2[n]);
 		
 		return 0;
 	}
-- 
2.43.0


From 294dafbc62ec3cbc075366ebcb78fcdcd31642c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 31/94] fix: partition must return the partition point

---
 src/korin/core/public/algorithm/sort.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/korin/core/public/algorithm/sort.h b/src/korin/core/public/algorithm/sort.h
index 11452b7..24f4211 100644
--- a/src/korin/core/public/algorithm/sort.h
+++ b/src/korin/core/public/algorithm/sort.h
@@ -30,6 +30,8 @@ struct Sort
 	 * @param begin,end begin and end iterators
 	 * @param pivot pivot element (iterator or value as well)
 	 * @param cmp compare function
+	 * @return iterator to the first element that is
+	 * 	not smaller than the pivot
 	 */
 	template<typename It, typename T, typename CompareT>
 	static It partition(It begin, It end, T pivot, CompareT cmp/* = TreeWayCompare() */)
@@ -37,6 +39,8 @@ struct Sort
 		It i = begin, j = begin;
 		for (; i != end; ++i)
 			if (cmp(*i, pivot) < 0) swap(*i, *j), ++j;
+
+		return j;
 	}
 
 	/**
-- 
2.43.0


From 240adaffc099e578461e82726b1485f4aad23c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 32/94] fix: a memory pool may have no blocks

---
 src/korin/core/private/hal/malloc_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 32e0f86..8e485c7 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -42,8 +42,8 @@ MemoryPool::MemoryPool(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockAlign
 	}
 	
 	// Reset head and last link
-	head = buffer;
-	*link = nullptr;
+	head = link ? buffer : nullptr;
+	if (link) *link = nullptr;
 }
 
 void * MemoryPool::acquireBlock()
-- 
2.43.0


From e7c0834d8e41b5f79fa6950fe636b712d09ca4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 33/94] fix: a pool allocator must refuse to reallocate beyond
 its block size

---
 src/korin/core/private/hal/malloc_pool.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 8e485c7..73ee518 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -99,14 +99,16 @@ void * MallocPool::realloc(void * orig, sizet size, sizet alignment)
 	CHECKF(size <= pool.blockSize, "requested size exceed pool block max size, backup allocator will be used (pool block size is 0x%llx, requested size is 0x%llx)", pool.blockSize, size)
 	CHECKF(alignment <= pool.blockAlignment, "requested alignment exceeds pool block alignment, backup allocator will be used (pool block alignment is 0x%llx, requested alignment is 0x%llx)", pool.blockAlignment, alignment)
 
+	// Nothing to reallocate
+	if (orig == nullptr) return alloc(size, alignment);
+
 	void * out = orig;
 
 	if (LIKELY(pool.hasBlock(orig)))
 	{
-		if (size > pool.blockSize)
-		{
-			pool.releaseBlock(orig);
-		}
+		// Original block is still valid
+		// if it cannot grow
+		if (size > pool.blockSize || alignment > pool.blockAlignment) out = nullptr;
 		else
 			; // Return original block
 	}
-- 
2.43.0


From 6c41e6bd119c231e28fa2f4497248afcb28ba33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 34/94] fix: a growing pool allocator must apply the minimum
 alignment of its pools

---
 src/korin/core/private/hal/malloc_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 73ee518..87384ba 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -137,8 +137,8 @@ MallocPooled::MallocPooled(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockA
 	, poolInfo{
 		inNumBlocks,
 		inBlockSize,
-		inBlockAlignment,
-		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, inBlockAlignment)
+		PlatformMath::max(inBlockAlignment, MIN_ALIGNMENT),
+		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, PlatformMath::max(inBlockAlignment, MIN_ALIGNMENT))
 	}
 	, poolAllocSize{0}
 {
-- 
2.43.0


From bb9ec69235f791c615384a1d58c20caddd37b0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 35/94] fix: a growing pool allocator must refuse to reallocate
 beyond its block size

---
 src/korin/core/private/hal/malloc_pool.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 87384ba..8cd3acc 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -232,7 +232,11 @@ void * MallocPooled::realloc(void * orig, sizet size, sizet alignment)
 	CHECKF(size <= poolInfo.blockSize, "requested size exceed pool block max size, backup allocator will be used (pool block size is 0x%llx, requested size is 0x%llx)", poolInfo.blockSize, size)
 	CHECKF(alignment <= poolInfo.blockAlignment, "requested alignment exceeds pool block alignment, backup allocator will be used (pool block alignment is 0x%llx, requested alignment is 0x%llx)", poolInfo.blockAlignment, alignment)
 
-	return orig;
+	// Nothing to reallocate
+	if (orig == nullptr) return alloc(size, alignment);
+
+	// Original block is still valid if it cannot grow
+	return size <= poolInfo.blockSize && alignment <= poolInfo.blockAlignment ? orig : nullptr;
 }
 
 void MallocPooled::free(void * orig)
-- 
2.43.0


From bc16694fd19c278d140a2b0d087b2d0e849d6433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 36/94] fix: freed blocks must be used again before another
 pool is created

---
 src/korin/core/private/hal/malloc_pool.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 8cd3acc..cf6efc6 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -257,5 +257,23 @@ void MallocPooled::free(void * orig)
 	}
 
 	// Release block, return to pool
-	if (it) it->data->releaseBlock(orig);
+	if (it)
+	{
+		MemoryPool * pool = it->data;
+		const bool wasExhausted = pool->isExhausted();
+		pool->releaseBlock(orig);
+
+		Link * link = reinterpret_cast<Link*>(reinterpret_cast<Node*>(pool + 1) + 1);
+		if (wasExhausted && link != head)
+		{
+			// Move to front
+			link->prev->next = link->next;
+			link->next->prev = link->prev;
+			link->next = head;
+			link->prev = head->prev;
+			link->next->prev = link;
+			link->prev->next = link;
+			head = link;
+		}
+	}
 }
\ No newline at end of file
-- 
2.43.0


From 8a2a5e2de06d10052326c657dd59f2e947391d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 37/94] fix: a size-class allocator must free its buckets

---
 src/korin/core/private/hal/malloc_binned.cpp | 8 ++++++++
 src/korin/core/public/hal/malloc_binned.h    | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index 9c1964c..5c883c3 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -23,6 +23,14 @@ MallocBinned::MallocBinned(const BucketInfo & inInfo, sizet inPoolAlign)
 	}
 }
 
+MallocBinned::~MallocBinned()
+{
+	for (uint32 i = 0; i < numBuckets; ++i)
+	{
+		delete buckets[i];
+	}
+}
+
 void * MallocBinned::alloc(sizet size, sizet alignment)
 {
 	// Find bucket
diff --git a/src/korin/core/public/hal/malloc_binned.h b/src/korin/core/public/hal/malloc_binned.h
index bef2ccd..68b454d 100644
--- a/src/korin/core/public/hal/malloc_binned.h
+++ b/src/korin/core/public/hal/malloc_binned.h
@@ -50,6 +50,11 @@ public:
 	 */
 	MallocBinned(const BucketInfo & inInfo = {1ull << 16ull/* 1 MB */, 1ull << 3ull, 1ull << 18ull, 1ull << 3ull}, sizet inPoolAlign = DEFAULT_ALIGNMENT);
 
+	/**
+	 * Destructor, deallocates all buckets.
+	 */
+	virtual ~MallocBinned();
+
 protected:
 	/**
 	 * Compute bucket index from requested
-- 
2.43.0


From 1c987ddf3edff28eaffcff5cf1cfedcac9b1b0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 38/94] fix: a request must go to the first size class that
 fits it

---
 src/korin/core/public/hal/malloc_binned.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/hal/malloc_binned.h b/src/korin/core/public/hal/malloc_binned.h
index 68b454d..22311bb 100644
--- a/src/korin/core/public/hal/malloc_binned.h
+++ b/src/korin/core/public/hal/malloc_binned.h
@@ -68,8 +68,12 @@ protected:
 	{
 		CHECK(size != 0);
 
-		// Get power of two index
-		return PlatformMath::log2(size - 1) / PlatformMath::log2(bucketInfo.allocUnitIncrement);
+		// Find first bucket that is large enough
+		uint32 bucketIdx = 0;
+		for (sizet blockSize = bucketInfo.allocUnitMinSize; blockSize < size && bucketIdx < numBuckets; blockSize *= bucketInfo.allocUnitIncrement)
+			++bucketIdx;
+
+		return bucketIdx;
 	}
 
 public:
-- 
2.43.0


From b25fed87db847533ca52a05b5e58700bacd810ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:47 +0000
Subject: [PATCH 39/94] fix: a size class larger than the pool size must have
 at least a block per pool

---
 src/korin/core/private/hal/malloc_binned.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index 5c883c3..74e03af 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -19,7 +19,7 @@ MallocBinned::MallocBinned(const BucketInfo & inInfo, sizet inPoolAlign)
 	)
 	{
 		// Create bucket
-		buckets.add(new MallocPooled{numBlocks, blockSize, poolAlign, 1});
+		buckets.add(new MallocPooled{PlatformMath::max(numBlocks, 1u), blockSize, poolAlign, 1});
 	}
 }
 
-- 
2.43.0


From 0829a2fbb8737f3dbc9b001e60d5e0e9b2fc0a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 40/94] fix: a size-class allocator must be able to reallocate
 its blocks

---
 src/korin/core/private/hal/malloc_binned.cpp | 26 +++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index 74e03af..f7be36d 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -51,7 +51,31 @@ void * MallocBinned::alloc(sizet size, sizet alignment)
 
 void * MallocBinned::realloc(void * orig, sizet size, sizet alignment)
 {
-	// TODO
+	// Nothing to reallocate
+	if (orig == nullptr) return alloc(size, alignment);
+
+	for (uint32 i = 0; i < numBuckets; ++i)
+	{
+		MallocPooled * bucket = buckets[i];
+		if (bucket->hasBlock(orig))
+		{
+			// Same block, if it's the best fit
+			const sizet blockSize = bucket->poolInfo.blockSize;
+			if (getBucketIdx(size) == i && alignment <= bucket->poolInfo.blockAlignment) return orig;
+
+			// Move to a block of another bucket. Original
+			// block is still valid if there is none
+			void * out = alloc(size, alignment);
+			if (LIKELY(out))
+			{
+				Memory::memcpy(out, orig, PlatformMath::min(size, blockSize));
+				bucket->free(orig);
+			}
+
+			return out;
+		}
+	}
+
 	return nullptr;
 }
 
-- 
2.43.0


From 8d267eda81243abc38976a4bd8373c0a26e37b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 41/94] fix: a non-copyable or non-movable type can be
 constructed

---
 src/korin/core/public/templates/types.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index d925316..7a2afc9 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -368,6 +368,8 @@ public:
  */
 struct NonCopyable
 {
+	NonCopyable() = default;
+
 private:
 	NonCopyable(const NonCopyable&) = delete;
 	NonCopyable& operator=(const NonCopyable&) = delete;
@@ -378,6 +380,8 @@ private:
  */
 struct NonMovable
 {
+	NonMovable() = default;
+
 private:
 	NonMovable(NonMovable&&) = delete;
 	NonMovable& operator=(NonMovable&&) = delete;
-- 
2.43.0


From fdb4438249feea0cf16519105af3e8d1734a8d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 42/94] fix: assigning an atomic must return the assigned value

---
 src/korin/core/public/templates/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/atomic.h b/src/korin/core/public/templates/atomic.h
index 8aeadd8..f27752e 100644
--- a/src/korin/core/public/templates/atomic.h
+++ b/src/korin/core/public/templates/atomic.h
@@ -265,7 +265,7 @@ struct Atomic final : public ChooseAtomicTypeT<AtomicT>
 	 */
 	FORCE_INLINE AtomicT operator=(const AtomicT & inValue)
 	{
-		return (this->store(inValue), this->value);
+		return (this->store(inValue), inValue);
 	}
 
 private:
-- 
2.43.0


From d30fae6b639d8a15b4e8db52e7b39b14d5890f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 43/94] fix: atomic pointers must move by items

---
 src/korin/core/public/templates/atomic.h | 28 +++++++++++++++++++-----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/korin/core/public/templates/atomic.h b/src/korin/core/public/templates/atomic.h
index f27752e..22e3630 100644
--- a/src/korin/core/public/templates/atomic.h
+++ b/src/korin/core/public/templates/atomic.h
@@ -128,6 +128,19 @@ protected:
 	volatile AtomicT value;
 };
 
+/**
+ * Amount by which the stored value changes
+ * when the atomic is incremented by one. As
+ * usual, pointers move by one item.
+ * @{
+ */
+template<typename AtomicT>
+struct AtomicStride { enum {value = 1}; };
+
+template<typename T>
+struct AtomicStride<T*> { enum : intp {value = sizeof(T)}; };
+/** @} */
+
 /**
  * Implements arithemtic methods for
  * atomic types (e.g. increment, decrement,
@@ -144,6 +157,9 @@ protected:
 	using AtomicBaseT = AtomicBase<AtomicT>;
 	using AtomicBaseT::AtomicBaseT;
 
+	/// Change of the stored value per unit
+	static constexpr IntT stride = AtomicStride<AtomicT>::value;
+
 public:
 	/**
 	 * Increments atomic value by one
@@ -151,7 +167,7 @@ public:
 	 */
 	FORCE_INLINE AtomicT operator++()
 	{
-		return PlatformAtomics::add(&this->value, 1) + 1;
+		return PlatformAtomics::add(&this->value, stride) + 1;
 	}
 
 	/**
@@ -160,7 +176,7 @@ public:
 	 */
 	FORCE_INLINE AtomicT operator++(int32)
 	{
-		return PlatformAtomics::add(&this->value, 1);
+		return PlatformAtomics::add(&this->value, stride);
 	}
 
 	/**
@@ -169,7 +185,7 @@ public:
 	 */
 	FORCE_INLINE AtomicT operator--()
 	{
-		return PlatformAtomics::sub(&this->value, 1) - 1;
+		return PlatformAtomics::sub(&this->value, stride) - 1;
 	}
 
 	/**
@@ -178,7 +194,7 @@ public:
 	 */
 	FORCE_INLINE AtomicT operator--(int32)
 	{
-		return PlatformAtomics::sub(&this->value, 1);
+		return PlatformAtomics::sub(&this->value, stride);
 	}
 
 	/**
@@ -190,7 +206,7 @@ public:
 	 */
 	FORCE_INLINE AtomicT operator+=(IntT amount)
 	{
-		return PlatformAtomics::add(&this->value, amount) + amount;
+		return PlatformAtomics::add(&this->value, amount * stride) + amount;
 	}
 
 	/**
@@ -202,7 +218,7 @@ public:
 	 */
 	FORCE_INLINE AtomicT operator-=(IntT amount)
 	{
-		return PlatformAtomics::sub(&this->value, amount) - amount;
+		return PlatformAtomics::sub(&this->value, amount * stride) - amount;
 	}
 };
 
-- 
2.43.0


From 783c28b1655c40b1515c31951da60c071f67d05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 44/94] fix: an optional must destroy its value once

---
 src/korin/core/public/templates/optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 0b8b08d..32c0388 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -183,7 +183,7 @@ struct Optional
 		if (engaged)
 		{
 			engaged = false;
-			storage.~OptionalStorage();
+			storage.value.~T();
 		}
 	}
 
@@ -275,7 +275,7 @@ protected:
 		 */
 		~OptionalStorage()
 		{
-			value.~U();
+			// Value is destroyed by the optional
 		}
 
 		/// Empty byte
-- 
2.43.0


From c0ff40617df6a700079a6e62c5d01f1246ceecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 45/94] fix: emplacing in an optional must destroy the previous
 value

---
 src/korin/core/public/templates/optional.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 32c0388..5ec2a2b 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -130,8 +130,11 @@ struct Optional
 	template<typename ...ArgsT>
 	FORCE_INLINE void emplace(ArgsT && ...args)
 	{
-		engaged = true;
+		// Destroy previous object, if any
+		reset();
+
 		new (&storage.value) T{forward<ArgsT>(args)...};
+		engaged = true;
 	}
 
 	/**
-- 
2.43.0


From 826e84940cec4107037933afe527225d088ddb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 46/94] fix: moving out of an optional must destroy the moved
 value

---
 src/korin/core/public/templates/optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 5ec2a2b..6463c74 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -79,13 +79,13 @@ struct Optional
 		{
 			// Move object
 			storage.value = move(*other);
-			other.engaged = false;
+			other.reset();
 		}
 		else if (other.engaged && !this->engaged)
 		{
 			// Move costruct object
 			emplace(move(*other));
-			other.engaged = false;
+			other.reset();
 		}
 		else if (!other.engaged && this->engaged)
 		{
-- 
2.43.0


From 568801c6fcc9ef388af42d75145ffff627599f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 47/94] fix: copying a function must copy the bound object

---
 src/korin/core/public/templates/function.h | 29 +++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index c6273d2..9c2351d 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -47,6 +47,12 @@ struct FunctionOwnedObjectInterface
 	 */
 	virtual void * getAddress() = 0;
 
+	/**
+	 * Returns a copy of this object, or
+	 * null if it cannot be copied.
+	 */
+	virtual FunctionOwnedObjectInterface * copy() const = 0;
+
 	/**
 	 * 
 	 */
@@ -110,6 +116,14 @@ struct FunctionOwnedObject : public FunctionOwnedObjectHeap
 	{
 		return &object;
 	}
+
+	virtual FORCE_INLINE FunctionOwnedObjectInterface * copy() const override
+	{
+		if constexpr (__is_constructible(T, const T&))
+			return new (MallocAnsi{}.alloc(sizeof(FunctionOwnedObject), alignof(FunctionOwnedObject))) FunctionOwnedObject{object};
+		else
+			return nullptr;
+	}
 };
 
 /**
@@ -179,6 +193,19 @@ struct FunctionStorage : FunctionStorageBase
 
 		return &object->object;
 	}
+
+	/**
+	 * Bind a copy of the object owned by
+	 * another storage.
+	 * 
+	 * @return false if it cannot be copied
+	 */
+	FORCE_INLINE bool bindCopy(const FunctionStorage & other)
+	{
+		heap = other.getOwnedObject()->copy();
+
+		return heap != nullptr;
+	}
 };
 
 /**
@@ -239,7 +266,7 @@ struct FunctionBase<StorageT, RetT(Args...)>
 		: callable{other.callable}
 	{
 		// Copy storage
-		//if (callable) storage.bindCopy(other.storage);
+		if (callable && !storage.bindCopy(other.storage)) callable = nullptr;
 	}
 
 	/**
-- 
2.43.0


From 11f09c1c07cd4e4dc372dcd9a824a4136d2486ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 48/94] fix: functions can be assigned

---
 src/korin/core/public/templates/function.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index 9c2351d..a84564a 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -325,6 +325,15 @@ struct FunctionBase<StorageT, RetT(Args...)>
 	/** @} */
 
 protected:
+	/**
+	 * Swap the bound objects.
+	 */
+	FORCE_INLINE void swapBinding(FunctionBase & other)
+	{
+		::swap(callable, other.callable);
+		::swap(storage.heap, other.storage.heap);
+	}
+
 	/// Ptr function that invokes the call operator
 	RetT (*callable)(void*, Args&...);
 
@@ -362,7 +371,8 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(const Function & other)
 	{
-		swap(*this, Function{other});
+		Function copy{other};
+		this->swapBinding(copy);
 		return *this;
 	}
 
@@ -371,7 +381,7 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(Function && other)
 	{
-		swap(*this, other);
+		this->swapBinding(other);
 		return *this;
 	}
 
-- 
2.43.0


From bb5e93daa39c3b870b32fe023b4c8596af51089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 49/94] fix: a function must own the object it is bound to

---
 src/korin/core/public/templates/function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index a84564a..15eed53 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -185,7 +185,7 @@ struct FunctionStorage : FunctionStorageBase
 	template<typename FunctorT>
 	typename DecayType<FunctorT>::Type * bind(FunctorT && fn)
 	{
-		using OwnedT = FunctionOwnedObject<FunctorT>;
+		using OwnedT = FunctionOwnedObject<typename DecayType<FunctorT>::Type>;
 
 		// TODO: Use global allocator
 		heap = MallocAnsi{}.alloc(sizeof(OwnedT), alignof(OwnedT));
-- 
2.43.0


From 9abd44fc11965b037e38b4e96269ef3e703a2865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 50/94] fix: function.h must include the allocator it uses

---
 src/korin/core/public/templates/function.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index 15eed53..3ef7490 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -3,6 +3,7 @@
 #include "core_types.h"
 #include "templates/types.h"
 #include "templates/utility.h"
+#include "hal/malloc_ansi.h"
 
 /**
  * @{
-- 
2.43.0


From 584b18f2e572f674546e4b32d900ebc9d75bda75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 51/94] fix: pairs must be compared by key

---
 src/korin/core/public/containers/pair.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/pair.h b/src/korin/core/public/containers/pair.h
index d73c9b4..82354cf 100644
--- a/src/korin/core/public/containers/pair.h
+++ b/src/korin/core/public/containers/pair.h
@@ -113,7 +113,7 @@ struct Pair
 	 */
 	FORCE_INLINE bool operator==(const Pair & other) const
 	{
-		return CompareT{}(*this, other) == 0;
+		return FindPair{}(*this, other) == 0;
 	}
 
 	FORCE_INLINE bool operator!=(const Pair & other) const
@@ -123,12 +123,12 @@ struct Pair
 
 	FORCE_INLINE bool operator<(const Pair & other) const
 	{
-		return CompareT{}(*this, other) < 0;
+		return FindPair{}(*this, other) < 0;
 	}
 
 	FORCE_INLINE bool operator>(const Pair & other) const
 	{
-		return CompareT{}(*this, other) > 0;
+		return FindPair{}(*this, other) > 0;
 	}
 
 	FORCE_INLINE bool operator<=(const Pair & other) const
-- 
2.43.0


From b85e170807939f43a5d7d9f147a0edc122670b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 52/94] fix: pointers to constants can be compared

---
 src/korin/core/public/templates/functional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/functional.h b/src/korin/core/public/templates/functional.h
index a887d1c..27b0811 100644
--- a/src/korin/core/public/templates/functional.h
+++ b/src/korin/core/public/templates/functional.h
@@ -41,6 +41,6 @@ struct ThreeWayCompare
 	template<typename A, typename B>
 	FORCE_INLINE int32 operator()(const A * a, const B * b) const
 	{
-		return *this(forward<A>(*a), forward<B>(*b));
+		return (*this)(*a, *b);
 	}
 };
\ No newline at end of file
-- 
2.43.0


From b8e676dc5def45879b2c19fdd28954228947b527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 53/94] fix: a static array that is not constant can be copied

---
 src/korin/core/public/templates/array.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/korin/core/public/templates/array.h b/src/korin/core/public/templates/array.h
index 455dfbe..8c04798 100644
--- a/src/korin/core/public/templates/array.h
+++ b/src/korin/core/public/templates/array.h
@@ -43,6 +43,23 @@ struct StaticArray
 		}
 	}
 
+	/**
+	 * Copy and move, also of an array
+	 * that is not constant.
+	 * @{
+	 */
+	constexpr StaticArray(const StaticArray &) = default;
+	constexpr StaticArray(StaticArray &&) = default;
+	constexpr StaticArray & operator=(const StaticArray &) = default;
+	constexpr StaticArray & operator=(StaticArray &&) = default;
+
+	constexpr FORCE_INLINE StaticArray(StaticArray & other)
+		: StaticArray(const_cast<const StaticArray&>(other))
+	{
+		//
+	}
+	/** @} */
+
 	/**
 	 * Constructor that accepts one or
 	 * more item values.
-- 
2.43.0


From a81d835fbc51eaa1a78371ce94c1360150be3f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 54/94] fix: subtracting from and dividing a scalar by a vector
 do not swap the operands

---
 src/korin/core/public/math/vec2.h | 4 ++--
 src/korin/core/public/math/vec3.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index 2047bc6..b62cb32 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -252,7 +252,7 @@ struct alignas(2 * sizeof(T)) Vec2
 
 	friend FORCE_INLINE Vec2 operator-(T s, Vec2 v)
 	{
-		return v -= s;
+		return Vec2{s} -= v;
 	}
 
 	friend FORCE_INLINE Vec2 operator*(T s, Vec2 v)
@@ -262,7 +262,7 @@ struct alignas(2 * sizeof(T)) Vec2
 
 	friend FORCE_INLINE Vec2 operator/(T s, Vec2 v)
 	{
-		return v /= s;
+		return Vec2{s} /= v;
 	}
 	/// @}
 
diff --git a/src/korin/core/public/math/vec3.h b/src/korin/core/public/math/vec3.h
index 7331ced..bb11379 100644
--- a/src/korin/core/public/math/vec3.h
+++ b/src/korin/core/public/math/vec3.h
@@ -270,7 +270,7 @@ struct Vec3
 
 	friend FORCE_INLINE Vec3 operator-(T s, const Vec3 & v)
 	{
-		return v - s;
+		return Vec3{s} -= v;
 	}
 
 	friend FORCE_INLINE Vec3 operator*(T s, const Vec3 & v)
@@ -280,7 +280,7 @@ struct Vec3
 
 	friend FORCE_INLINE Vec3 operator/(T s, const Vec3 & v)
 	{
-		return v / s;
+		return Vec3{s} /= v;
 	}
 	/// @}
 
-- 
2.43.0


From 7b7ec039b1855e2cebcbb0538fa66fee58d0e4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 55/94] fix: a scalar can be the left operand of four-component
 vectors

---
 src/korin/core/public/math/vec4.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/math/vec4.h b/src/korin/core/public/math/vec4.h
index 26cbc68..21a3fbf 100644
--- a/src/korin/core/public/math/vec4.h
+++ b/src/korin/core/public/math/vec4.h
@@ -262,22 +262,22 @@ struct Vec4
 
 	friend FORCE_INLINE Vec4 operator+(T s, const Vec4 & v)
 	{
-		return v += s;
+		return Vec4{s} += v;
 	}
 
 	friend FORCE_INLINE Vec4 operator-(T s, const Vec4 & v)
 	{
-		return v -= s;
+		return Vec4{s} -= v;
 	}
 
 	friend FORCE_INLINE Vec4 operator*(T s, const Vec4 & v)
 	{
-		return v *= s;
+		return Vec4{s} *= v;
 	}
 
 	friend FORCE_INLINE Vec4 operator/(T s, const Vec4 & v)
 	{
-		return v /= s;
+		return Vec4{s} /= v;
 	}
 	/// @}
 
-- 
2.43.0


From d11123a948bbe11b312d4b14d7748d103d718c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 56/94] fix: cross product of integer two-component vectors
 compiles

---
 src/korin/core/public/math/vec2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index b62cb32..3e08676 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -285,7 +285,7 @@ struct alignas(2 * sizeof(T)) Vec2
 	 */
 	FORCE_INLINE Vec3<T> operator^(Vec2 other) const
 	{
-		return Vec3<T>{0.f, 0.f, x * other.y - y * other.x};
+		return Vec3<T>{T(0), T(0), x * other.y - y * other.x};
 	}
 
 	/**
-- 
2.43.0


From 275b1b819a8cdda47525621e02edb9a20cb1ffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 57/94] fix: SIMD vectors load components in order

---
 src/korin/core/public/math/simd_float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/simd_float.h b/src/korin/core/public/math/simd_float.h
index 2d2380c..98a47cd 100644
--- a/src/korin/core/public/math/simd_float.h
+++ b/src/korin/core/public/math/simd_float.h
@@ -31,7 +31,7 @@ struct Vector4<float32>
 
 	static FORCE_INLINE Type load(T a, T b, T c, T d)
 	{
-		return _mm_set_ps(a, b, c, d);
+		return _mm_set_ps(d, c, b, a);
 	}
 
 	static FORCE_INLINE Type load(T s)
-- 
2.43.0


From 1cccc6fc5256d3b28dde0e89d3bef264813f2b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 58/94] fix: quaternion product applies the right operand first

---
 src/korin/core/public/math/quat.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 72aa05c..bcc90b5 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -110,9 +110,9 @@ public:
 		// thus everything is inverted
 		
 		return Quat{
-			this->w * other.x + this->x * other.w - this->y * other.z + this->z * other.y,
-			this->w * other.y + this->x * other.z + this->y * other.w - this->z * other.x,
-			this->w * other.z - this->x * other.y + this->y * other.x + this->z * other.w,
+			this->w * other.x + this->x * other.w + this->y * other.z - this->z * other.y,
+			this->w * other.y - this->x * other.z + this->y * other.w + this->z * other.x,
+			this->w * other.z + this->x * other.y - this->y * other.x + this->z * other.w,
 			this->w * other.w - this->x * other.x - this->y * other.y - this->z * other.z
 		};
 	}
-- 
2.43.0


From d70792e19297600c3a89f906bb662d74afa5d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 59/94] fix: a null rotation vector is the identity quaternion

---
 src/korin/core/public/math/quat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index bcc90b5..ebc01d6 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -52,7 +52,8 @@ public:
 		float32 alpha = v.getSize();
 		float32 a = alpha * 0.5f;
 
-		v *= PlatformMath::sin(a) / alpha;
+		// No rotation if vector is zero
+		v *= alpha > 0.f ? PlatformMath::sin(a) / alpha : 0.5f;
 
 		this->x = v.x;
 		this->y = v.y;
-- 
2.43.0


From 862ff0e018f17760fa9736db3d737f3bf55483d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:10 +0000
Subject: [PATCH 60/94] fix: axis of a quaternion reads the z component

---
 src/korin/core/public/math/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index ebc01d6..ac9c541 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -73,7 +73,7 @@ public:
 		float32 s = 1.f / PlatformMath::sin(a);
 
 		outAngle = a * 2.f;
-		outAxis = Vec3<float32>(this->x * s, this->y * s, this->w * s);
+		outAxis = Vec3<float32>(this->x * s, this->y * s, this->z * s);
 	}
 
 	/**
-- 
2.43.0


From 24f4c4b41b9a4a37fa4d0ee769c2c6a2a3d31736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:10 +0000
Subject: [PATCH 61/94] fix: angle and axis of quaternions at and near no
 rotation

---
 src/korin/core/public/math/quat.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index ac9c541..0acb23e 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -69,11 +69,12 @@ public:
 	 */
 	FORCE_INLINE void getAngleAndAxis(float32 & outAngle, Vec3<float32> & outAxis) const
 	{
-		float32 a = PlatformMath::acos(this->w);
-		float32 s = 1.f / PlatformMath::sin(a);
+		const Vec3<float32> v{this->x, this->y, this->z};
+		const float32 s = v.getSize();
 
-		outAngle = a * 2.f;
-		outAxis = Vec3<float32>(this->x * s, this->y * s, this->z * s);
+		// Any axis describes a null rotation
+		outAngle = getAngle();
+		outAxis = s > 0.f ? v / s : Vec3<float32>::right;
 	}
 
 	/**
@@ -81,7 +82,8 @@ public:
 	 */
 	FORCE_INLINE float32 getAngle() const
 	{
-		return PlatformMath::acos(this->w) * 2.f;
+		// Rounding may bring it slightly outside [-1, 1]
+		return PlatformMath::acos(PlatformMath::max(-1.f, PlatformMath::min(this->w, 1.f))) * 2.f;
 	}
 
 	/**
-- 
2.43.0


From a09e162e5aa065dcd007aa9aa677eb1ca2f6d345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 62/94] fix: quaternion can be constructed from a rotation
 vector

---
 src/korin/core/public/math/quat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 0acb23e..4185132 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -47,8 +47,9 @@ public:
 	/**
 	 * Constructs from physics rotation vector
 	 */
-	FORCE_INLINE Quat(Vec3<float32> v)
+	FORCE_INLINE Quat(const Vec3<float32> & inV)
 	{
+		Vec3<float32> v = inV;
 		float32 alpha = v.getSize();
 		float32 a = alpha * 0.5f;
 
-- 
2.43.0


From 9081aaf2c8c033719e1a38724eb1a7427400c13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 63/94] fix: executor visits a state at most once per input
 position

---
 src/korin/core/public/regex/executor.h | 31 +++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 447e0ae..29ab76f 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include "core_types.h"
+#include "containers/list.h"
+#include "containers/set.h"
 #include "containers/tuple.h"
 #include "./regex_types.h"
 
@@ -29,6 +31,21 @@ namespace Re
 		using AlphaStringT = typename StateT::AlphaStringT;
 		using VisitT = Tuple<const StateT* /* currentState */, AlphaStringT /* input */, int32 /* totRead */>;
 
+		/**
+		 * Orders visits by state and number
+		 * of read symbols. Two visits that
+		 * compare equal continue in the same
+		 * way.
+		 */
+		struct FindVisit
+		{
+			FORCE_INLINE int32 operator()(const VisitT & a, const VisitT & b) const
+			{
+				int32 cmp = FindStateT{}(a.template get<0>(), b.template get<0>());
+				return cmp != 0 ? cmp : ThreeWayCompare{}(a.template get<2>(), b.template get<2>());
+			}
+		};
+
 	public:
 		Executor() = delete;
 
@@ -50,6 +67,7 @@ namespace Re
 			, acceptedState{inAcceptedState}
 			, input{inInput}
 			, visitQueue{}
+			, scheduledVisits{}
 			, currVisit{inStartState, inInput, inNumRead}
 		{
 			//
@@ -129,6 +147,7 @@ namespace Re
 		{
 			// Empty visit queue
 			visitQueue.empty();
+			scheduledVisits = Set<VisitT, FindVisit>{};
 
 			// Reset current visit with
 			// start state and input
@@ -169,6 +188,9 @@ namespace Re
 		/// Queue of states to visit
 		List<VisitT> visitQueue;
 
+		/// Visits already pushed onto the queue
+		Set<VisitT, FindVisit> scheduledVisits;
+
 		/// Current visited state and input
 		VisitT currVisit;
 	};
@@ -189,7 +211,14 @@ namespace Re
 		{
 			for (const StateT * nextState : currState->getNextStates())
 			{
-				visitQueue.pushBack(VisitT{nextState, AlphabetTraitsT::consumeInput(currInput, numRead), currNumRead + numRead});
+				VisitT nextVisit{nextState, AlphabetTraitsT::consumeInput(currInput, numRead), currNumRead + numRead};
+
+				// Skip a visit that has already been
+				// scheduled, it cannot lead elsewhere
+				if (scheduledVisits.any(nextVisit)) continue;
+
+				scheduledVisits.set(nextVisit);
+				visitQueue.pushBack(nextVisit);
 			}
 		}
 
-- 
2.43.0


From 72f8288c19dad0f9ff89b624f98a4af320317d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 64/94] fix: resetting an executor with a new input starts from
 that input

---
 src/korin/core/public/regex/executor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 29ab76f..2fdee82 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -156,10 +156,10 @@ namespace Re
 
 		FORCE_INLINE void reset(const AlphaStringT & inInput)
 		{
-			reset();
-
 			// Change input string
 			input = inInput;
+
+			reset();
 		}
 		/** @} */
 
-- 
2.43.0


From 8b0a9fccb681f73bcdbb31ad4302b7ec28149b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:12 +0000
Subject: [PATCH 65/94] fix: lookahed matches a prefix of the remaining input

---
 src/korin/core/public/regex/executor.h | 12 ++++++++++--
 src/korin/core/public/regex/state.h    |  4 +++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 2fdee82..b94a183 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -61,11 +61,16 @@ namespace Re
 		 * @param inNumRead number of symbols
 		 * 	already consumed (required by
 		 * 	certain states to work correctly)
+		 * @param inPartial if true the input
+		 * 	is accepted as soon as the accepted
+		 * 	state is reached, even if there are
+		 * 	symbols left (i.e. accept a prefix)
 		 */
-		FORCE_INLINE Executor(const StateT * inStartState, const StateT * inAcceptedState, const AlphaStringT & inInput, int32 inNumRead = 0)
+		FORCE_INLINE Executor(const StateT * inStartState, const StateT * inAcceptedState, const AlphaStringT & inInput, int32 inNumRead = 0, bool inPartial = false)
 			: startState{inStartState}
 			, acceptedState{inAcceptedState}
 			, input{inInput}
+			, partial{inPartial}
 			, visitQueue{}
 			, scheduledVisits{}
 			, currVisit{inStartState, inInput, inNumRead}
@@ -185,6 +190,9 @@ namespace Re
 		/// Original input
 		AlphaStringT input;
 
+		/// If true, accept a prefix of the input
+		bool partial;
+
 		/// Queue of states to visit
 		List<VisitT> visitQueue;
 
@@ -230,7 +238,7 @@ namespace Re
 			return true;
 		}
 		
-		if (outIsAccepted = AlphabetTraitsT::isEOF(currVisit.template get<1>()) && isAcceptedState())
+		if (outIsAccepted = (partial || AlphabetTraitsT::isEOF(currVisit.template get<1>())) && isAcceptedState())
 		{
 			// If string is terminated and state
 			// is accepted state, set accepted flag
diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index e0d31ef..9712c1a 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -634,7 +634,9 @@ namespace Re
 	template<typename AlphaT>
 	bool StateMacro<AlphaT>::enterState(const AlphaStringT & input, int32 & outNumRead, int32 numRead) const
 	{
-		return execute(ExecutorT{startState, acceptedState, input, numRead}, outNumRead);
+		// Lookaheds need to match only a prefix of
+		// the remaining input
+		return execute(ExecutorT{startState, acceptedState, input, numRead, true}, outNumRead);
 	}
 
 	template<typename AlphaT>
-- 
2.43.0


From bd1621fed72c91a6d10026ea6483c98b048e0d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 66/94] fix: regex states never consume the terminal symbol

---
 src/korin/core/private/regex/regex.cpp | 6 +++---
 src/korin/core/public/regex/state.h    | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 9ed8bc1..05e76a5 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -107,7 +107,7 @@ namespace Re
 				// Matches any single non-digit character
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 /* numRead */) -> bool {
 
-					return outNumRead = !isDigit(*input);
+					return outNumRead = (*input != '\0' && !isDigit(*input));
 				}, "NonDigit");
 				break;
 			}
@@ -127,7 +127,7 @@ namespace Re
 				// Matches any single non-whitespace character
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 /* numRead */) -> bool {
 
-					return outNumRead = !isWhiteSpace(*input);
+					return outNumRead = (*input != '\0' && !isWhiteSpace(*input));
 				}, "NonWhiteSpace");
 				break;
 			}
@@ -147,7 +147,7 @@ namespace Re
 				// Matches any single non-word character
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 /* numRead */) -> bool {
 
-					return outNumRead = !isWord(*input);
+					return outNumRead = (*input != '\0' && !isWord(*input));
 				}, "NonWord");
 				break;
 			}
diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index 9712c1a..3fc9aaa 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -430,7 +430,8 @@ namespace Re
 	template<typename AlphaT>
 	FORCE_INLINE bool StateSymbol<AlphaT>::enterState(const AlphaStringT & input, int32 & outNumRead, int32 /* numRead */) const
 	{
-		return outNumRead = (*input == symbol);
+		// The terminal symbol must never be consumed
+		return outNumRead = (*input != AlphabetTraitsT::terminalSymbol && *input == symbol);
 	}
 
 	template<typename AlphaT>
@@ -485,7 +486,8 @@ namespace Re
 	template<typename AlphaT>
 	FORCE_INLINE bool StateRange<AlphaT>::enterState(const AlphaStringT & input, int32 & outNumRead, int32 /* numRead */) const
 	{
-		return outNumRead = (*input >= min && *input <= max);
+		// The terminal symbol must never be consumed
+		return outNumRead = (*input != AlphabetTraitsT::terminalSymbol && *input >= min && *input <= max);
 	}
 
 	template<typename AlphaT>
-- 
2.43.0


From 0f7dcd971fe535f4d52355af2097cd37873e1bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 67/94] fix: \B matches wherever \b does not

---
 src/korin/core/private/regex/regex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 05e76a5..c8e1cb7 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -83,11 +83,11 @@ namespace Re
 			case 'B':
 			{
 				// Matches, without consuming, a position
-				// between two word characters
+				// that is not a word boundary
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 numRead) -> bool {
 
 					outNumRead = 0;
-					return isWord(*input) && (numRead > 0 && isWord(*(input - 1)));
+					return isWord(*input) == (numRead > 0 && isWord(*(input - 1)));
 				}, "NonWordBoundaries");
 				break;
 			}
-- 
2.43.0


From 3d4face7c598a4ea554ed2604b5d682e291a710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 68/94] fix: after cloning a group continue from the clone of
 its end state

---
 src/korin/core/public/regex/automaton.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 3966be5..ec20f72 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -360,6 +360,10 @@ namespace Re
 					prevState->addNextState(currentState);
 				}
 			} while (visitQueue.popBack(currVisit));
+
+			// Continue from the clone of the end state,
+			// which is not always the last visited state
+			visitedStates.find(endState, currentState);
 		}
 
 	public:
-- 
2.43.0


From fe5d5e6422d88c6c4b097ffe0ca61dcec22ce07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 69/94] fix: repetitions that start at zero or one

---
 src/korin/core/public/regex/automaton.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index ec20f72..f346bba 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -638,7 +638,7 @@ namespace Re
 			// Create epsilon state as future group end
 			// and also to skip groups
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
-			StateT * prevState;
+			StateT * prevState = groupStart[currentGroup];
 
 			for (int32 repeatIdx = 1; repeatIdx < minRepeats; ++repeatIdx)
 			{
@@ -664,7 +664,9 @@ namespace Re
 			{
 				CHECK(minRepeats <= maxRepeats);
 
-				for (int32 repeatIdx = minRepeats; repeatIdx < maxRepeats; ++repeatIdx)
+				// The group already exists once, even if
+				// the min number of repetitions is zero
+				for (int32 repeatIdx = minRepeats > 0 ? minRepeats : 1; repeatIdx < maxRepeats; ++repeatIdx)
 				{
 					// Groups here can be skipped.
 					currentState->addNextState(epsilon);
@@ -680,6 +682,12 @@ namespace Re
 			// it
 			groupEnd[currentGroup] = currentState = currentState->addNextState(epsilon);
 
+			if (minRepeats == 0)
+			{
+				// The entire group can be skipped
+				groupStart[currentGroup]->addNextState(epsilon);
+			}
+
 			return *this;
 		}
 
-- 
2.43.0


From 1497104964b5465b527059719f05df0e1cdcddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 70/94] fix: repeating a group zero times

---
 src/korin/core/private/regex/regex.cpp  |  6 ++----
 src/korin/core/public/regex/automaton.h | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index c8e1cb7..f156e64 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -339,7 +339,7 @@ namespace Re
 					if (idx == closeBracketPos)
 					{
 						// Exact repetition
-						builder.pushRepeat(min, min);
+						min > 0 ? builder.pushRepeat(min, min) : builder.pushNone();
 						break;
 					}
 
@@ -375,9 +375,7 @@ namespace Re
 					}
 
 					// At least min, at most max repetitions
-					builder.pushRepeat(min, max);
-					break;
-					
+					max > 0 ? builder.pushRepeat(min, max) : builder.pushNone();
 					break;
 				}
 
diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index f346bba..7690c5c 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -691,6 +691,25 @@ namespace Re
 			return *this;
 		}
 
+		/**
+		 * Repeats the last inserted state or
+		 * group zero times, i.e. the group is
+		 * always skipped (equivalent to `{0}`
+		 * in regex syntax).
+		 * 
+		 * @return ref to self
+		 */
+		FORCE_INLINE AutomatonBuilder & pushNone()
+		{
+			// Leave the end of the group dangling,
+			// and continue from its start
+			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
+			groupStart[currentGroup]->addNextState(epsilon);
+			groupEnd[currentGroup] = currentState = epsilon;
+
+			return *this;
+		}
+
 	protected:
 		/// Max number of groups
 		static constexpr sizet maxNumGroups = 127;
-- 
2.43.0


From 6f69496b47e31a5475b40e18baa53255df52e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 71/94] fix: groups of a regex can be nested at any depth

---
 src/korin/core/public/regex/automaton.h | 45 +++++++++++++------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 7690c5c..d2d1810 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "core_types.h"
+#include "containers/array.h"
 #include "containers/list.h"
 #include "containers/pair.h"
 #include "containers/set.h"
@@ -304,6 +305,19 @@ namespace Re
 		using AutomatonT = Automaton<AlphaT>;
 		using StateT = typename AutomatonT::StateT;
 		using State = typename AutomatonT::State;
+
+		/**
+		 * Set start and end states of a group.
+		 * 
+		 * @param groupIdx index of the group
+		 * @param startState,endState start and
+		 * 	end states of the group
+		 */
+		FORCE_INLINE void setGroup(sizet groupIdx, StateT * startState, StateT * endState)
+		{
+			groupStart(groupIdx) = startState;
+			groupEnd(groupIdx) = endState;
+		}
 		
 		/**
 		 * Clones current group and pushes
@@ -377,11 +391,11 @@ namespace Re
 		FORCE_INLINE explicit AutomatonBuilder(AutomatonT & inAutomaton)
 			: automaton{inAutomaton}
 			, currentState{inAutomaton.startState}
-			, groupStart{inAutomaton.startState}
-			, groupEnd{inAutomaton.acceptedState}
+			, groupStart{}
+			, groupEnd{}
 			, currentGroup{1}
 		{
-			//
+			setGroup(0, inAutomaton.startState, inAutomaton.acceptedState);
 		}
 
 		/**
@@ -409,8 +423,7 @@ namespace Re
 			currentState = state;
 
 			// Create temporary groups
-			groupStart[currentGroup] = epsilon;
-			groupEnd[currentGroup] = state;
+			setGroup(currentGroup, epsilon, state);
 
 			return *this;
 		}
@@ -431,13 +444,8 @@ namespace Re
 			currentState->addNextState(startState);
 			currentState = startState;
 
-			if (currentGroup < maxNumGroups - 1)
-			{
-				groupStart[currentGroup] = startState;
-				groupEnd[currentGroup] = endState;
-				currentGroup += 1;
-			}
-			else ; // TODO: Error
+			setGroup(currentGroup, startState, endState);
+			currentGroup += 1;
 
 			return *this;
 		}
@@ -485,10 +493,8 @@ namespace Re
 			pushState<MacroAnyT>(startState, acceptedState);
 
 			// Create macro frame
-			// TODO: Check max groups
 			currentGroup += 2;
-			groupStart[currentGroup - 1] = startState;
-			groupEnd[currentGroup - 1] = acceptedState;
+			setGroup(currentGroup - 1, startState, acceptedState);
 
 			// Set start state as current state
 			currentState = startState;
@@ -711,9 +717,6 @@ namespace Re
 		}
 
 	protected:
-		/// Max number of groups
-		static constexpr sizet maxNumGroups = 127;
-
 		/// Ref to building automaton
 		AutomatonT & automaton;
 
@@ -722,12 +725,12 @@ namespace Re
 
 		/// Groups buffers
 		/// @{
-		StateT * groupStart[maxNumGroups];
-		StateT * groupEnd[maxNumGroups];
+		Array<StateT*> groupStart;
+		Array<StateT*> groupEnd;
 		/// @}
 
 		/// Current active group
-		int8 currentGroup;
+		int32 currentGroup;
 	};
 
 	/**
-- 
2.43.0


From 0359aa1104ddf73a870f2a72a222f5ec3576508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 72/94] fix: a quantifier with nothing to repeat does not use a
 stale group

---
 src/korin/core/public/regex/automaton.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index d2d1810..255164b 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -396,6 +396,7 @@ namespace Re
 			, currentGroup{1}
 		{
 			setGroup(0, inAutomaton.startState, inAutomaton.acceptedState);
+			setGroup(1, currentState, currentState);
 		}
 
 		/**
@@ -447,6 +448,9 @@ namespace Re
 			setGroup(currentGroup, startState, endState);
 			currentGroup += 1;
 
+			// Nothing inside the group yet
+			setGroup(currentGroup, currentState, currentState);
+
 			return *this;
 		}
 
@@ -498,6 +502,7 @@ namespace Re
 
 			// Set start state as current state
 			currentState = startState;
+			setGroup(currentGroup, currentState, currentState);
 
 			return *this;
 		}
@@ -543,6 +548,9 @@ namespace Re
 			currentState->addNextState(groupEnd[currentGroup - 1]);
 			currentState = groupStart[currentGroup - 1];
 
+			// Nothing inside the branch yet
+			setGroup(currentGroup, currentState, currentState);
+
 			return *this;
 		}
 
-- 
2.43.0


From 38e45f98defe5cee687ae6698d74aeac4616b167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:59 +0000
Subject: [PATCH 73/94] fix: unmatched closing parenthesis does not end the
 regex

---
 src/korin/core/private/regex/regex.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index f156e64..6bdbd6f 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -174,6 +174,9 @@ namespace Re
 		// Create new builder
 		BuilderT builder = automaton.createBuilder();
 
+		// Number of open parenthesis
+		sizet numOpenGroups = 0;
+
 		for (sizet idx = 0; idx < patternLen; ++idx)
 		{
 			switch (pattern[idx])
@@ -200,12 +203,23 @@ namespace Re
 				case '(':
 				{
 					builder.beginGroup();
+					++numOpenGroups;
 					break;
 				}
 
 				case ')':
 				{
+					if (numOpenGroups == 0)
+					{
+						// There is no group to close, interpret
+						// this as a parenthesis symbol
+						// TODO: Throw warning
+						builder.pushState<SymbolT>(')');
+						break;
+					}
+
 					builder.endGroup();
+					--numOpenGroups;
 					break;
 				}
 
-- 
2.43.0


From 51ac55c90621018d9a44127c9a5feebcb3975070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:42 +0000
Subject: [PATCH 74/94] fix: a character class can end with an escaped
 backslash

---
 src/korin/core/private/regex/regex.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 6bdbd6f..6822bbf 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -230,10 +230,14 @@ namespace Re
 
 					// Get index of open and close brackets
 					sizet openBracketIdx = idx;
-					sizet closeBracketIdx = idx;
-					for (; (pattern[closeBracketIdx] != ']' || pattern[closeBracketIdx - 1] == '\\') && closeBracketIdx < patternLen ; ++closeBracketIdx);
+					sizet closeBracketIdx = idx + 1;
+					for (; closeBracketIdx < patternLen && pattern[closeBracketIdx] != ']'; ++closeBracketIdx)
+					{
+						// Skip escaped character
+						if (pattern[closeBracketIdx] == '\\') ++closeBracketIdx;
+					}
 					
-					if (closeBracketIdx == patternLen)
+					if (closeBracketIdx >= patternLen)
 					{
 						// If no close bracket found, interpret
 						// this as square bracket symbol, and
-- 
2.43.0


From eaa973014b6f97b90182e9a70fd883aada7b75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 75/94] fix: malformed quantifier is read as it is written

---
 src/korin/core/private/regex/regex.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 6822bbf..4bc7fb9 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -354,18 +354,20 @@ namespace Re
 						min = (min * 10) + (pattern[idx] - '0');
 					}
 					
-					if (idx == closeBracketPos)
+					if (idx == closeBracketPos && idx > openBracketPos + 1)
 					{
 						// Exact repetition
 						min > 0 ? builder.pushRepeat(min, min) : builder.pushNone();
 						break;
 					}
 
-					if (pattern[idx] != ',')
+					if (pattern[idx] != ',' || idx == openBracketPos + 1)
 					{
 						// Next character is neither the
-						// closing bracket, nor comma
+						// closing bracket, nor comma. Treat
+						// as literal
 						CHECKF(false, "When parsing regex '%s' at pos %llu: failed to parse quantifier '%.*s' (to remove this warning escape the bracket '\\\\{').", pattern, openBracketPos, static_cast<int32>(closeBracketPos - openBracketPos) + 1, pattern + openBracketPos);
+						builder.pushState<SymbolT>('{');
 						idx = openBracketPos;
 						break;
 					}
@@ -388,6 +390,7 @@ namespace Re
 					{
 						// Failed to parse quantifier
 						CHECKF(false, "When parsing regex '%s' at pos %llu: failed to parse quantifier '%.*s' (to remove this warning escape the bracket '\\\\{').", pattern, openBracketPos, static_cast<int32>(closeBracketPos - openBracketPos) + 1, pattern + openBracketPos);
+						builder.pushState<SymbolT>('{');
 						idx = openBracketPos;
 						break;
 					}
-- 
2.43.0


From 266fa28fdd9ec8eee0d455540457343b443b38b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:09 +0000
Subject: [PATCH 76/94] fix: destroying a state through its base releases what
 it owns

---
 src/korin/core/public/regex/state.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index 3fc9aaa..cddf198 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -75,6 +75,15 @@ namespace Re
 			//
 		}
 
+		/**
+		 * States are destroyed through a ptr
+		 * to their base class.
+		 */
+		virtual ~StateBase()
+		{
+			//
+		}
+
 		/**
 		 * Returns the immutable set of
 		 * next states (i.e. a set of states
@@ -565,7 +574,6 @@ namespace Re
 		LambdaT lambda;
 
 		/// Optional lambda name
-		// FIXME: Investigate possible memory leak
 		String name;
 	};
 
-- 
2.43.0


From 37bbd435bc61c46892b29ae5173a87b5512b977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 77/94] fix: an automaton cannot be copied, its states would be
 destroyed twice

---
 src/korin/core/public/regex/automaton.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 255164b..f8d7e0f 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -116,6 +116,15 @@ namespace Re
 		 */
 		Automaton();
 
+		/**
+		 * An automaton owns its states, thus
+		 * it cannot be copied.
+		 * @{
+		 */
+		Automaton(const Automaton&) = delete;
+		Automaton & operator=(const Automaton&) = delete;
+		/** @} */
+
 		/**
 		 * Destroy automaton. Deallocates
 		 * all states.
-- 
2.43.0


From 73b53c6b1a3d19f2f40bafb02bf8a0b5bbf98b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 78/94] fix: repeating a skippable group does not clone forever

---
 src/korin/core/public/regex/automaton.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index f8d7e0f..70000a4 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -606,6 +606,10 @@ namespace Re
 			// Create shortcut
 			groupStart[currentGroup]->addNextState(epsilon);
 
+			// Current group now ends here, such that
+			// following operations address it
+			groupEnd[currentGroup] = epsilon;
+
 			return *this;
 		}
 
-- 
2.43.0


From 1e30de21de3293ec8b8da386d9bca5c3122c4e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:52 +0000
Subject: [PATCH 79/94] fix: the ends of a character range can be escaped

---
 src/korin/core/private/regex/regex.cpp | 39 ++++++++++++++++++++------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 4bc7fb9..b51ec19 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -40,6 +40,25 @@ namespace Re
 		{
 			return isDigit(cc) || isAlpha(cc) || cc == '_';
 		}
+		/**
+		 * Returns true if escaped character
+		 * stands for itself (i.e. is not a
+		 * class of characters or a boundary).
+		 */
+		constexpr FORCE_INLINE bool isEscapedSymbol(const ansichar * sequence)
+		{
+			if (sequence[0] != '\\') return false;
+
+			switch (sequence[1])
+			{
+				case 'b': case 'B':
+				case 'd': case 'D':
+				case 's': case 'S':
+				case 'w': case 'W': return false;
+
+				default: return true;
+			}
+		}
 		/** @} */
 	} // namespace
 
@@ -286,17 +305,21 @@ namespace Re
 
 					for (;;)
 					{
-						if (pattern[idx] == '\\')
+						// Both ends of a range can be escaped
+						const sizet minIdx = idx + isEscapedSymbol(pattern + idx);
+						const sizet maxIdx = minIdx + 2 + isEscapedSymbol(pattern + minIdx + 2);
+
+						if (pattern[minIdx + 1] == '-' && pattern[minIdx + 2] != ']' && (pattern[idx] != '\\' || minIdx > idx) && (pattern[minIdx + 2] != '\\' || maxIdx > minIdx + 2))
 						{
-							// Parse escape sequence
-							idx += parseEscapeSequence(builder, pattern + idx) + 1;
+							// Range specifier
+							CHECKF(pattern[minIdx] < pattern[maxIdx], "Character range out of order");
+							builder.pushState<RangeT>(pattern[minIdx], pattern[maxIdx]);
+							idx = maxIdx + 1;
 						}
-						else if (pattern[idx + 1] == '-' && pattern[idx + 2] != ']')
+						else if (pattern[idx] == '\\')
 						{
-							// Range specifier
-							CHECKF(pattern[idx] < pattern[idx + 2], "Character range out of order");
-							builder.pushState<RangeT>(pattern[idx], pattern[idx + 2]);
-							idx += 3;
+							// Parse escape sequence
+							idx += parseEscapeSequence(builder, pattern + idx) + 1;
 						}
 						else
 						{
-- 
2.43.0


From 3aa9492f7e6172ace9a9e5a373b999bb52a216e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:27 +0000
Subject: [PATCH 80/94] fix: several items of an array can be inserted in the
 same array

---
 src/korin/core/public/containers/array.h | 35 ++++++++++++++++--------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index f6072a2..d73daf2 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -640,18 +640,17 @@ protected:
 	}
 
 	/**
-	 * Insert multiple elements without
+	 * Move multiple elements without
 	 * resizing container.
 	 * 
 	 * @param idx position in which to insert
-	 * 	current item
-	 * @param item,items items to insert
+	 * 	first item
+	 * @param items items to insert
 	 */
-	template<typename ItemT, typename ... ItemListT>
-	FORCE_INLINE void insertNoResize(uint64 idx, ItemT && item, ItemListT && ... items)
+	template<uint64 numItems>
+	FORCE_INLINE void insertNoResize(uint64 idx, T (&&items)[numItems])
 	{
-		new (buffer + idx) T{forward<ItemT>(item)};
-		insertNoResize(idx + 1, forward<ItemListT>(items) ...);
+		for (T & item : items) insertNoResize(idx++, move(item));
 	}
 
 public:
@@ -697,6 +696,10 @@ public:
 		constexpr uint64 numArgs = 1 + sizeof... (ItemListT);
 		const uint64 j = idx + numArgs;
 
+		// The items could be part of this array, make
+		// them before anything is moved
+		T newItems[] = {T{forward<ItemT>(item)}, T{forward<ItemListT>(items)}...};
+
 		if (idx < count)
 		{
 			resizeIfNecessary(count + numArgs);
@@ -711,8 +714,8 @@ public:
 			count = j;
 		}
 		
-		// Copy construct elements
-		insertNoResize(idx, forward<ItemT>(item), forward<ItemListT>(items) ...);
+		// Move construct elements
+		insertNoResize(idx, move(newItems));
 	}
 	/** @} */
 
@@ -745,12 +748,16 @@ public:
 	{
 		constexpr uint64 numArgs = 1 + sizeof... (items);
 
+		// The items could be part of this array, make
+		// them before anything is moved
+		T newItems[] = {T{forward<ItemT>(item)}, T{forward<ItemListT>(items)}...};
+
 		// Resize and move elements up
 		resizeIfNecessary(count + numArgs);
 		Memory::relocateElements(buffer + numArgs, buffer, count);
 		count += numArgs;
 
-		insertNoResize(0, forward<ItemT>(item), forward<ItemListT>(items) ...);
+		insertNoResize(0, move(newItems));
 	}
 	/// @}
 
@@ -783,9 +790,13 @@ public:
 	{
 		constexpr uint64 numArgs = 1 + sizeof... (items);
 
-		// Resize and copy construct elements
+		// The items could be part of this array, make
+		// them before anything is moved
+		T newItems[] = {T{forward<ItemT>(item)}, T{forward<ItemListT>(items)}...};
+
+		// Resize and move construct elements
 		resizeIfNecessary(count + numArgs);
-		insertNoResize(count, forward<ItemT>(item), forward<ItemListT>(items) ...);
+		insertNoResize(count, move(newItems));
 
 		count += numArgs;
 	}
-- 
2.43.0


From a8e9dc96c843f7799f9f7cdd6fda8feced7e3c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 81/94] fix: elements that cannot be copied, moved or assigned
 as plain memory were

---
 src/korin/core/public/templates/types.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index 7a2afc9..0aeabee 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -185,13 +185,14 @@ struct IsTriviallyDestructible
 };
 
 /**
- * Sets value to true if T has trivial
- * copy constructor
+ * Sets value to true if T can be copied
+ * and moved, by construction or assignment,
+ * as plain memory
  */
 template<typename T>
 struct IsTriviallyCopyable
 {
-	enum {value = __has_trivial_copy(T)};
+	enum {value = __is_trivially_copyable(T)};
 };
 
 /**
-- 
2.43.0


From c11d24f9e4cb6f52c7bd90cc69307c92e25f542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 82/94] fix: qualified pointers are pointers

---
 src/korin/core/public/templates/types.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index 0aeabee..c89f68c 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -41,7 +41,10 @@ struct IsPointer
 	enum {value = false};
 };
 
-template<typename T> struct IsPointer<T*> { enum {value = true}; };
+template<typename T> struct IsPointer<T*>					{ enum {value = true}; };
+template<typename T> struct IsPointer<T* const>				{ enum {value = true}; };
+template<typename T> struct IsPointer<T* volatile>			{ enum {value = true}; };
+template<typename T> struct IsPointer<T* const volatile>	{ enum {value = true}; };
 /// @}
 
 /**
@@ -59,6 +62,10 @@ template<typename T> struct IsPointerOf<T*, T>					{ enum {value = true}; };
 template<typename T> struct IsPointerOf<const T*, T>			{ enum {value = true}; };
 template<typename T> struct IsPointerOf<volatile T*, T>			{ enum {value = true}; };
 template<typename T> struct IsPointerOf<const volatile T*, T>	{ enum {value = true}; };
+
+template<typename PtrT, typename T> struct IsPointerOf<PtrT const, T>			: IsPointerOf<PtrT, T> {};
+template<typename PtrT, typename T> struct IsPointerOf<PtrT volatile, T>		: IsPointerOf<PtrT, T> {};
+template<typename PtrT, typename T> struct IsPointerOf<PtrT const volatile, T>	: IsPointerOf<PtrT, T> {};
 /** @} */
 
 /**
-- 
2.43.0


From 742234cdaa9190c7aec48262e186a41abc267115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 83/94] fix: all pointers are removed from a type, also if
 qualified

---
 src/korin/core/public/templates/types.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index c89f68c..700196b 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -249,7 +249,10 @@ struct RemoveAllPointers
 	using Type = T;
 };
 
-template<typename T> struct RemoveAllPointers<T*> { using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T*>					{ using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T* const>				{ using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T* volatile>			{ using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T* const volatile>	{ using Type = typename RemoveAllPointers<T>::Type; };
 /// @}
 
 /**
-- 
2.43.0


From 9259a285b0c9d32f139714166362f3dfcf6e353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 84/94] fix: long integers, characters and qualified integers
 are integral

---
 src/korin/core/public/templates/types.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index 700196b..baa19cc 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -122,10 +122,19 @@ template<> struct IsIntegral<uint16>	{ enum {value = true}; };
 template<> struct IsIntegral<uint32>	{ enum {value = true}; };
 template<> struct IsIntegral<uint64>	{ enum {value = true}; };
 
+template<> struct IsIntegral<signed long>	{ enum {value = true}; };
+template<> struct IsIntegral<unsigned long>	{ enum {value = true}; };
+
 template<> struct IsIntegral<bool> { enum {value = true}; };
 
 template<> struct IsIntegral<ansichar>	{ enum {value = true}; };
 template<> struct IsIntegral<widechar>	{ enum {value = true}; };
+template<> struct IsIntegral<char16_t>	{ enum {value = true}; };
+template<> struct IsIntegral<char32_t>	{ enum {value = true}; };
+
+template<typename T> struct IsIntegral<const T>				: IsIntegral<T> {};
+template<typename T> struct IsIntegral<volatile T>			: IsIntegral<T> {};
+template<typename T> struct IsIntegral<const volatile T>	: IsIntegral<T> {};
 /// @}
 
 /**
-- 
2.43.0


From c9ca81b7e27c6b1948bebd8260235e1a8c38bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 85/94] fix: functions that do not throw or take any arguments
 are functions

---
 src/korin/core/public/templates/types.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index baa19cc..27407b3 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -160,7 +160,13 @@ struct IsCFunction
 	enum {value = false};
 };
 
-template<typename RetT, typename ... Args> struct IsCFunction<RetT(Args...)> { enum {value = true}; };
+template<typename RetT, typename ... Args> struct IsCFunction<RetT(Args...)>		{ enum {value = true}; };
+template<typename RetT, typename ... Args> struct IsCFunction<RetT(Args..., ...)>	{ enum {value = true}; };
+
+#if defined(__cpp_noexcept_function_type)
+template<typename RetT, typename ... Args> struct IsCFunction<RetT(Args...) noexcept>		{ enum {value = true}; };
+template<typename RetT, typename ... Args> struct IsCFunction<RetT(Args..., ...) noexcept>	{ enum {value = true}; };
+#endif
 
 /**
  * Sets value to true if T is a trivial type
-- 
2.43.0


From 945e8c3a996e69aac768f6a048447f1f970a6f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 86/94] fix: an array decays to a pointer to its items

---
 src/korin/core/public/templates/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index 27407b3..31888f6 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -380,7 +380,7 @@ class DecayType
 public:
 	using Type = typename ChooseType<
 		IsArray<U>::value,
-		typename RemoveArray<U>::Type, // If is array
+		typename AddPointer<typename RemoveArray<U>::Type>::Type, // If is array
 		typename ChooseType<
 			IsCFunction<U>::value,
 			typename AddPointer<U>::Type,
-- 
2.43.0


From 759a7ddf0734ed942557e75bfca6b3511a9db5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 87/94] fix: array get-or-init with an item of the array itself

---
 src/korin/core/public/containers/array.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index d73daf2..53301e0 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -586,7 +586,10 @@ public:
 	{
 		if (idx >= count)
 		{
-			return *(new (&(operator()(idx))) T{forward<ItemT>(initValue)});
+			// The value could be part of this array,
+			// make it before the buffer is replaced
+			T newItem{forward<ItemT>(initValue)};
+			return *(new (&(operator()(idx))) T{move(newItem)});
 		}
 		
 		return operator()(idx);
-- 
2.43.0


From b9da89092adc2fa1912710f2a4edf8da18182745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 88/94] fix: move assignment from a part of one of one's own
 items

---
 src/korin/core/public/containers/array.h   | 20 +++++++++++++-------
 src/korin/core/public/containers/list.h    | 22 ++++++++++++++--------
 src/korin/core/public/containers/tree.h    | 18 ++++++++++++------
 src/korin/core/public/templates/optional.h |  6 ++++--
 4 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 53301e0..a8a7ad9 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -474,17 +474,23 @@ public:
 	 */
 	Array & operator=(Array && other)
 	{
-		// Destroy first
-		destroy();
-		
-		malloc = move(other.malloc);
-		buffer = other.buffer;
-		capacity = other.capacity;
-		count = other.count;
+		// The other array could be part of an item
+		// of this array, take over from it first
+		MallocObject<T> otherMalloc{move(other.malloc)};
+		T * otherBuffer = other.buffer;
+		const uint64 otherCapacity = other.capacity;
+		const uint64 otherCount = other.count;
 
 		other.buffer = nullptr;
 		other.capacity = other.count = 0;
 
+		destroy();
+
+		malloc = move(otherMalloc);
+		buffer = otherBuffer;
+		capacity = otherCapacity;
+		count = otherCount;
+
 		return *this;
 	}
 
diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 4c72c14..692600e 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -340,18 +340,24 @@ public:
 	 */
 	FORCE_INLINE List & operator=(List && other)
 	{
-		// Remove all
-		empty();
-
-		// Take from other
-		malloc = move(other.malloc);
-		head = other.head;
-		tail = other.tail;
-		length = other.length;
+		// The other list could be part of an item
+		// of this list, take over from it first
+		MallocObject<LinkT> otherMalloc{move(other.malloc)};
+		LinkT * otherHead = other.head;
+		LinkT * otherTail = other.tail;
+		const uint64 otherLength = other.length;
 
 		other.head = other.tail = nullptr;
 		other.length = 0;
 
+		// Remove all
+		empty();
+
+		malloc = move(otherMalloc);
+		head = otherHead;
+		tail = otherTail;
+		length = otherLength;
+
 		return *this;
 	}
 
diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index 18375df..d5e3474 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -1153,16 +1153,22 @@ public:
 	 */
 	FORCE_INLINE BinaryTree & operator=(BinaryTree && other)
 	{
-		// Destroy subtree
-		if (root) destroySubtree(root);
-
-		malloc = move(other.malloc);
-		root = other.root;
-		numNodes = other.numNodes;
+		// The other tree could be part of a node
+		// of this tree, take over from it first
+		MallocObject<NodeT> otherMalloc{move(other.malloc)};
+		NodeT * otherRoot = other.root;
+		const uint64 otherNumNodes = other.numNodes;
 
 		other.root = nullptr;
 		other.numNodes = 0ull;
 
+		// Destroy subtree
+		if (root) destroySubtree(root);
+
+		malloc = move(otherMalloc);
+		root = otherRoot;
+		numNodes = otherNumNodes;
+
 		return *this;
 	}
 
diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 6463c74..b36a9bc 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -77,9 +77,11 @@ struct Optional
 	{
 		if (other.engaged && this->engaged)
 		{
-			// Move object
-			storage.value = move(*other);
+			// Move object. The other optional could be
+			// part of this one, move out of it first
+			T otherValue{move(*other)};
 			other.reset();
+			*this = move(otherValue);
 		}
 		else if (other.engaged && !this->engaged)
 		{
-- 
2.43.0


From bfa17578e5035093c561efbb763ca90ca3b31960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 89/94] fix: default allocator outlives the objects that use it
 after main

---
 src/korin/core/private/hal/memory_base.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/memory_base.cpp b/src/korin/core/private/hal/memory_base.cpp
index 5270d93..1a07f3b 100644
--- a/src/korin/core/private/hal/memory_base.cpp
+++ b/src/korin/core/private/hal/memory_base.cpp
@@ -1,6 +1,20 @@
 #include "hal/memory_base.h"
 #include "hal/malloc_ansi.h"
 
+/**
+ * Holds the default allocator. It is ready
+ * before any other object is constructed and
+ * it is never destroyed, since objects with
+ * static storage duration may free their
+ * memory after the end of main
+ */
+static union DefaultMalloc
+{
+	MallocAnsi malloc;
+
+	constexpr DefaultMalloc() : malloc{} {}
+	~DefaultMalloc() {}
+} gMallocAnsi;
+
 // TODO: Replace with initialization function
-static MallocAnsi gMallocAnsi;
-MallocBase * gMalloc = &gMallocAnsi;
\ No newline at end of file
+MallocBase * gMalloc = &gMallocAnsi.malloc;
-- 
2.43.0


From 909f24027a2678e929b486b6e0564566cc89164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:22 +0000
Subject: [PATCH 90/94] fix: recursive functions can be compiled in release
 builds

---
 src/korin/core/public/containers/tree.h            | 14 +++++++-------
 .../core/public/generic/generic_platform_math.h    |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index d5e3474..e41c963 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -91,12 +91,12 @@ struct BinaryNode
 	 * Returns root of tree.
 	 * @{
 	 */
-	FORCE_INLINE BinaryNode * getRoot()
+	inline BinaryNode * getRoot()
 	{
 		return parent ? parent->getRoot() : this;
 	}
 
-	FORCE_INLINE const BinaryNode * getRoot() const
+	inline const BinaryNode * getRoot() const
 	{
 		return parent ? parent->getRoot() : this;
 	}
@@ -106,12 +106,12 @@ struct BinaryNode
 	 * Returns leftmost node of subtree.
 	 * @{
 	 */
-	FORCE_INLINE BinaryNode * getMin()
+	inline BinaryNode * getMin()
 	{
 		return left ? left->getMin() : this;
 	}
 
-	FORCE_INLINE const BinaryNode * getMin() const
+	inline const BinaryNode * getMin() const
 	{
 		return left ? left->getMin() : this;
 	}
@@ -121,12 +121,12 @@ struct BinaryNode
 	 * Returns rightmost node of subtree.
 	 * @{
 	 */
-	FORCE_INLINE BinaryNode * getMax()
+	inline BinaryNode * getMax()
 	{
 		return right ? right->getMax() : this;
 	}
 
-	FORCE_INLINE const BinaryNode * getMax() const
+	inline const BinaryNode * getMax() const
 	{
 		return right ? right->getMax() : this;
 	}
@@ -140,7 +140,7 @@ struct BinaryNode
 	 * 	spawning from root node
 	 * @{
 	 */
-	static FORCE_INLINE uint64 getTreeSize(const BinaryNode * root)
+	static inline uint64 getTreeSize(const BinaryNode * root)
 	{
 		return root ? 1 + getTreeSize(root->right) + getTreeSize(root->left) : 0;
 	}
diff --git a/src/korin/core/public/generic/generic_platform_math.h b/src/korin/core/public/generic/generic_platform_math.h
index 86d18e8..b0d58ef 100644
--- a/src/korin/core/public/generic/generic_platform_math.h
+++ b/src/korin/core/public/generic/generic_platform_math.h
@@ -31,7 +31,7 @@ struct GenericPlatformMath
 	 * Integer power
 	 */
 	template<typename T, typename U>
-	static FORCE_INLINE typename EnableIf<IsIntegral<U>::value, T>::Type pow(const T & x, const U & y)
+	static inline typename EnableIf<IsIntegral<U>::value, T>::Type pow(const T & x, const U & y)
 	{
 		if (y == 0) return T{1};
 		T z = pow(x, y >> 1);
-- 
2.43.0


From 280bcaec671db4a82f8a0e7a0957c23b017bd8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:29 +0000
Subject: [PATCH 91/94] fix: expressions can be compiled by several threads

---
 src/korin/core/public/regex/state.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index cddf198..c6079c5 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "core_types.h"
+#include "templates/atomic.h"
 #include "templates/function.h"
 #include "containers/list.h"
 #include "containers/tuple.h"
@@ -59,8 +60,9 @@ namespace Re
 			, nextStates{}
 			, prevStates{}
 		{
-			// Generate unique id
-			static uint64 counter = 0;
+			// Generate unique id, also when states are
+			// created by several threads
+			static Atomic<uint64> counter{0};
 			id = ++counter;
 		}
 
-- 
2.43.0


From 5eda9dc5f2809226891457f11a3b7acd951cc54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 92/94] fix: assertions can be used without including anything
 else first

---
 src/korin/core/public/misc/assert.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/misc/assert.h b/src/korin/core/public/misc/assert.h
index dd4fbc0..20cdeba 100644
--- a/src/korin/core/public/misc/assert.h
+++ b/src/korin/core/public/misc/assert.h
@@ -1,5 +1,8 @@
 #pragma once
 
+#include "core_types.h"
+#include "hal/platform_crt.h"
+
 /**
  * CHECK prints a warning if condition evaluates
  * to false. CHECKF prints a formatted warning
-- 
2.43.0


From 02700d7688ce0eecebedc9db9044fccd14521cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 93/94] fix: pairs can be used without including anything else
 first

---
 src/korin/core/public/containers/pair.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/containers/pair.h b/src/korin/core/public/containers/pair.h
index 82354cf..bdd22f4 100644
--- a/src/korin/core/public/containers/pair.h
+++ b/src/korin/core/public/containers/pair.h
@@ -2,6 +2,7 @@
 
 #include "core_types.h"
 #include "templates/utility.h"
+#include "./containers_types.h"
 
 /**
  * A struct with two elements (conceptually
-- 
2.43.0


From a16e854186d1f448749383f60a68a9471f0f0645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:51 +0000
Subject: [PATCH 94/94] fix: comparisons of three-component vectors can be
 evaluated at compile time

---
 src/korin/core/public/math/vec3.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/korin/core/public/math/vec3.h b/src/korin/core/public/math/vec3.h
index bb11379..74e09ce 100644
--- a/src/korin/core/public/math/vec3.h
+++ b/src/korin/core/public/math/vec3.h
@@ -328,32 +328,32 @@ struct Vec3
 	 */
 	constexpr FORCE_INLINE int32 cmpeq(const Vec3 & other) const
 	{
-		return (x == other.x) | (y == other.y) << 1 | (z == other.z) << 2;
+		return (array[0] == other.array[0]) | (array[1] == other.array[1]) << 1 | (array[2] == other.array[2]) << 2;
 	}
 
 	constexpr FORCE_INLINE int32 cmpne(const Vec3 & other) const
 	{
-		return (x != other.x) | (y != other.y) << 1 | (z != other.z) << 2;
+		return (array[0] != other.array[0]) | (array[1] != other.array[1]) << 1 | (array[2] != other.array[2]) << 2;
 	}
 
 	constexpr FORCE_INLINE int32 cmplt(const Vec3 & other) const
 	{
-		return (x < other.x) | (y < other.y) << 1 | (z < other.z) << 2;
+		return (array[0] < other.array[0]) | (array[1] < other.array[1]) << 1 | (array[2] < other.array[2]) << 2;
 	}
 
 	constexpr FORCE_INLINE int32 cmpgt(const Vec3 & other) const
 	{
-		return (x > other.x) | (y > other.y) << 1 | (z > other.z) << 2;
+		return (array[0] > other.array[0]) | (array[1] > other.array[1]) << 1 | (array[2] > other.array[2]) << 2;
 	}
 
 	constexpr FORCE_INLINE int32 cmple(const Vec3 & other) const
 	{
-		return (x <= other.x) | (y <= other.y) << 1 | (z <= other.z) << 2;
+		return (array[0] <= other.array[0]) | (array[1] <= other.array[1]) << 1 | (array[2] <= other.array[2]) << 2;
 	}
 
 	constexpr FORCE_INLINE int32 cmpge(const Vec3 & other) const
 	{
-		return (x >= other.x) | (y >= other.y) << 1 | (z >= other.z) << 2;
+		return (array[0] >= other.array[0]) | (array[1] >= other.array[1]) << 1 | (array[2] >= other.array[2]) << 2;
 	}
 	/// @}
 
-- 
2.43.0

