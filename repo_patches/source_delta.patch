From 9cd5f259b53fe91899429fcfe5d384cb469ac2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 01/82] fix: take a thread's own id from itself, not from the
 handle being assigned by its starter

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 608d517..fb8746e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -1642,7 +1642,7 @@ void Thread::_set_platform_funcs(
 }
 
 void Thread::callback(Thread *p_self, const Settings &p_settings, Callback p_callback, void *p_userdata) {
-	caller_id = _thread_id_hash(p_self->thread.get_id());
+	caller_id = _thread_id_hash(std::this_thread::get_id());
 	caller_id_cached = true;
 
 	if (set_priority_func) {
-- 
2.43.0


From 5b051acee26206da73182072ceba8036841f18f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 02/82] fix: pooled arrays report exhausted slots and memory
 instead of writing into shared or missing blocks

---
 platform/sfw.h | 105 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 71 insertions(+), 34 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 0daf73d..0b4d8b5 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -8690,28 +8690,38 @@ template <class T>
 class PoolVector {
 	MemoryPool::Alloc *alloc;
 
-	void _copy_on_write() {
+	Error _copy_on_write() {
 		if (!alloc) {
-			return;
+			return OK;
 		}
 
 		//		ERR_FAIL_COND(alloc->lock>0); should not be illegal to lock this for copy on write, as it's a copy on write after all
 
 		// Refcount should not be zero, otherwise it's a misuse of COW
 		if (alloc->refcount.get() == 1) {
-			return; //nothing to do
+			return OK; //nothing to do
 		}
 
 		//must allocate something
 
+		MemoryPool::Alloc *old_alloc = alloc;
+		void *new_mem = nullptr;
+
+		if (MemoryPool::memory_pool) {
+		} else {
+			new_mem = memalloc(old_alloc->size);
+			ERR_FAIL_COND_V_MSG(!new_mem, ERR_OUT_OF_MEMORY, "Out of memory, can't COW.");
+		}
+
 		MemoryPool::alloc_mutex.lock();
 		if (MemoryPool::allocs_used == MemoryPool::alloc_count) {
 			MemoryPool::alloc_mutex.unlock();
-			ERR_FAIL_MSG("All memory pool allocations are in use, can't COW.");
+			if (new_mem) {
+				memfree(new_mem);
+			}
+			ERR_FAIL_V_MSG(ERR_OUT_OF_MEMORY, "All memory pool allocations are in use, can't COW.");
 		}
 
-		MemoryPool::Alloc *old_alloc = alloc;
-
 		//take one from the free list
 		alloc = MemoryPool::free_list;
 		MemoryPool::free_list = alloc->free_list;
@@ -8733,10 +8743,7 @@ class PoolVector {
 
 		MemoryPool::alloc_mutex.unlock();
 
-		if (MemoryPool::memory_pool) {
-		} else {
-			alloc->mem = memalloc(alloc->size);
-		}
+		alloc->mem = new_mem;
 
 		{
 			Write w;
@@ -8788,6 +8795,8 @@ class PoolVector {
 				MemoryPool::alloc_mutex.unlock();
 			}
 		}
+
+		return OK;
 	}
 
 	void _reference(const PoolVector &p_pool_vector) {
@@ -8955,8 +8964,7 @@ public:
 	}
 	Write write() {
 		Write w;
-		if (alloc) {
-			_copy_on_write(); //make sure there is only one being accessed
+		if (alloc && _copy_on_write() == OK) { //make sure there is only one being accessed
 			w._ref(alloc);
 		}
 		return w;
@@ -8965,8 +8973,9 @@ public:
 	template <class MC>
 	void fill_with(const MC &p_mc) {
 		int c = p_mc.size();
-		resize(c);
+		ERR_FAIL_COND(resize(c) != OK);
 		Write w = write();
+		ERR_FAIL_COND(c > 0 && !w.ptr());
 		int idx = 0;
 		for (const typename MC::Element *E = p_mc.front(); E; E = E->next()) {
 			w[idx++] = E->get();
@@ -8976,6 +8985,8 @@ public:
 	void remove(int p_index) {
 		int s = size();
 		ERR_FAIL_INDEX(p_index, s);
+		ERR_FAIL_COND(_copy_on_write() != OK);
+		ERR_FAIL_COND_MSG(alloc->lock.get() > 0, "Can't remove from a PoolVector if locked.");
 		Write w = write();
 		for (int i = p_index; i < s - 1; i++) {
 			w[i] = w[i + 1];
@@ -8999,8 +9010,9 @@ public:
 			return;
 		}
 		int bs = size();
-		resize(bs + ds);
+		ERR_FAIL_COND(resize(bs + ds) != OK);
 		Write w = write();
+		ERR_FAIL_COND(!w.ptr());
 		Read r = p_arr.read();
 		for (int i = 0; i < ds; i++) {
 			w[bs + i] = r[i];
@@ -9020,7 +9032,7 @@ public:
 
 		PoolVector<T> slice;
 		int span = 1 + p_to - p_from;
-		slice.resize(span);
+		ERR_FAIL_COND_V(slice.resize(span) != OK, PoolVector<T>());
 		Read r = read();
 		Write w = slice.write();
 		for (int i = 0; i < span; ++i) {
@@ -9033,7 +9045,8 @@ public:
 	Error insert(int p_pos, const T &p_val) {
 		int s = size();
 		ERR_FAIL_INDEX_V(p_pos, s + 1, ERR_INVALID_PARAMETER);
-		resize(s + 1);
+		Error err = resize(s + 1);
+		ERR_FAIL_COND_V(err != OK, err);
 		{
 			Write w = write();
 			for (int i = s; i > p_pos; i--) {
@@ -9111,12 +9124,14 @@ void PoolVector<T>::set(int p_index, const T &p_val) {
 	ERR_FAIL_INDEX(p_index, size());
 
 	Write w = write();
+	ERR_FAIL_COND(!w.ptr());
 	w[p_index] = p_val;
 }
 
 template <class T>
 void PoolVector<T>::fill(const T &p_val) {
 	Write w = write();
+	ERR_FAIL_COND(size() > 0 && !w.ptr());
 	for (int i = 0; i < size(); i++) {
 		w[i] = p_val;
 	}
@@ -9124,7 +9139,7 @@ void PoolVector<T>::fill(const T &p_val) {
 
 template <class T>
 void PoolVector<T>::push_back(const T &p_val) {
-	resize(size() + 1);
+	ERR_FAIL_COND(resize(size() + 1) != OK);
 	set(size() - 1, p_val);
 }
 
@@ -9209,15 +9224,26 @@ template <class T>
 Error PoolVector<T>::resize(int p_size) {
 	ERR_FAIL_COND_V_MSG(p_size < 0, ERR_INVALID_PARAMETER, "Size of PoolVector cannot be negative.");
 
+	size_t new_size = sizeof(T) * p_size;
+	void *new_mem = nullptr;
+
 	if (alloc == nullptr) {
 		if (p_size == 0) {
 			return OK; //nothing to do here
 		}
 
 		//must allocate something
+		if (!MemoryPool::memory_pool) {
+			new_mem = memalloc(new_size);
+			ERR_FAIL_COND_V_MSG(!new_mem, ERR_OUT_OF_MEMORY, "Out of memory.");
+		}
+
 		MemoryPool::alloc_mutex.lock();
 		if (MemoryPool::allocs_used == MemoryPool::alloc_count) {
 			MemoryPool::alloc_mutex.unlock();
+			if (new_mem) {
+				memfree(new_mem);
+			}
 			ERR_FAIL_V_MSG(ERR_OUT_OF_MEMORY, "All memory pool allocations are in use.");
 		}
 
@@ -9237,8 +9263,6 @@ Error PoolVector<T>::resize(int p_size) {
 		ERR_FAIL_COND_V_MSG(alloc->lock.get() > 0, ERR_LOCKED, "Can't resize PoolVector if locked."); //can't resize if locked!
 	}
 
-	size_t new_size = sizeof(T) * p_size;
-
 	if (alloc->size == new_size) {
 		return OK; //nothing to do
 	}
@@ -9248,17 +9272,10 @@ Error PoolVector<T>::resize(int p_size) {
 		return OK;
 	}
 
-	_copy_on_write(); // make it unique
-
-#ifdef DEBUG_ENABLED
-	MemoryPool::alloc_mutex.lock();
-	MemoryPool::total_memory -= alloc->size;
-	MemoryPool::total_memory += new_size;
-	if (MemoryPool::total_memory > MemoryPool::max_memory) {
-		MemoryPool::max_memory = MemoryPool::total_memory;
+	Error err = _copy_on_write(); // make it unique
+	if (err != OK) {
+		return err;
 	}
-	MemoryPool::alloc_mutex.unlock();
-#endif
 
 	int cur_elements = alloc->size / sizeof(T);
 
@@ -9268,13 +9285,22 @@ Error PoolVector<T>::resize(int p_size) {
 			//if none, create
 			//if some resize
 		} else {
-			if (alloc->size == 0) {
-				alloc->mem = memalloc(new_size);
-			} else {
-				alloc->mem = memrealloc(alloc->mem, new_size);
+			if (alloc->size != 0) {
+				new_mem = memrealloc(alloc->mem, new_size);
+				ERR_FAIL_COND_V_MSG(!new_mem, ERR_OUT_OF_MEMORY, "Out of memory.");
 			}
+			alloc->mem = new_mem;
 		}
 
+#ifdef DEBUG_ENABLED
+		MemoryPool::alloc_mutex.lock();
+		MemoryPool::total_memory += new_size - alloc->size;
+		if (MemoryPool::total_memory > MemoryPool::max_memory) {
+			MemoryPool::max_memory = MemoryPool::total_memory;
+		}
+		MemoryPool::alloc_mutex.unlock();
+#endif
+
 		alloc->size = new_size;
 
 		Write w = write();
@@ -9284,6 +9310,12 @@ Error PoolVector<T>::resize(int p_size) {
 		}
 
 	} else {
+#ifdef DEBUG_ENABLED
+		MemoryPool::alloc_mutex.lock();
+		MemoryPool::total_memory -= alloc->size - new_size;
+		MemoryPool::alloc_mutex.unlock();
+#endif
+
 		{
 			Write w = write();
 			for (int i = p_size; i < cur_elements; i++) {
@@ -9308,7 +9340,10 @@ Error PoolVector<T>::resize(int p_size) {
 				MemoryPool::alloc_mutex.unlock();
 
 			} else {
-				alloc->mem = memrealloc(alloc->mem, new_size);
+				new_mem = memrealloc(alloc->mem, new_size);
+				if (new_mem) { // otherwise the block stays larger than needed
+					alloc->mem = new_mem;
+				}
 				alloc->size = new_size;
 			}
 		}
@@ -9322,6 +9357,7 @@ void PoolVector<T>::invert() {
 	T temp;
 	Write w = write();
 	int s = size();
+	ERR_FAIL_COND(s > 0 && !w.ptr());
 	int half_s = s / 2;
 
 	for (int i = 0; i < half_s; i++) {
@@ -9339,6 +9375,7 @@ void PoolVector<T>::sort() {
 	}
 
 	Write w = write();
+	ERR_FAIL_COND(!w.ptr());
 	SortArray<T> sorter;
 	sorter.sort(w.ptr(), len);
 }
-- 
2.43.0


From fc36b26e1b252ee69c04dc17c1fa6672cbeddbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 03/82] fix: resizing a pooled array is not refused because
 another array sharing its block is being read

---
 platform/sfw.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 0b4d8b5..60cd355 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -9260,7 +9260,8 @@ Error PoolVector<T>::resize(int p_size) {
 		MemoryPool::alloc_mutex.unlock();
 
 	} else {
-		ERR_FAIL_COND_V_MSG(alloc->lock.get() > 0, ERR_LOCKED, "Can't resize PoolVector if locked."); //can't resize if locked!
+		// Can't resize if locked! A shared block is only left behind, so handles other owners have on it don't matter.
+		ERR_FAIL_COND_V_MSG(alloc->refcount.get() == 1 && alloc->lock.get() > 0, ERR_LOCKED, "Can't resize PoolVector if locked.");
 	}
 
 	if (alloc->size == new_size) {
@@ -9276,6 +9277,8 @@ Error PoolVector<T>::resize(int p_size) {
 	if (err != OK) {
 		return err;
 	}
+	// Every other owner may have gone by now, while a handle taken through one of them is still open.
+	ERR_FAIL_COND_V_MSG(alloc->lock.get() > 0, ERR_LOCKED, "Can't resize PoolVector if locked.");
 
 	int cur_elements = alloc->size / sizeof(T);
 
-- 
2.43.0


From 833978be30f102a4f91f2d5fd2346736f379dc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 04/82] fix: a pooled array's block lives on while a reader or
 writer handle on it is open

---
 platform/sfw.h | 109 +++++++++++++++++++------------------------------
 1 file changed, 42 insertions(+), 67 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 60cd355..0cae7a1 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -8658,6 +8658,7 @@ struct MemoryPool {
 
 	struct Alloc {
 		SafeRefCount refcount;
+		SafeRefCount pins; // One for all the owners together, one for each open handle.
 		SafeNumeric<uint32_t> lock;
 		void *mem;
 		PoolAllocator::ID pool_id;
@@ -8731,6 +8732,7 @@ class PoolVector {
 		//copy the alloc data
 		alloc->size = old_alloc->size;
 		alloc->refcount.init();
+		alloc->pins.init();
 		alloc->pool_id = POOL_ALLOCATOR_INVALID_ID;
 		alloc->lock.set(0);
 
@@ -8760,43 +8762,46 @@ class PoolVector {
 		}
 
 		if (old_alloc->refcount.unref()) {
-			//this should never happen but..
-
-#ifdef DEBUG_ENABLED
-			MemoryPool::alloc_mutex.lock();
-			MemoryPool::total_memory -= old_alloc->size;
-			MemoryPool::alloc_mutex.unlock();
-#endif
+			// The other owners went away meanwhile.
+			_unpin(old_alloc);
+		}
 
-			{
-				Write w;
-				w._ref(old_alloc);
+		return OK;
+	}
 
-				int cur_elements = old_alloc->size / sizeof(T);
-				T *elems = (T *)w.ptr();
-				for (int i = 0; i < cur_elements; i++) {
-					elems[i].~T();
-				}
-			}
+	static void _unpin(MemoryPool::Alloc *p_alloc) {
+		if (!p_alloc->pins.unref()) {
+			return;
+		}
 
-			if (MemoryPool::memory_pool) {
-				//resize memory pool
-				//if none, create
-				//if some resize
-			} else {
-				memfree(old_alloc->mem);
-				old_alloc->mem = nullptr;
-				old_alloc->size = 0;
+		int cur_elements = p_alloc->size / sizeof(T);
+		T *elems = (T *)p_alloc->mem;
 
-				MemoryPool::alloc_mutex.lock();
-				old_alloc->free_list = MemoryPool::free_list;
-				MemoryPool::free_list = old_alloc;
-				MemoryPool::allocs_used--;
-				MemoryPool::alloc_mutex.unlock();
-			}
+		for (int i = 0; i < cur_elements; i++) {
+			elems[i].~T();
 		}
 
-		return OK;
+#ifdef DEBUG_ENABLED
+		MemoryPool::alloc_mutex.lock();
+		MemoryPool::total_memory -= p_alloc->size;
+		MemoryPool::alloc_mutex.unlock();
+#endif
+
+		if (MemoryPool::memory_pool) {
+			//resize memory pool
+			//if none, create
+			//if some resize
+		} else {
+			memfree(p_alloc->mem);
+			p_alloc->mem = nullptr;
+			p_alloc->size = 0;
+
+			MemoryPool::alloc_mutex.lock();
+			p_alloc->free_list = MemoryPool::free_list;
+			MemoryPool::free_list = p_alloc;
+			MemoryPool::allocs_used--;
+			MemoryPool::alloc_mutex.unlock();
+		}
 	}
 
 	void _reference(const PoolVector &p_pool_vector) {
@@ -8825,43 +8830,9 @@ class PoolVector {
 			return;
 		}
 
-		//must be disposed!
-
-		{
-			int cur_elements = alloc->size / sizeof(T);
+		//must be disposed, as soon as no handle uses it
 
-			// Don't use write() here because it could otherwise provoke COW,
-			// which is not desirable here because we are destroying the last reference anyways
-			Write w;
-			// Reference to still prevent other threads from touching the alloc
-			w._ref(alloc);
-
-			for (int i = 0; i < cur_elements; i++) {
-				w[i].~T();
-			}
-		}
-
-#ifdef DEBUG_ENABLED
-		MemoryPool::alloc_mutex.lock();
-		MemoryPool::total_memory -= alloc->size;
-		MemoryPool::alloc_mutex.unlock();
-#endif
-
-		if (MemoryPool::memory_pool) {
-			//resize memory pool
-			//if none, create
-			//if some resize
-		} else {
-			memfree(alloc->mem);
-			alloc->mem = nullptr;
-			alloc->size = 0;
-
-			MemoryPool::alloc_mutex.lock();
-			alloc->free_list = MemoryPool::free_list;
-			MemoryPool::free_list = alloc;
-			MemoryPool::allocs_used--;
-			MemoryPool::alloc_mutex.unlock();
-		}
+		_unpin(alloc);
 
 		alloc = nullptr;
 	}
@@ -8877,6 +8848,7 @@ public:
 		_FORCE_INLINE_ void _ref(MemoryPool::Alloc *p_alloc) {
 			alloc = p_alloc;
 			if (alloc) {
+				alloc->pins.ref();
 				if (alloc->lock.increment() == 1) {
 					if (MemoryPool::memory_pool) {
 						//lock it and get mem
@@ -8895,8 +8867,10 @@ public:
 					}
 				}
 
+				MemoryPool::Alloc *unused = alloc;
 				mem = nullptr;
 				alloc = nullptr;
+				_unpin(unused);
 			}
 		}
 
@@ -9256,6 +9230,7 @@ Error PoolVector<T>::resize(int p_size) {
 		//cleanup the alloc
 		alloc->size = 0;
 		alloc->refcount.init();
+		alloc->pins.init();
 		alloc->pool_id = POOL_ALLOCATOR_INVALID_ID;
 		MemoryPool::alloc_mutex.unlock();
 
-- 
2.43.0


From 330dc4b4b16d6102b1cbd78cea701cd24e10b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:56 +0000
Subject: [PATCH 05/82] fix: a failed reallocation leaves the old block and the
 accounting as they were

---
 platform/sfw.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index fb8746e..00c044b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -1980,22 +1980,17 @@ void *Memory::realloc_static(void *p_memory, size_t p_bytes, bool p_pad_align) {
 	if (prepad) {
 		mem -= PAD_ALIGN;
 		uint64_t *s = (uint64_t *)mem;
+		uint64_t old_bytes = *s;
 
+		if (p_bytes == 0) {
+			alloc_count.decrement();
 #ifdef DEBUG_ENABLED
-		if (p_bytes > *s) {
-			uint64_t new_mem_usage = mem_usage.add(p_bytes - *s);
-			max_usage.exchange_if_greater(new_mem_usage);
-		} else {
-			mem_usage.sub(*s - p_bytes);
-		}
+			mem_usage.sub(old_bytes);
 #endif
-
-		if (p_bytes == 0) {
 			free(mem);
 			return nullptr;
 		} else {
-			*s = p_bytes;
-
+			// On failure the old block stays as it is, and so does its size.
 			mem = (uint8_t *)realloc(mem, p_bytes + PAD_ALIGN);
 			ERR_FAIL_COND_V(!mem, nullptr);
 
@@ -2003,6 +1998,15 @@ void *Memory::realloc_static(void *p_memory, size_t p_bytes, bool p_pad_align) {
 
 			*s = p_bytes;
 
+#ifdef DEBUG_ENABLED
+			if (p_bytes > old_bytes) {
+				uint64_t new_mem_usage = mem_usage.add(p_bytes - old_bytes);
+				max_usage.exchange_if_greater(new_mem_usage);
+			} else {
+				mem_usage.sub(old_bytes - p_bytes);
+			}
+#endif
+
 			return mem + PAD_ALIGN;
 		}
 	} else {
-- 
2.43.0


From 60a568eba7f49f7c785dde2ce5cc3a6634437e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:39 +0000
Subject: [PATCH 06/82] fix: strings and vectors survive being refused memory

---
 platform/sfw.cpp | 60 +++++++++++++++++++++++++++++-------------------
 platform/sfw.h   | 30 +++++++++++++++---------
 2 files changed, 55 insertions(+), 35 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 00c044b..ffc199e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2975,7 +2975,7 @@ bool Char16String::operator<(const Char16String &p_right) const {
 
 Char16String &Char16String::operator+=(char16_t p_char) {
 	const int lhs_len = length();
-	resize(lhs_len + 2);
+	ERR_FAIL_COND_V(resize(lhs_len + 2) != OK, *this);
 
 	char16_t *dst = ptrw();
 	dst[lhs_len] = p_char;
@@ -3016,7 +3016,10 @@ void Char16String::copy_from(const char16_t *p_cstr) {
 
 	ERR_FAIL_COND_MSG(err != OK, "Failed to copy char16_t string.");
 
-	memcpy(ptrw(), p_cstr, len * sizeof(char16_t));
+	char16_t *dst = ptrw();
+	ERR_FAIL_COND(!dst);
+
+	memcpy(dst, p_cstr, len * sizeof(char16_t));
 }
 
 /*************************************************************************/
@@ -3033,7 +3036,7 @@ bool CharString::operator<(const CharString &p_right) const {
 
 CharString &CharString::operator+=(char p_char) {
 	const int lhs_len = length();
-	resize(lhs_len + 2);
+	ERR_FAIL_COND_V(resize(lhs_len + 2) != OK, *this);
 
 	char *dst = ptrw();
 	dst[lhs_len] = p_char;
@@ -3071,7 +3074,10 @@ void CharString::copy_from(const char *p_cstr) {
 
 	ERR_FAIL_COND_MSG(err != OK, "Failed to copy C-string.");
 
-	memcpy(ptrw(), p_cstr, len);
+	char *dst = ptrw();
+	ERR_FAIL_COND(!dst);
+
+	memcpy(dst, p_cstr, len);
 }
 
 /*************************************************************************/
@@ -3092,9 +3098,10 @@ void String::copy_from(const char *p_cstr) {
 		return;
 	}
 
-	resize(len + 1); // include 0
+	ERR_FAIL_COND(resize(len + 1) != OK); // include 0
 
 	CharType *dst = this->ptrw();
+	ERR_FAIL_COND(!dst);
 
 	for (size_t i = 0; i <= len; i++) {
 		uint8_t c = p_cstr[i] >= 0 ? p_cstr[i] : uint8_t(256 + p_cstr[i]);
@@ -3127,9 +3134,10 @@ void String::copy_from(const char *p_cstr, const int p_clip_to) {
 		return;
 	}
 
-	resize(len + 1); // include 0
+	ERR_FAIL_COND(resize(len + 1) != OK); // include 0
 
 	CharType *dst = this->ptrw();
+	ERR_FAIL_COND(!dst);
 
 	for (int i = 0; i < len; i++) {
 		uint8_t c = p_cstr[i] >= 0 ? p_cstr[i] : uint8_t(256 + p_cstr[i]);
@@ -3187,9 +3195,10 @@ void String::copy_from(const CharType &p_char) {
 	}
 	*/
 
-	resize(2);
+	ERR_FAIL_COND(resize(2) != OK);
 
 	CharType *dst = ptrw();
+	ERR_FAIL_COND(!dst);
 	dst[0] = p_char;
 	dst[1] = 0;
 }
@@ -3239,8 +3248,9 @@ void String::copy_from(const CharType *p_cstr, const int p_clip_to) {
 // p_length > 0
 // p_length <= p_char strlen
 void String::copy_from_unchecked(const CharType *p_char, const int p_length) {
-	resize(p_length + 1);
+	ERR_FAIL_COND(resize(p_length + 1) != OK);
 	CharType *dst = ptrw();
+	ERR_FAIL_COND(!dst);
 	dst[p_length] = 0;
 
 	for (int i = 0; i < p_length; i++) {
@@ -3317,7 +3327,7 @@ String &String::operator+=(const String &p_str) {
 		return *this;
 	}
 
-	set_length(lhs_len + rhs_len);
+	ERR_FAIL_COND_V(set_length(lhs_len + rhs_len) != OK, *this);
 
 	const CharType *src = p_str.get_data();
 	CharType *dst = ptrw() + lhs_len;
@@ -3345,7 +3355,7 @@ String &String::operator+=(CharType p_char) {
 	*/
 
 	const int lhs_len = length();
-	set_length(lhs_len + 1);
+	ERR_FAIL_COND_V(set_length(lhs_len + 1) != OK, *this);
 	CharType *dst = ptrw();
 	dst[lhs_len] = p_char;
 
@@ -3360,7 +3370,7 @@ String &String::operator+=(const char *p_str) {
 	const int lhs_len = length();
 	const size_t rhs_len = strlen(p_str);
 
-	set_length(lhs_len + rhs_len);
+	ERR_FAIL_COND_V(set_length(lhs_len + rhs_len) != OK, *this);
 
 	CharType *dst = ptrw() + lhs_len;
 
@@ -4410,7 +4420,7 @@ String String::repeat(int p_count) const {
 
 	int len = length();
 	String new_string = *this;
-	new_string.resize(p_count * len + 1);
+	ERR_FAIL_COND_V(new_string.resize(p_count * len + 1) != OK, String());
 
 	CharType *dst = new_string.ptrw();
 	int offset = 1;
@@ -4859,7 +4869,7 @@ String String::num_int64(int64_t p_num, int base, bool capitalize_hex) {
 		chars++;
 	}
 	String s;
-	s.resize(chars + 1);
+	ERR_FAIL_COND_V(s.resize(chars + 1) != OK, String());
 	CharType *c = s.ptrw();
 	c[chars] = 0;
 	n = p_num;
@@ -4892,7 +4902,7 @@ String String::num_uint64(uint64_t p_num, int base, bool capitalize_hex) {
 	} while (n);
 
 	String s;
-	s.resize(chars + 1);
+	ERR_FAIL_COND_V(s.resize(chars + 1) != OK, String());
 	CharType *c = s.ptrw();
 	c[chars] = 0;
 	n = p_num;
@@ -5683,7 +5693,7 @@ CharString String::ascii(bool p_allow_extended) const {
 	}
 
 	CharString cs;
-	cs.resize(size());
+	ERR_FAIL_COND_V(cs.resize(size()) != OK, CharString());
 
 	for (int i = 0; i < size(); i++) {
 		CharType c = operator[](i);
@@ -5796,8 +5806,9 @@ Error String::parse_utf8(const char *p_utf8, int p_len, bool p_skip_cr) {
 		return OK; // empty string
 	}
 
-	resize(str_size + 1);
+	ERR_FAIL_COND_V(resize(str_size + 1) != OK, ERR_OUT_OF_MEMORY);
 	CharType *dst = ptrw();
+	ERR_FAIL_COND_V(!dst, ERR_OUT_OF_MEMORY);
 	dst[str_size] = 0;
 
 	int skip = 0;
@@ -5912,7 +5923,7 @@ CharString String::utf8() const {
 		return utf8s;
 	}
 
-	utf8s.resize(fl + 1);
+	ERR_FAIL_COND_V(utf8s.resize(fl + 1) != OK, CharString());
 	uint8_t *cdst = (uint8_t *)utf8s.get_data();
 
 #define APPEND_CHAR(m_c) *(cdst++) = m_c
@@ -6070,8 +6081,9 @@ Error String::parse_utf16(const char16_t *p_utf16, int p_len) {
 		return OK; // empty string
 	}
 
-	resize(str_size + 1);
+	ERR_FAIL_COND_V(resize(str_size + 1) != OK, ERR_OUT_OF_MEMORY);
 	CharType *dst = ptrw();
+	ERR_FAIL_COND_V(!dst, ERR_OUT_OF_MEMORY);
 	dst[str_size] = 0;
 
 	bool skip = false;
@@ -6140,7 +6152,7 @@ Char16String String::utf16() const {
 		return utf16s;
 	}
 
-	utf16s.resize(fl + 1);
+	ERR_FAIL_COND_V(utf16s.resize(fl + 1) != OK, Char16String());
 	uint16_t *cdst = (uint16_t *)utf16s.get_data();
 
 #define APPEND_CHAR(m_c) *(cdst++) = m_c
@@ -6847,7 +6859,7 @@ String String::xml_unescape() const {
 	if (len == 0) {
 		return String();
 	}
-	str.resize(len + 1);
+	ERR_FAIL_COND_V(str.resize(len + 1) != OK, String());
 	_xml_unescape(get_data(), l, str.ptrw());
 	str[len] = 0;
 	return str;
@@ -7522,7 +7534,7 @@ Vector<uint8_t> String::to_ascii_buffer() const {
 
 	Vector<uint8_t> retval;
 	size_t len = charstr.length();
-	retval.resize(len);
+	ERR_FAIL_COND_V(retval.resize(len) != OK, Vector<uint8_t>());
 	uint8_t *w = retval.ptrw();
 	memcpy(w, charstr.ptr(), len);
 
@@ -7538,7 +7550,7 @@ Vector<uint8_t> String::to_utf8_buffer() const {
 
 	Vector<uint8_t> retval;
 	size_t len = charstr.length();
-	retval.resize(len);
+	ERR_FAIL_COND_V(retval.resize(len) != OK, Vector<uint8_t>());
 	uint8_t *w = retval.ptrw();
 	memcpy(w, charstr.ptr(), len);
 
@@ -7554,7 +7566,7 @@ Vector<uint8_t> String::to_utf16_buffer() const {
 
 	Vector<uint8_t> retval;
 	size_t len = charstr.length() * sizeof(char16_t);
-	retval.resize(len);
+	ERR_FAIL_COND_V(retval.resize(len) != OK, Vector<uint8_t>());
 	uint8_t *w = retval.ptrw();
 	memcpy(w, (const void *)charstr.ptr(), len);
 
@@ -7569,7 +7581,7 @@ Vector<uint8_t> String::to_utf32_buffer() const {
 
 	Vector<uint8_t> retval;
 	size_t len = s->length() * sizeof(CharType);
-	retval.resize(len);
+	ERR_FAIL_COND_V(retval.resize(len) != OK, Vector<uint8_t>());
 	uint8_t *w = retval.ptrw();
 	memcpy(w, (const void *)s->ptr(), len);
 
diff --git a/platform/sfw.h b/platform/sfw.h
index 0cae7a1..9364968 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -2921,9 +2921,9 @@ private:
 public:
 	void operator=(const CowData<T> &p_from) { _ref(p_from); }
 
+	// Null if there is nothing, or if the data is shared and there is no memory for a copy of it.
 	_FORCE_INLINE_ T *ptrw() {
-		_copy_on_write();
-		return _ptr;
+		return _copy_on_write() ? _ptr : nullptr;
 	}
 
 	_FORCE_INLINE_ const T *ptr() const {
@@ -2944,13 +2944,13 @@ public:
 
 	_FORCE_INLINE_ void set(int p_index, const T &p_elem) {
 		CRASH_BAD_INDEX(p_index, size());
-		_copy_on_write();
+		ERR_FAIL_COND(!_copy_on_write());
 		_ptr[p_index] = p_elem;
 	}
 
 	_FORCE_INLINE_ T &get_m(int p_index) {
 		CRASH_BAD_INDEX(p_index, size());
-		_copy_on_write();
+		CRASH_COND_MSG(!_copy_on_write(), "Out of memory.");
 		return _ptr[p_index];
 	}
 
@@ -2965,6 +2965,7 @@ public:
 	_FORCE_INLINE_ void remove(int p_index) {
 		ERR_FAIL_INDEX(p_index, size());
 		T *p = ptrw();
+		ERR_FAIL_COND(!p);
 		int len = size();
 		for (int i = p_index; i < len - 1; i++) {
 			p[i] = p[i + 1];
@@ -2975,7 +2976,8 @@ public:
 
 	Error insert(int p_pos, const T &p_val) {
 		ERR_FAIL_INDEX_V(p_pos, size() + 1, ERR_INVALID_PARAMETER);
-		resize(size() + 1);
+		Error err = resize(size() + 1);
+		ERR_FAIL_COND_V(err != OK, err);
 		for (int i = (size() - 1); i > p_pos; i--) {
 			set(i, get(i - 1));
 		}
@@ -2992,6 +2994,7 @@ public:
 		}
 
 		T *p = ptrw();
+		ERR_FAIL_COND(!p);
 		for (int i = 0; i < len; ++i) {
 			p[i] = p_val;
 		}
@@ -3045,6 +3048,7 @@ uint32_t CowData<T>::_copy_on_write() {
 		uint32_t current_size = *_get_size();
 
 		uint32_t *mem_new = (uint32_t *)Memory::alloc_static(_get_alloc_size(current_size), true);
+		ERR_FAIL_COND_V(!mem_new, 0);
 
 		new (mem_new - 2, sizeof(uint32_t), "") SafeNumeric<uint32_t>(1); //refcount
 		*(mem_new - 1) = current_size; //size
@@ -3088,6 +3092,7 @@ Error CowData<T>::resize(int p_size) {
 
 	// possibly changing size, copy on write
 	uint32_t rc = _copy_on_write();
+	ERR_FAIL_COND_V(_ptr && !rc, ERR_OUT_OF_MEMORY);
 
 	size_t current_alloc_size = _get_alloc_size(current_size);
 	size_t alloc_size;
@@ -3134,10 +3139,11 @@ Error CowData<T>::resize(int p_size) {
 
 		if (alloc_size != current_alloc_size) {
 			uint32_t *_ptrnew = (uint32_t *)Memory::realloc_static(_ptr, alloc_size, true);
-			ERR_FAIL_COND_V(!_ptrnew, ERR_OUT_OF_MEMORY);
-			new (_ptrnew - 2, sizeof(uint32_t), "") SafeNumeric<uint32_t>(rc); //refcount
+			if (_ptrnew) { // Otherwise the block stays larger than needed.
+				new (_ptrnew - 2, sizeof(uint32_t), "") SafeNumeric<uint32_t>(rc); //refcount
 
-			_ptr = (T *)(_ptrnew);
+				_ptr = (T *)(_ptrnew);
+			}
 		}
 
 		*_get_size() = p_size;
@@ -4995,6 +5001,7 @@ public:
 		}
 
 		T *data = ptrw();
+		ERR_FAIL_COND(!data);
 		SortArray<T, C> sorter;
 		sorter.sort(data, len);
 	}
@@ -5022,7 +5029,7 @@ public:
 
 	Vector<uint8_t> to_byte_array() const {
 		Vector<uint8_t> ret;
-		ret.resize(size() * sizeof(T));
+		ERR_FAIL_COND_V(ret.resize(size() * sizeof(T)) != OK, ret);
 		memcpy(ret.ptrw(), ptr(), sizeof(T) * size());
 		return ret;
 	}
@@ -5044,7 +5051,7 @@ public:
 		ERR_FAIL_COND_V(begin > end, result);
 
 		int result_size = end - begin;
-		result.resize(result_size);
+		ERR_FAIL_COND_V(result.resize(result_size) != OK, result);
 
 		const T *const r = ptr();
 		T *const w = result.ptrw();
@@ -5062,6 +5069,7 @@ template <class T>
 void Vector<T>::invert() {
 	for (int i = 0; i < size() / 2; i++) {
 		T *p = ptrw();
+		ERR_FAIL_COND(!p);
 		SWAP(p[i], p[size() - i - 1]);
 	}
 }
@@ -5073,7 +5081,7 @@ void Vector<T>::append_array(Vector<T> p_other) {
 		return;
 	}
 	const int bs = size();
-	resize(bs + ds);
+	ERR_FAIL_COND(resize(bs + ds) != OK);
 	for (int i = 0; i < ds; ++i) {
 		ptrw()[bs + i] = p_other[i];
 	}
-- 
2.43.0


From 9f931114a6258f20f959635b046ca7d640d3e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 07/82] fix: hash bytes of C strings unsigned, so equal names
 made from C strings and from Strings are one entry

---
 platform/sfw.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index ffc199e..3839a88 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3440,7 +3440,7 @@ bool String::operator==(const char *p_str) const {
 
 	// Compare char by char
 	for (int i = 0; i < l; i++) {
-		if ((CharType)p_str[i] != dst[i]) {
+		if ((CharType)(uint8_t)p_str[i] != dst[i]) {
 			return false;
 		}
 	}
@@ -6205,7 +6205,7 @@ uint32_t String::hash(const char *p_cstr) {
 	uint32_t hashv = 5381;
 	uint32_t c;
 
-	while ((c = *p_cstr++)) {
+	while ((c = (uint8_t)*p_cstr++)) {
 		hashv = ((hashv << 5) + hashv) + c; /* hash * 33 + c */
 	}
 
@@ -6215,7 +6215,7 @@ uint32_t String::hash(const char *p_cstr) {
 uint32_t String::hash(const char *p_cstr, int p_len) {
 	uint32_t hashv = 5381;
 	for (int i = 0; i < p_len; i++) {
-		hashv = ((hashv << 5) + hashv) + p_cstr[i]; /* hash * 33 + c */
+		hashv = ((hashv << 5) + hashv) + (uint8_t)p_cstr[i]; /* hash * 33 + c */
 	}
 
 	return hashv;
-- 
2.43.0


From 19435ec9c8769f6c445671500fbb40e9808637fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 08/82] fix: a destroyed object leaves the object registry and
 invalidates the values that hold it

---
 platform/sfw.cpp | 19 ++++++++++++++-----
 platform/sfw.h   |  2 +-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3839a88..a4a0f73 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18431,13 +18431,24 @@ void Object::cancel_free() {
 }
 
 Object::Object() {
+	_class_ptr = nullptr;
 	_is_queued_for_deletion = false;
 	_predelete_ok = 0;
+	_rc.store(nullptr, std::memory_order_relaxed);
 	_instance_id = 0;
 	_instance_id = ObjectDB::add_instance(this);
 }
 
 Object::~Object() {
+	ObjectRC *rc = _rc.load(std::memory_order_acquire);
+	if (rc) {
+		if (rc->invalidate()) {
+			memdelete(rc);
+		}
+	}
+
+	ObjectDB::remove_instance(this);
+	_instance_id = 0;
 }
 
 ObjectRC *Object::_use_rc() {
@@ -18502,13 +18513,11 @@ void ObjectDB::remove_instance(Object *p_object) {
 }
 Object *ObjectDB::get_instance(ObjectID p_instance_id) {
 	rw_lock.read_lock();
-	Object **obj = instances.getptr(p_instance_id);
+	Object **ptr = instances.getptr(p_instance_id);
+	Object *obj = ptr ? *ptr : nullptr;
 	rw_lock.read_unlock();
 
-	if (!obj) {
-		return nullptr;
-	}
-	return *obj;
+	return obj;
 }
 
 void ObjectDB::debug_objects(DebugFunc p_func) {
diff --git a/platform/sfw.h b/platform/sfw.h
index 9364968..33afdd8 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -19190,7 +19190,7 @@ public:
 	}
 
 	_FORCE_INLINE_ bool decrement() {
-		return _users.fetch_sub(1, std::memory_order_relaxed) == 1;
+		return _users.fetch_sub(1, std::memory_order_acq_rel) == 1;
 	}
 
 	_FORCE_INLINE_ bool invalidate() {
-- 
2.43.0


From 0837a7646818f447a5c8c3db380c2b3d3ca4ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 09/82] fix: a handle takes its new object before it lets go of
 the old one

---
 platform/sfw.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 33afdd8..a93c001 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -19246,12 +19246,17 @@ class Ref {
 			return;
 		}
 
-		unref();
+		// Take the new object before letting go of the old one: p_from may live inside the old object.
+		T *old_reference = reference;
 
 		reference = p_from.reference;
 		if (reference) {
 			reference->reference();
 		}
+
+		if (old_reference && old_reference->unreference()) {
+			memdelete(old_reference);
+		}
 	}
 
 	void ref_pointer(T *p_ref) {
@@ -19326,12 +19331,18 @@ public:
 		if (reference == p_ptr) {
 			return;
 		}
-		unref();
+
+		T *old_reference = reference;
+		reference = nullptr;
 
 		T *r = Object::cast_to<T>(p_ptr);
 		if (r) {
 			ref_pointer(r);
 		}
+
+		if (old_reference && old_reference->unreference()) {
+			memdelete(old_reference);
+		}
 	}
 
 	Ref(const Ref &p_from) {
@@ -19368,10 +19379,12 @@ public:
 		// do a lot of referencing on references and stuff
 		// mutexes will avoid more crashes?
 
-		if (reference && reference->unreference()) {
-			memdelete(reference);
-		}
+		T *old_reference = reference;
 		reference = nullptr;
+
+		if (old_reference && old_reference->unreference()) {
+			memdelete(old_reference);
+		}
 	}
 
 	void instance() {
-- 
2.43.0


From 8165d399d5c8dcae9b56afa8be00ec65422d8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 10/82] fix: a paged allocator counts a returned cell before it
 gives up its lock

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index a93c001..9845a25 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -6132,10 +6132,10 @@ public:
 		}
 		p_mem->~T();
 		available_pool[allocs_available >> page_shift][allocs_available & page_mask] = p_mem;
+		allocs_available++;
 		if (thread_safe) {
 			spin_lock.unlock();
 		}
-		allocs_available++;
 	}
 
 	void reset(bool p_allow_unfreed = false) {
-- 
2.43.0


From 5e5ab1a04844559aa7497ec6aa5f718c206e816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 11/82] fix: the handle-based pool checks space under its lock,
 resizes its last block within bounds and keeps its books

---
 platform/sfw.cpp | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a4a0f73..89c019a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2214,7 +2214,7 @@ void PoolAllocator::compact(int p_up_to) {
 }
 
 void PoolAllocator::compact_up(int p_from) {
-	uint32_t next_entry_end_pos = pool_size; // - static_area_size;
+	uint32_t next_entry_end_pos = pool_size - (pool_size % align); // - static_area_size;
 
 	for (int i = entry_count - 1; i >= p_from; i--) {
 		Entry &entry = entry_array[entry_indices[i]];
@@ -2253,10 +2253,14 @@ bool PoolAllocator::find_entry_index(EntryIndicesPos *p_map_pos, Entry *p_entry)
 
 PoolAllocator::ID PoolAllocator::alloc(int p_size) {
 	ERR_FAIL_COND_V(p_size < 1, POOL_ALLOCATOR_INVALID_ID);
-	ERR_FAIL_COND_V(p_size > free_mem, POOL_ALLOCATOR_INVALID_ID);
 
 	mt_lock();
 
+	if (p_size > free_mem) {
+		mt_unlock();
+		ERR_FAIL_V_MSG(POOL_ALLOCATOR_INVALID_ID, "Not enough free memory in PoolAllocator.");
+	}
+
 	if (entry_count == entry_max) {
 		mt_unlock();
 		ERR_PRINT("entry_count==entry_max");
@@ -2386,6 +2390,8 @@ int PoolAllocator::get_size(ID p_mem) const {
 }
 
 Error PoolAllocator::resize(ID p_mem, int p_new_size) {
+	ERR_FAIL_COND_V(p_new_size < 1, ERR_INVALID_PARAMETER);
+
 	mt_lock();
 	Entry *e = get_entry(p_mem);
 
@@ -2442,6 +2448,9 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
 		free_mem -= alloc_size;
+		if (free_mem < free_mem_peak) {
+			free_mem_peak = free_mem;
+		}
 		mt_unlock();
 		return OK;
 	}
@@ -2454,10 +2463,10 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
 		free_mem -= alloc_size;
-		mt_unlock();
 		if (free_mem < free_mem_peak) {
 			free_mem_peak = free_mem;
 		}
+		mt_unlock();
 		return OK;
 	}
 
@@ -2465,15 +2474,19 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 
 	compact_up(entry_indices_pos + 1);
 
-	if ((entry_array[entry_indices[entry_indices_pos + 1]].pos - e->pos) > alloc_size) {
+	if (entry_indices_pos + 1 < entry_count) {
+		next_pos = entry_array[entry_indices[entry_indices_pos + 1]].pos;
+	}
+
+	if ((next_pos - e->pos) > alloc_size) {
 		//now fits! hooray!
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
 		free_mem -= alloc_size;
-		mt_unlock();
 		if (free_mem < free_mem_peak) {
 			free_mem_peak = free_mem;
 		}
+		mt_unlock();
 		return OK;
 	}
 
@@ -2597,15 +2610,27 @@ void PoolAllocator::unlock(ID p_mem) {
 }
 
 int PoolAllocator::get_used_mem() const {
-	return pool_size - free_mem;
+	mt_lock();
+	int used_mem = pool_size - free_mem;
+	mt_unlock();
+
+	return used_mem;
 }
 
 int PoolAllocator::get_free_peak() {
-	return free_mem_peak;
+	mt_lock();
+	int peak = free_mem_peak;
+	mt_unlock();
+
+	return peak;
 }
 
 int PoolAllocator::get_free_mem() {
-	return free_mem;
+	mt_lock();
+	int mem = free_mem;
+	mt_unlock();
+
+	return mem;
 }
 
 void PoolAllocator::create_pool(void *p_mem, int p_size, int p_max_entries) {
@@ -2651,7 +2676,8 @@ PoolAllocator::PoolAllocator(void *p_mem, int p_size, int p_align, bool p_needs_
 
 PoolAllocator::PoolAllocator(int p_align, int p_size, bool p_needs_locking, int p_max_entries) {
 	ERR_FAIL_COND(p_align < 1);
-	mem_ptr = Memory::alloc_static(p_size + p_align, true);
+	mem_ptr = memalloc(p_size + p_align);
+	ERR_FAIL_COND(!mem_ptr);
 	uint8_t *mem8 = (uint8_t *)mem_ptr;
 	uint64_t ofs = (uint64_t)mem8;
 	if (ofs % p_align) {
-- 
2.43.0


From a9ea1550d6cb73008f267beb468bd2fda2e1f17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:40 +0000
Subject: [PATCH 12/82] fix: a signal keeps an emission's arguments and
 subscribers through nested emissions, connects and disconnects, and releases
 its connections

---
 platform/sfw.cpp | 116 +++++++++++++++++++++++++++--------------------
 platform/sfw.h   |  17 ++++++-
 2 files changed, 82 insertions(+), 51 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 89c019a..e7d5404 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -19799,7 +19799,7 @@ void Signal::disconnect_static(void (*func)(Signal *)) {
 			StaticSignalEntry *se = static_cast<StaticSignalEntry *>(e);
 
 			if (se->func == func) {
-				entries.remove(i);
+				_remove_entry(i);
 				return;
 			}
 		}
@@ -19822,84 +19822,100 @@ bool Signal::is_connected_static(void (*func)(Signal *)) {
 }
 
 void Signal::emit(Object *p_emitter) {
-	emitter = p_emitter;
-
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+	_emit(p_emitter, nullptr, 0);
 }
 
 void Signal::emit(Object *p_emitter, const Variant &p1) {
-	emitter = p_emitter;
+	const Variant *args[1] = { &p1 };
+	_emit(p_emitter, args, 1);
+}
 
-	params.push_back(p1);
+void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2) {
+	const Variant *args[2] = { &p1, &p2 };
+	_emit(p_emitter, args, 2);
+}
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3) {
+	const Variant *args[3] = { &p1, &p2, &p3 };
+	_emit(p_emitter, args, 3);
+}
 
-	params.clear();
+void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3, const Variant &p4) {
+	const Variant *args[4] = { &p1, &p2, &p3, &p4 };
+	_emit(p_emitter, args, 4);
+}
+
+void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3, const Variant &p4, const Variant &p5) {
+	const Variant *args[5] = { &p1, &p2, &p3, &p4, &p5 };
+	_emit(p_emitter, args, 5);
 }
-void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2) {
-	emitter = p_emitter;
 
-	params.push_back(p1);
-	params.push_back(p2);
+void Signal::_emit(Object *p_emitter, const Variant **p_args, int p_argcount) {
+	// Subscribers can connect, disconnect and emit.
+	Vector<SignalEntry *> current_entries = entries;
+	Vector<Variant> previous_params = params;
+	Object *previous_emitter = emitter;
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
+	Vector<Variant> args;
+	for (int i = 0; i < p_argcount; ++i) {
+		args.push_back(*p_args[i]);
 	}
 
-	params.clear();
-}
-void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3) {
-	emitter = p_emitter;
+	++emit_depth;
 
-	params.push_back(p1);
-	params.push_back(p2);
-	params.push_back(p3);
+	for (int i = 0; i < current_entries.size(); ++i) {
+		SignalEntry *e = current_entries[i];
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+		if (removed_entries.find(e) != -1) {
+			continue;
+		}
 
-	params.clear();
-}
+		emitter = p_emitter;
+		params = args;
 
-void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3, const Variant &p4) {
-	emitter = p_emitter;
+		e->call(this);
+	}
 
-	params.push_back(p1);
-	params.push_back(p2);
-	params.push_back(p3);
-	params.push_back(p4);
+	--emit_depth;
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
+	if (emit_depth > 0) {
+		emitter = previous_emitter;
+		params = previous_params;
+		return;
 	}
 
 	params.clear();
-}
 
-void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3, const Variant &p4, const Variant &p5) {
-	emitter = p_emitter;
+	for (int i = 0; i < removed_entries.size(); ++i) {
+		memdelete(removed_entries[i]);
+	}
 
-	params.push_back(p1);
-	params.push_back(p2);
-	params.push_back(p3);
-	params.push_back(p4);
-	params.push_back(p5);
+	removed_entries.clear();
+}
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+void Signal::_remove_entry(int p_index) {
+	SignalEntry *e = entries[p_index];
+	entries.remove(p_index);
 
-	params.clear();
+	if (emit_depth > 0) {
+		removed_entries.push_back(e);
+	} else {
+		memdelete(e);
+	}
 }
 
 Signal::Signal() {
+	emitter = nullptr;
+	emit_depth = 0;
 }
 Signal::~Signal() {
+	for (int i = 0; i < entries.size(); ++i) {
+		memdelete(entries[i]);
+	}
+
+	for (int i = 0; i < removed_entries.size(); ++i) {
+		memdelete(removed_entries[i]);
+	}
 }
 #line 0
 
diff --git a/platform/sfw.h b/platform/sfw.h
index 9845a25..8382189 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -18774,6 +18774,9 @@ protected:
 		SignalEntry() {
 			type = SIGNAL_ENTRY_TYPE_NONE;
 		}
+
+		virtual ~SignalEntry() {
+		}
 	};
 
 	struct StaticSignalEntry : public SignalEntry {
@@ -18833,7 +18836,19 @@ protected:
 	};
 
 protected:
+	void _emit(Object *p_emitter, const Variant **p_args, int p_argcount);
+	void _remove_entry(int p_index);
+
 	Vector<SignalEntry *> entries;
+
+	// Entries that were disconnected while emitting, they are deleted when the outermost emission ends.
+	Vector<SignalEntry *> removed_entries;
+	int emit_depth;
+
+private:
+	// Entries have one owner.
+	Signal(const Signal &p_other);
+	void operator=(const Signal &p_other);
 };
 
 template <typename T>
@@ -18861,7 +18876,7 @@ void Signal::disconnect(T *obj, void (*func)(T *, Signal *)) {
 			ClassSignalEntry *se = static_cast<ClassSignalEntry *>(e);
 
 			if (se->get_obj_ptr() == obj_ptr && se->get_func_ptr() == func_ptr) {
-				entries.remove(i);
+				_remove_entry(i);
 				return;
 			}
 		}
-- 
2.43.0


From 3aa1d219fb46c551574bce984f6c356aad986503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 13/82] fix: failed and short file reads are reported and end
 reading loops

---
 platform/sfw.cpp | 66 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 13 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e7d5404..b8c5bc9 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14811,6 +14811,8 @@ void FileAccess::check_errors() const {
 
 	if (feof(f)) {
 		last_error = ERR_FILE_EOF;
+	} else {
+		last_error = ERR_FILE_CANT_READ;
 	}
 }
 
@@ -14940,6 +14942,7 @@ void FileAccess::seek(uint64_t p_position) {
 void FileAccess::seek_end(int64_t p_position) {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
 
+	last_error = OK;
 	if (fseeko(f, p_position, SEEK_END)) {
 		check_errors();
 	}
@@ -14960,17 +14963,27 @@ uint64_t FileAccess::get_len() const {
 	ERR_FAIL_COND_V_MSG(!f, 0, "File must be opened before use.");
 
 	int64_t pos = ftello(f);
-	ERR_FAIL_COND_V(pos < 0, 0);
-	ERR_FAIL_COND_V(fseeko(f, 0, SEEK_END), 0);
-	int64_t size = ftello(f);
-	ERR_FAIL_COND_V(size < 0, 0);
-	ERR_FAIL_COND_V(fseeko(f, pos, SEEK_SET), 0);
+	int64_t size = -1;
+
+	if (pos >= 0 && fseeko(f, 0, SEEK_END) == 0) {
+		size = ftello(f);
+
+		if (fseeko(f, pos, SEEK_SET)) {
+			size = -1;
+		}
+	}
+
+	if (size < 0) {
+		check_errors();
+		ERR_FAIL_V(0);
+	}
 
 	return size;
 }
 
 bool FileAccess::eof_reached() const {
-	return last_error == ERR_FILE_EOF;
+	// There is nothing more to read after a failed read either.
+	return last_error == ERR_FILE_EOF || last_error == ERR_FILE_CANT_READ;
 }
 
 uint8_t FileAccess::get_8() const {
@@ -14988,7 +15001,9 @@ uint64_t FileAccess::get_buffer(uint8_t *p_dst, uint64_t p_length) const {
 	ERR_FAIL_COND_V_MSG(!f, -1, "File must be opened before use.");
 
 	uint64_t read = fread(p_dst, 1, p_length, f);
-	check_errors();
+	if (read < p_length) {
+		check_errors();
+	}
 	return read;
 };
 
@@ -15495,10 +15510,18 @@ void FileAccess::store_pascal_string(const String &p_string) {
 
 String FileAccess::get_pascal_string() {
 	uint32_t sl = get_32();
+
+	if (sl > get_len() - get_position()) {
+		// The string goes on after the end of the file.
+		seek_end();
+		get_8();
+		return String();
+	}
+
 	CharString cs;
-	cs.resize(sl + 1);
-	get_buffer((uint8_t *)cs.ptr(), sl);
-	cs[sl] = 0;
+	ERR_FAIL_COND_V(cs.resize(sl + 1) != OK, String());
+	uint64_t read = get_buffer((uint8_t *)cs.ptrw(), sl);
+	cs[read] = 0;
 
 	String ret;
 	ret.parse_utf8(cs.ptr());
@@ -15554,9 +15577,21 @@ Vector<uint8_t> FileAccess::get_file_as_array(const String &p_path, Error *r_err
 		ERR_FAIL_V_MSG(Vector<uint8_t>(), "Can't open file from path '" + String(p_path) + "'.");
 	}
 	Vector<uint8_t> data;
-	data.resize(f->get_len());
-	f->get_buffer(data.ptrw(), data.size());
+	Error err = data.resize(f->get_len());
+	if (err == OK && f->get_error() == OK) {
+		f->get_buffer(data.ptrw(), data.size());
+	}
+	if (err == OK) {
+		err = f->get_error();
+	}
 	memdelete(f);
+	if (err != OK) {
+		if (r_error) {
+			*r_error = err;
+			return Vector<uint8_t>();
+		}
+		ERR_FAIL_V_MSG(Vector<uint8_t>(), "Can't read file from path '" + String(p_path) + "'.");
+	}
 	return data;
 }
 
@@ -15574,7 +15609,12 @@ String FileAccess::get_file_as_string(const String &p_path, Error *r_error) {
 	}
 
 	String ret;
-	ret.parse_utf8((const char *)array.ptr(), array.size());
+	if (array.size() > 0) {
+		err = ret.parse_utf8((const char *)array.ptr(), array.size());
+		if (r_error) {
+			*r_error = err;
+		}
+	}
 	return ret;
 }
 
-- 
2.43.0


From 2b3c24ff414b42bc0bacbf822bddade4145b51f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 14/82] fix: failed file writes are reported and a failed safe
 save keeps the previous file

---
 platform/sfw.cpp | 86 +++++++++++++++++++++++++++++++++++++++++-------
 platform/sfw.h   |  2 ++
 2 files changed, 76 insertions(+), 12 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index b8c5bc9..6b410d2 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14816,11 +14816,25 @@ void FileAccess::check_errors() const {
 	}
 }
 
+void FileAccess::check_write_errors() const {
+	// Buffered data that could not be written is lost, so this stays until the next open.
+	if (f && (flags & WRITE) && ferror(f)) {
+		write_error = ERR_FILE_CANT_WRITE;
+	}
+}
+
 Error FileAccess::_open(const String &p_path, int p_mode_flags) {
 	if (f) {
-		fclose(f);
+		close();
+
+		if (write_error != OK) {
+			// What was stored in the previous file is not complete.
+			return write_error;
+		}
 	}
-	f = nullptr;
+
+	last_error = OK;
+	write_error = OK;
 
 	path_src = p_path;
 	path = fix_path(p_path);
@@ -14873,6 +14887,7 @@ Error FileAccess::_open(const String &p_path, int p_mode_flags) {
 				last_error = ERR_FILE_CANT_OPEN;
 			} break;
 		}
+		save_path = "";
 		return last_error;
 	}
 
@@ -14899,7 +14914,11 @@ void FileAccess::close() {
 		return;
 	}
 
-	fclose(f);
+	check_write_errors();
+
+	if (fclose(f) && (flags & WRITE)) {
+		write_error = ERR_FILE_CANT_WRITE;
+	}
 	f = nullptr;
 
 	if (close_notification_func) {
@@ -14907,14 +14926,25 @@ void FileAccess::close() {
 	}
 
 	if (save_path != "") {
-		int rename_error = rename((save_path + ".tmp").utf8().get_data(), save_path.utf8().get_data());
+		String temp_path = save_path + ".tmp";
 
-		if (rename_error && close_fail_notify) {
-			close_fail_notify(save_path);
+		if (write_error == OK) {
+			if (rename(temp_path.utf8().get_data(), save_path.utf8().get_data())) {
+				write_error = ERR_FILE_CANT_WRITE;
+			}
+		}
+
+		if (write_error != OK) {
+			// The previous file stays.
+			unlink(temp_path.utf8().get_data());
+
+			if (close_fail_notify) {
+				close_fail_notify(save_path);
+			}
 		}
 
 		save_path = "";
-		ERR_FAIL_COND(rename_error != 0);
+		ERR_FAIL_COND_MSG(write_error != OK, "Safe save failed.");
 	}
 }
 
@@ -15008,23 +15038,34 @@ uint64_t FileAccess::get_buffer(uint8_t *p_dst, uint64_t p_length) const {
 };
 
 Error FileAccess::get_error() const {
-	return last_error;
+	check_write_errors();
+
+	return write_error != OK ? write_error : last_error;
 }
 
 void FileAccess::flush() {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
-	fflush(f);
+	if (fflush(f)) {
+		write_error = ERR_FILE_CANT_WRITE;
+		ERR_FAIL_MSG("Can't write file '" + path + "'.");
+	}
 }
 
 void FileAccess::store_8(uint8_t p_dest) {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
-	ERR_FAIL_COND(fwrite(&p_dest, 1, 1, f) != 1);
+	if (fwrite(&p_dest, 1, 1, f) != 1) {
+		write_error = ERR_FILE_CANT_WRITE;
+		ERR_FAIL_MSG("Can't write file '" + path + "'.");
+	}
 }
 
 void FileAccess::store_buffer(const uint8_t *p_src, uint64_t p_length) {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
 	ERR_FAIL_COND(!p_src && p_length > 0);
-	ERR_FAIL_COND(fwrite(p_src, 1, p_length, f) != p_length);
+	if (fwrite(p_src, 1, p_length, f) != p_length) {
+		write_error = ERR_FILE_CANT_WRITE;
+		ERR_FAIL_MSG("Can't write file '" + path + "'.");
+	}
 }
 
 bool FileAccess::file_exists(const String &p_path) {
@@ -15100,7 +15141,8 @@ FileCloseNotificationFunc FileAccess::close_notification_func = nullptr;
 FileAccess::FileAccess() :
 		f(nullptr),
 		flags(0),
-		last_error(OK) {
+		last_error(OK),
+		write_error(OK) {
 	endian_swap = false;
 	real_is_double = false;
 }
@@ -15630,7 +15672,17 @@ void FileAccess::write_file(const String &p_path, const String &data, Error *r_e
 
 	f->store_string(data);
 	f->close();
+	Error err = f->get_error();
 	memdelete(f);
+
+	if (err != OK) {
+		if (r_error) {
+			*r_error = err;
+			return;
+		}
+
+		ERR_FAIL_MSG("Can't write file to path '" + String(p_path) + "'.");
+	}
 }
 void FileAccess::write_file_buffer(const String &p_path, const Vector<uint8_t> &data, Error *r_error) {
 	FileAccess *f = FileAccess::create_and_open(p_path, WRITE, r_error);
@@ -15644,7 +15696,17 @@ void FileAccess::write_file_buffer(const String &p_path, const Vector<uint8_t> &
 
 	f->store_buffer_vec(data);
 	f->close();
+	Error err = f->get_error();
 	memdelete(f);
+
+	if (err != OK) {
+		if (r_error) {
+			*r_error = err;
+			return;
+		}
+
+		ERR_FAIL_MSG("Can't write file to path '" + String(p_path) + "'.");
+	}
 }
 
 /*
diff --git a/platform/sfw.h b/platform/sfw.h
index 8382189..798ca42 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17567,11 +17567,13 @@ protected:
 	String save_path;
 #else
 	void check_errors() const;
+	void check_write_errors() const;
 
 	FILE *f;
 	int flags;
 
 	mutable Error last_error;
+	mutable Error write_error;
 	String save_path;
 	String path;
 	String path_src;
-- 
2.43.0


From 7c0b1e5ad22afc2276e313f3f21b83913e5a9e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 15/82] fix: failed seeks are reported, and a read error is not
 turned into an end of file

---
 platform/sfw.cpp | 19 ++++++++++++++-----
 platform/sfw.h   |  1 +
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 6b410d2..dd93380 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14809,7 +14809,7 @@ FileAccess::~FileAccess() {
 void FileAccess::check_errors() const {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
 
-	if (feof(f)) {
+	if (feof(f) && last_error != ERR_FILE_CANT_READ) {
 		last_error = ERR_FILE_EOF;
 	} else {
 		last_error = ERR_FILE_CANT_READ;
@@ -14960,12 +14960,21 @@ String FileAccess::get_path_absolute() const {
 	return path;
 }
 
+void FileAccess::seek_failed() const {
+	last_error = ERR_FILE_CANT_READ;
+
+	if (flags & WRITE) {
+		// Later data could go to another place than it was meant for.
+		write_error = ERR_FILE_CANT_WRITE;
+	}
+}
+
 void FileAccess::seek(uint64_t p_position) {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
 
 	last_error = OK;
 	if (fseeko(f, p_position, SEEK_SET)) {
-		check_errors();
+		seek_failed();
 	}
 }
 
@@ -14974,7 +14983,7 @@ void FileAccess::seek_end(int64_t p_position) {
 
 	last_error = OK;
 	if (fseeko(f, p_position, SEEK_END)) {
-		check_errors();
+		seek_failed();
 	}
 }
 
@@ -14983,7 +14992,7 @@ uint64_t FileAccess::get_position() const {
 
 	int64_t pos = ftello(f);
 	if (pos < 0) {
-		check_errors();
+		last_error = ERR_FILE_CANT_READ;
 		ERR_FAIL_V(0);
 	}
 	return pos;
@@ -15004,7 +15013,7 @@ uint64_t FileAccess::get_len() const {
 	}
 
 	if (size < 0) {
-		check_errors();
+		seek_failed();
 		ERR_FAIL_V(0);
 	}
 
diff --git a/platform/sfw.h b/platform/sfw.h
index 798ca42..f81730f 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17568,6 +17568,7 @@ protected:
 #else
 	void check_errors() const;
 	void check_write_errors() const;
+	void seek_failed() const;
 
 	FILE *f;
 	int flags;
-- 
2.43.0


From fdb4890a08e1c369d5ead44cbfa4895f82c0ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 16/82] fix: directory operations and recursive erase say what
 happened, stay inside and leave the process's working directory alone

---
 platform/sfw.cpp | 130 ++++++++++++++++++++++++++++-------------------
 platform/sfw.h   |   5 ++
 2 files changed, 82 insertions(+), 53 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index dd93380..a71ac8f 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -15767,6 +15767,12 @@ FileAccess::FileAccess() {
 bool DirAccess::is_link(String p_file) {
 	return false;
 };
+bool DirAccess::_is_link_or_unknown(const String &p_path) const {
+	return false;
+}
+bool DirAccess::_is_same_file(const String &p_path, const String &p_other) const {
+	return p_path.to_lower() == p_other.to_lower();
+}
 String DirAccess::read_link(String p_file) {
 	return p_file;
 };
@@ -16163,6 +16169,7 @@ Error DirAccess::list_dir_begin(bool skip_specials) {
 	list_dir_end(); //close any previous dir opening!
 
 	_skip_specials = skip_specials;
+	_list_error = OK;
 
 	//char real_current_dir_name[2048]; //is this enough?!
 	//getcwd(real_current_dir_name,2048);
@@ -16170,6 +16177,7 @@ Error DirAccess::list_dir_begin(bool skip_specials) {
 	dir_stream = opendir(current_dir.utf8().get_data());
 	//chdir(real_current_dir_name);
 	if (!dir_stream) {
+		_list_error = ERR_CANT_OPEN;
 		return ERR_CANT_OPEN; //error!
 	}
 
@@ -16227,15 +16235,24 @@ String DirAccess::get_next() {
 		return "";
 	}
 
+	errno = 0;
 	dirent *entry = readdir(dir_stream);
 
 	if (entry == nullptr) {
+		if (errno != 0) {
+			_list_error = ERR_FILE_CANT_READ;
+		}
+
 		list_dir_end();
 		return "";
 	}
 
 	String fname = fix_unicode_name(entry->d_name);
 
+	if (fname.empty()) {
+		fname = entry->d_name; //no utf8, maybe latin?
+	}
+
 	// Look at d_type to determine if the entry is a directory, unless
 	// its type is unknown (the file system does not support it) or if
 	// the type is a link, in that case we want to resolve the link to
@@ -16423,14 +16440,6 @@ Error DirAccess::make_dir(String p_dir) {
 Error DirAccess::change_dir(String p_dir) {
 	GLOBAL_LOCK_FUNCTION
 
-	// prev_dir is the directory we are changing out of
-	String prev_dir;
-	char real_current_dir_name[2048];
-	ERR_FAIL_COND_V(getcwd(real_current_dir_name, 2048) == nullptr, ERR_BUG);
-	if (prev_dir.parse_utf8(real_current_dir_name)) {
-		prev_dir = real_current_dir_name; //no utf8, maybe latin?
-	}
-
 	// try_dir is the directory we are trying to change into
 	String try_dir = "";
 	if (p_dir.is_rel_path()) {
@@ -16441,25 +16450,15 @@ Error DirAccess::change_dir(String p_dir) {
 		try_dir = p_dir;
 	}
 
-	bool worked = (chdir(try_dir.utf8().get_data()) == 0); // we can only give this utf8
-	if (!worked) {
+	// Only this object moves, the working directory of the process belongs to all of its threads.
+	CharString try_path = try_dir.utf8(); // we can only give this utf8
+	struct stat flags;
+	if (stat(try_path.get_data(), &flags) != 0 || !S_ISDIR(flags.st_mode) || access(try_path.get_data(), X_OK) != 0) {
 		return ERR_INVALID_PARAMETER;
 	}
 
-	String base;
-	if (base != String() && !try_dir.begins_with(base)) {
-		ERR_FAIL_COND_V(getcwd(real_current_dir_name, 2048) == nullptr, ERR_BUG);
-		String new_dir;
-		new_dir.parse_utf8(real_current_dir_name);
-
-		if (!new_dir.begins_with(base)) {
-			try_dir = current_dir; //revert
-		}
-	}
-
 	// the directory exists, so set current_dir to try_dir
 	current_dir = try_dir;
-	ERR_FAIL_COND_V(chdir(prev_dir.utf8().get_data()) != 0, ERR_BUG);
 	return OK;
 }
 
@@ -16493,8 +16492,9 @@ Error DirAccess::remove(String p_path) {
 		p_path = get_current_dir().plus_file(p_path);
 	}
 
+	// A link is removed itself, whatever it points to.
 	struct stat flags;
-	if ((stat(p_path.utf8().get_data(), &flags) != 0)) {
+	if ((lstat(p_path.utf8().get_data(), &flags) != 0)) {
 		return FAILED;
 	}
 
@@ -16512,22 +16512,35 @@ bool DirAccess::is_link(String p_file) {
 
 	struct stat flags;
 	if ((lstat(p_file.utf8().get_data(), &flags) != 0)) {
-		return FAILED;
+		return false;
 	}
 
 	return S_ISLNK(flags.st_mode);
 }
 
+bool DirAccess::_is_same_file(const String &p_path, const String &p_other) const {
+	struct stat a, b;
+	if (stat(p_path.utf8().get_data(), &a) != 0 || stat(p_other.utf8().get_data(), &b) != 0) {
+		return false;
+	}
+
+	return a.st_dev == b.st_dev && a.st_ino == b.st_ino;
+}
+
+bool DirAccess::_is_link_or_unknown(const String &p_path) const {
+	struct stat flags;
+	return lstat(p_path.utf8().get_data(), &flags) != 0 || S_ISLNK(flags.st_mode);
+}
+
 String DirAccess::read_link(String p_file) {
 	if (p_file.is_rel_path()) {
 		p_file = get_current_dir().plus_file(p_file);
 	}
 
-	char buf[256];
-	memset(buf, 0, 256);
+	char buf[4096];
 	ssize_t len = readlink(p_file.utf8().get_data(), buf, sizeof(buf));
 	String link;
-	if (len > 0) {
+	if (len > 0 && len < (ssize_t)sizeof(buf)) {
 		link.parse_utf8(buf, len);
 	}
 	return link;
@@ -16599,49 +16612,53 @@ DirAccess::~DirAccess() {
 
 #endif
 
-static Error _erase_recursive(DirAccess *da) {
+Error DirAccess::_erase_recursive() {
 	List<String> dirs;
 	List<String> files;
 
-	da->list_dir_begin();
-	String n = da->get_next();
+	String dir = current_dir;
+
+	Error err = list_dir_begin();
+	if (err) {
+		return err;
+	}
+
+	String n = get_next();
 	while (n != String()) {
 		if (n != "." && n != "..") {
-			if (da->current_is_dir()) {
+			// Links are removed, never entered.
+			if (current_is_dir() && !_is_link_or_unknown(dir.plus_file(n))) {
 				dirs.push_back(n);
 			} else {
 				files.push_back(n);
 			}
 		}
 
-		n = da->get_next();
+		n = get_next();
 	}
 
-	da->list_dir_end();
+	list_dir_end();
+
+	if (_list_error) {
+		return _list_error;
+	}
 
 	for (List<String>::Element *E = dirs.front(); E; E = E->next()) {
-		Error err = da->change_dir(E->get());
-		if (err == OK) {
-			err = _erase_recursive(da);
-			if (err) {
-				da->change_dir("..");
-				return err;
-			}
-			err = da->change_dir("..");
-			if (err) {
-				return err;
-			}
-			err = da->remove(da->get_current_dir().plus_file(E->get()));
-			if (err) {
-				return err;
-			}
-		} else {
+		// Names are not paths, so they must not go through change_dir().
+		current_dir = dir.plus_file(E->get());
+		err = _erase_recursive();
+		current_dir = dir;
+		if (err) {
+			return err;
+		}
+		err = remove(dir.plus_file(E->get()));
+		if (err) {
 			return err;
 		}
 	}
 
 	for (List<String>::Element *E = files.front(); E; E = E->next()) {
-		Error err = da->remove(da->get_current_dir().plus_file(E->get()));
+		err = remove(dir.plus_file(E->get()));
 		if (err) {
 			return err;
 		}
@@ -16651,7 +16668,11 @@ static Error _erase_recursive(DirAccess *da) {
 }
 
 Error DirAccess::erase_contents_recursive() {
-	return _erase_recursive(this);
+	return _erase_recursive();
+}
+
+Error DirAccess::get_list_error() const {
+	return _list_error;
 }
 
 Error DirAccess::make_dir_recursive(String p_dir) {
@@ -16695,6 +16716,9 @@ Error DirAccess::make_dir_recursive(String p_dir) {
 	for (int i = 0; i < subdirs.size(); i++) {
 		curpath = curpath.plus_file(subdirs[i]);
 		Error err = make_dir(curpath);
+		if (err == ERR_ALREADY_EXISTS && !dir_exists(curpath)) {
+			err = ERR_CANT_CREATE;
+		}
 		if (err != OK && err != ERR_ALREADY_EXISTS) {
 			ERR_FAIL_V_MSG(err, "Could not create directory: " + curpath);
 		}
@@ -16885,7 +16909,7 @@ Error DirAccess::copy_dir(String p_from, String p_to, int p_chmod_flags, bool p_
 }
 
 bool DirAccess::exists(String p_dir) {
-	DirAccess *da = DirAccess::create_for_path(p_dir);
+	DirAccess *da = DirAccess::create();
 	bool valid = da->change_dir(p_dir) == OK;
 	memdelete(da);
 	return valid;
@@ -16901,7 +16925,7 @@ String DirAccess::get_filesystem_abspath_for(String p_path) {
 }
 
 bool DirAccess::is_special(const String &p_path) {
-	if (p_path.size() > 2) {
+	if (p_path.length() > 2) {
 		return false;
 	}
 
diff --git a/platform/sfw.h b/platform/sfw.h
index f81730f..1b8a4c3 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17629,6 +17629,9 @@ typedef struct __dirstream DIR;
 
 class DirAccess {
 	Error _copy_dir(DirAccess *p_target_da, String p_to, int p_chmod_flags, bool p_copy_links);
+	Error _erase_recursive();
+	bool _is_link_or_unknown(const String &p_path) const;
+	bool _is_same_file(const String &p_path, const String &p_other) const;
 
 public:
 	virtual Error list_dir_begin(bool skip_specials = false); ///< This starts dir listing
@@ -17639,6 +17642,7 @@ public:
 	virtual bool current_is_special_dir() const;
 
 	virtual void list_dir_end(); ///<
+	Error get_list_error() const; ///< whether the last listing is complete
 
 	virtual int get_drive_count();
 	virtual String get_drive(int p_drive);
@@ -17692,6 +17696,7 @@ protected:
 
 	bool next_is_dir;
 	bool _skip_specials;
+	Error _list_error = OK;
 
 #if defined(_WIN64) || defined(_WIN32)
 	enum {
-- 
2.43.0


From dab67fcb33ce83bafd64ce506a1dfb5166059f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 17/82] fix: copying files and trees reports failures and never
 copies another directory

---
 platform/sfw.cpp | 111 ++++++++++++++++++++++++-----------------------
 1 file changed, 57 insertions(+), 54 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a71ac8f..5aaabc7 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16759,6 +16759,12 @@ Error DirAccess::copy(String p_from, String p_to, int p_chmod_flags) {
 		return err;
 	}
 
+	// Opening the target would empty the source.
+	if (_is_same_file(fsrc->get_path_absolute(), p_to)) {
+		memdelete(fsrc);
+		ERR_FAIL_V_MSG(ERR_ALREADY_IN_USE, "Cannot copy " + p_from + " onto itself.");
+	}
+
 	FileAccess *fdst = FileAccess::create_and_open(p_to, FileAccess::WRITE, &err);
 	if (err) {
 		fsrc->close();
@@ -16769,14 +16775,12 @@ Error DirAccess::copy(String p_from, String p_to, int p_chmod_flags) {
 
 	const size_t copy_buffer_limit = 65536; // 64 KB
 
-	fsrc->seek_end(0);
-	uint64_t size = fsrc->get_position();
-	fsrc->seek(0);
-	err = OK;
+	uint64_t size = fsrc->get_len();
+	err = fsrc->get_error();
 	size_t buffer_size = MIN(size * sizeof(uint8_t), copy_buffer_limit);
 	LocalVector<uint8_t> buffer;
 	buffer.resize(buffer_size);
-	while (size > 0) {
+	while (err == OK && size > 0) {
 		if (fsrc->get_error() != OK) {
 			err = fsrc->get_error();
 			break;
@@ -16786,7 +16790,7 @@ Error DirAccess::copy(String p_from, String p_to, int p_chmod_flags) {
 			break;
 		}
 
-		int bytes_read = fsrc->get_buffer(buffer.ptr(), buffer_size);
+		int bytes_read = fsrc->get_buffer(buffer.ptr(), MIN(size, buffer_size));
 		if (bytes_read <= 0) {
 			err = FAILED;
 			break;
@@ -16796,8 +16800,12 @@ Error DirAccess::copy(String p_from, String p_to, int p_chmod_flags) {
 		size -= bytes_read;
 	}
 
+	fdst->close();
+	if (err == OK) {
+		err = fdst->get_error();
+	}
+
 	if (err == OK && p_chmod_flags != -1) {
-		fdst->close();
 		err = FileAccess::set_unix_permissions(p_to, p_chmod_flags);
 		// If running on a platform with no chmod support (i.e., Windows), don't fail
 		if (err == ERR_UNAVAILABLE) {
@@ -16811,47 +16819,36 @@ Error DirAccess::copy(String p_from, String p_to, int p_chmod_flags) {
 	return err;
 }
 
-// Changes dir for the current scope, returning back to the original dir
-// when scope exits
-class DirChanger {
-	DirAccess *da;
-	String original_dir;
+Error DirAccess::_copy_dir(DirAccess *p_target_da, String p_to, int p_chmod_flags, bool p_copy_links) {
+	List<String> dirs;
 
-public:
-	DirChanger(DirAccess *p_da, String p_dir) :
-			da(p_da),
-			original_dir(p_da->get_current_dir()) {
-		p_da->change_dir(p_dir);
-	}
+	String dir = current_dir;
 
-	~DirChanger() {
-		da->change_dir(original_dir);
+	Error err = list_dir_begin();
+	if (err) {
+		return err;
 	}
-};
-
-Error DirAccess::_copy_dir(DirAccess *p_target_da, String p_to, int p_chmod_flags, bool p_copy_links) {
-	List<String> dirs;
 
-	String curdir = get_current_dir();
-	list_dir_begin();
 	String n = get_next();
 	while (n != String()) {
 		if (n != "." && n != "..") {
-			if (p_copy_links && is_link(get_current_dir().plus_file(n))) {
-				create_link(read_link(get_current_dir().plus_file(n)), p_to + n);
+			String from = dir.plus_file(n);
+
+			if (n.find("\\") != -1) {
+				// The file layer would take this name for a path.
+				err = ERR_FILE_BAD_PATH;
+			} else if (p_copy_links && _is_link_or_unknown(from)) {
+				String link = read_link(from);
+				err = link.empty() ? FAILED : create_link(link, p_to + n);
 			} else if (current_is_dir()) {
 				dirs.push_back(n);
 			} else {
-				const String &rel_path = n;
-				if (!n.is_rel_path()) {
-					list_dir_end();
-					return ERR_BUG;
-				}
-				Error err = copy(get_current_dir().plus_file(n), p_to + rel_path, p_chmod_flags);
-				if (err) {
-					list_dir_end();
-					return err;
-				}
+				err = copy(from, p_to + n, p_chmod_flags);
+			}
+
+			if (err) {
+				list_dir_end();
+				return err;
 			}
 		}
 
@@ -16860,24 +16857,22 @@ Error DirAccess::_copy_dir(DirAccess *p_target_da, String p_to, int p_chmod_flag
 
 	list_dir_end();
 
+	if (_list_error) {
+		return _list_error;
+	}
+
 	for (List<String>::Element *E = dirs.front(); E; E = E->next()) {
-		String rel_path = E->get();
-		String target_dir = p_to + rel_path;
+		String target_dir = p_to + E->get();
 		if (!p_target_da->dir_exists(target_dir)) {
-			Error err = p_target_da->make_dir(target_dir);
+			err = p_target_da->make_dir(target_dir);
 			ERR_FAIL_COND_V_MSG(err != OK, err, "Cannot create directory '" + target_dir + "'.");
 		}
 
-		Error err = change_dir(E->get());
-		ERR_FAIL_COND_V_MSG(err != OK, err, "Cannot change current directory to '" + E->get() + "'.");
-
-		err = _copy_dir(p_target_da, p_to + rel_path + "/", p_chmod_flags, p_copy_links);
-		if (err) {
-			change_dir("..");
-			ERR_FAIL_V_MSG(err, "Failed to copy recursively.");
-		}
-		err = change_dir("..");
-		ERR_FAIL_COND_V_MSG(err != OK, err, "Failed to go back.");
+		// Names are not paths, so they must not go through change_dir().
+		current_dir = dir.plus_file(E->get());
+		err = _copy_dir(p_target_da, target_dir + "/", p_chmod_flags, p_copy_links);
+		current_dir = dir;
+		ERR_FAIL_COND_V_MSG(err != OK, err, "Failed to copy recursively.");
 	}
 
 	return OK;
@@ -16886,7 +16881,11 @@ Error DirAccess::_copy_dir(DirAccess *p_target_da, String p_to, int p_chmod_flag
 Error DirAccess::copy_dir(String p_from, String p_to, int p_chmod_flags, bool p_copy_links) {
 	ERR_FAIL_COND_V_MSG(!dir_exists(p_from), ERR_FILE_NOT_FOUND, "Source directory doesn't exist.");
 
-	DirAccess *target_da = DirAccess::create_for_path(p_to);
+	if (p_to.is_rel_path()) {
+		p_to = get_current_dir().plus_file(p_to);
+	}
+
+	DirAccess *target_da = DirAccess::create();
 	ERR_FAIL_COND_V_MSG(!target_da, ERR_CANT_CREATE, "Cannot create DirAccess for path '" + p_to + "'.");
 
 	if (!target_da->dir_exists(p_to)) {
@@ -16901,8 +16900,12 @@ Error DirAccess::copy_dir(String p_from, String p_to, int p_chmod_flags, bool p_
 		p_to = p_to + "/";
 	}
 
-	DirChanger dir_changer(this, p_from);
-	Error err = _copy_dir(target_da, p_to, p_chmod_flags, p_copy_links);
+	String original_dir = current_dir;
+	Error err = change_dir(p_from);
+	if (err == OK) {
+		err = _copy_dir(target_da, p_to, p_chmod_flags, p_copy_links);
+		current_dir = original_dir;
+	}
 	memdelete(target_da);
 
 	return err;
-- 
2.43.0


From c4b7e4b32589752ecf43325d9325fb8f111e26fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 18/82] fix: sleeping never ends early, signal or not

---
 platform/sfw.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 5aaabc7..4d4f37c 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -1725,6 +1725,7 @@ Thread::ID Thread::get_caller_id() {
 #include <windows.h>
 #include <winnt.h>
 #else
+#include <errno.h>
 #include <sys/time.h>
 #include <unistd.h>
 #endif
@@ -1877,9 +1878,12 @@ void SFWTime::sleep_ns(double ns) {
 #else
 	if (ns > 0) {
 		struct timespec wait = { 0 };
+		ns = ceil(ns); // never shorter than asked for
 		wait.tv_sec = ns / 1e9;
 		wait.tv_nsec = ns - wait.tv_sec * 1e9;
-		nanosleep(&wait, NULL);
+		while (nanosleep(&wait, &wait) != 0 && errno == EINTR) {
+			// A signal interrupted it, sleep for what remains.
+		}
 #endif
 	} else {
 #if defined(_WIN64) || defined(_WIN32)
-- 
2.43.0


From 2b3ed38e680802cb9f1dc30b82ba250bf8dbfcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 19/82] fix: random integers stay in range for every pair of
 bounds and randomize() differs from call to call

---
 platform/sfw.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 4d4f37c..e810f47 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2710,6 +2710,8 @@ PoolAllocator::~PoolAllocator() {
 /*  From https://github.com/Relintai/pandemonium_engine (MIT)            */
 /*************************************************************************/
 
+#include <chrono>
+
 RandomPCG::RandomPCG(uint64_t p_seed, uint64_t p_inc) :
 		pcg(),
 		current_inc(p_inc) {
@@ -2717,7 +2719,9 @@ RandomPCG::RandomPCG(uint64_t p_seed, uint64_t p_inc) :
 }
 
 void RandomPCG::randomize() {
-	seed((SFWTime::date() + SFWTime::time_us()) * pcg.state + PCG_DEFAULT_INC_64);
+	// SFWTime counts from the first use on the calling thread, so it would give the same seed every time.
+	uint64_t now = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
+	seed(now * (pcg.state | 1) + PCG_DEFAULT_INC_64);
 }
 
 double RandomPCG::random(double p_from, double p_to) {
@@ -2732,7 +2736,10 @@ int RandomPCG::random(int p_from, int p_to) {
 	if (p_from == p_to) {
 		return p_from;
 	}
-	return rand(abs(p_from - p_to) + 1) + MIN(p_from, p_to);
+	uint32_t from = MIN(p_from, p_to);
+	uint32_t range = (uint32_t)MAX(p_from, p_to) - from;
+	// The whole range of an int has no count in 32 bits.
+	return (int)(from + (range == UINT32_MAX ? rand() : rand(range + 1)));
 }
 #line 0
 
-- 
2.43.0


From 18aea7303c7d8926731843f87f4efc767f8a5482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 20/82] fix: sub processes deliver every piece of output,
 report failures and are always reaped

---
 platform/sfw.cpp | 123 ++++++++++++++++++++++++++++++++++-------------
 platform/sfw.h   |  18 +++++--
 2 files changed, 104 insertions(+), 37 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e810f47..ad473e8 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18018,6 +18018,58 @@ SubProcess::~SubProcess() {
 #include <sys/wait.h>
 #include <unistd.h>
 
+// Reads up to the next line break. A line that does not fit is cut between two characters.
+bool SubProcess::_read_line(FILE *p_file, char *r_buf, int p_size) {
+	if (!fgets(r_buf, p_size - 3, p_file)) {
+		return false;
+	}
+
+	int len = strlen(r_buf);
+
+	int start = len - 1;
+	while (start > 0 && start > len - 4 && ((uint8_t)r_buf[start] & 0xc0) == 0x80) {
+		--start;
+	}
+
+	uint8_t c = r_buf[start];
+	int missing = start + (c >= 0xf0 ? 4 : (c >= 0xe0 ? 3 : (c >= 0xc0 ? 2 : 1))) - len;
+
+	while (missing-- > 0) {
+		int next = fgetc(p_file);
+
+		if (next == EOF) {
+			break;
+		}
+
+		r_buf[len++] = next;
+	}
+
+	r_buf[len] = '\0';
+
+	return true;
+}
+
+int SubProcess::_status_to_exitcode(int p_status) {
+	return WIFEXITED(p_status) ? WEXITSTATUS(p_status) : p_status;
+}
+
+// The shell gets every word in single quotes, so it leaves them alone.
+String SubProcess::_get_command_line() const {
+	String argss = "'" + _executable_path.replace("'", "'\\''") + "'";
+
+	for (int i = 0; i < _arguments.size(); i++) {
+		argss += " '" + _arguments[i].replace("'", "'\\''") + "'";
+	}
+
+	if (_read_std_err) {
+		argss += " 2>&1"; // Read stderr too
+	} else {
+		argss += " 2>/dev/null"; //silence stderr
+	}
+
+	return argss;
+}
+
 Error SubProcess::start() {
 #ifdef __EMSCRIPTEN__
 	// Don't compile this code at all to avoid undefined references.
@@ -18032,26 +18084,26 @@ Error SubProcess::start() {
 		return ERR_BUSY;
 	}
 
-	if (_blocking && _read_output) {
-		String argss;
-		argss = "\"" + _executable_path + "\"";
+	_setup_pipe_mutex();
 
-		for (int i = 0; i < _arguments.size(); i++) {
-			argss += String(" \"") + _arguments[i] + "\"";
-		}
+	if (_pipe_mutex) {
+		_pipe_mutex->lock();
+	}
+	_pipe.clear();
+	if (_pipe_mutex) {
+		_pipe_mutex->unlock();
+	}
+
+	if (_blocking && _read_output) {
+		String argss = _get_command_line();
 
-		if (_read_std_err) {
-			argss += " 2>&1"; // Read stderr too
-		} else {
-			argss += " 2>/dev/null"; //silence stderr
-		}
 		FILE *f = popen(argss.utf8().get_data(), "r");
 
 		ERR_FAIL_COND_V_MSG(!f, ERR_CANT_OPEN, "Cannot pipe stream from process running with following arguments '" + argss + "'.");
 
 		char buf[65535];
 
-		while (fgets(buf, 65535, f)) {
+		while (_read_line(f, buf, 65535)) {
 			if (_pipe_mutex) {
 				_pipe_mutex->lock();
 			}
@@ -18062,24 +18114,13 @@ Error SubProcess::start() {
 		}
 		int rv = pclose(f);
 
-		_exitcode = WEXITSTATUS(rv);
+		_exitcode = _status_to_exitcode(rv);
 
 		return OK;
 	}
 
 	if (!_blocking && _read_output) {
-		String argss;
-		argss = "\"" + _executable_path + "\"";
-
-		for (int i = 0; i < _arguments.size(); i++) {
-			argss += String(" \"") + _arguments[i] + "\"";
-		}
-
-		if (_read_std_err) {
-			argss += " 2>&1"; // Read stderr too
-		} else {
-			argss += " 2>/dev/null"; //silence stderr
-		}
+		String argss = _get_command_line();
 
 		_process_fp = popen(argss.utf8().get_data(), "r");
 
@@ -18121,10 +18162,11 @@ Error SubProcess::start() {
 	}
 
 	if (_blocking) {
-		int status;
-		waitpid(pid, &status, 0);
+		int status = -1;
+		while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
+		}
 
-		_exitcode = WIFEXITED(status) ? WEXITSTATUS(status) : status;
+		_exitcode = _status_to_exitcode(status);
 	} else {
 		_process_id = pid;
 	}
@@ -18142,7 +18184,7 @@ Error SubProcess::stop() {
 	if (_process_fp) {
 		int rv = pclose(_process_fp);
 		_process_fp = NULL;
-		_exitcode = WEXITSTATUS(rv);
+		_exitcode = _status_to_exitcode(rv);
 		_process_id = 0;
 		return OK;
 	}
@@ -18152,8 +18194,11 @@ Error SubProcess::stop() {
 
 		if (!ret) {
 			//avoid zombie process
-			int st;
-			::waitpid(_process_id, &st, 0);
+			int st = -1;
+			while (::waitpid(_process_id, &st, 0) < 0 && errno == EINTR) {
+			}
+
+			_exitcode = _status_to_exitcode(st);
 		}
 
 		_process_id = 0;
@@ -18173,7 +18218,7 @@ Error SubProcess::poll() {
 #else
 
 	if (_process_fp) {
-		if (fgets(_process_buf, 65535, _process_fp)) {
+		if (_read_line(_process_fp, _process_buf, 65535)) {
 			if (_pipe_mutex) {
 				_pipe_mutex->lock();
 			}
@@ -18211,15 +18256,19 @@ bool SubProcess::is_process_running() const {
 #else
 
 	if (_process_fp) {
-		return !feof(_process_fp);
+		// Until poll() or stop() collects it.
+		return true;
 	}
 
 	if (_process_id == 0) {
 		return false;
 	}
 
-	int status = 0;
+	int status = -1;
 	if (waitpid(_process_id, &status, WNOHANG) != 0) {
+		// It is collected now, its id may already belong to another process.
+		_exitcode = _status_to_exitcode(status);
+		_process_id = 0;
 		return false;
 	}
 
@@ -18248,6 +18297,10 @@ SubProcess::SubProcess() {
 }
 SubProcess::~SubProcess() {
 	stop();
+
+	if (_pipe_mutex) {
+		memdelete(_pipe_mutex);
+	}
 }
 
 #endif
@@ -18317,6 +18370,8 @@ void SubProcess::set_use_pipe_mutex(const bool p_value) {
 	ERR_FAIL_COND(is_process_running());
 
 	_use_pipe_mutex = p_value;
+
+	_setup_pipe_mutex();
 }
 
 bool SubProcess::get_open_console() const {
diff --git a/platform/sfw.h b/platform/sfw.h
index 1b8a4c3..37bfeda 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17944,7 +17944,14 @@ public:
 	void set_open_console(const bool p_value);
 
 	String get_data() const {
-		return _pipe;
+		if (!_pipe_mutex) {
+			return _pipe;
+		}
+
+		_pipe_mutex->lock();
+		String data = _pipe;
+		_pipe_mutex->unlock();
+		return data;
 	}
 
 	int get_process_id() const {
@@ -17988,8 +17995,9 @@ protected:
 
 	bool _open_console;
 
-	ProcessID _process_id;
-	int _exitcode;
+	// is_process_running() collects a child that ended.
+	mutable ProcessID _process_id;
+	mutable int _exitcode;
 
 #if defined(_WIN64) || defined(_WIN32)
 
@@ -18002,6 +18010,10 @@ protected:
 	SubProcessWindowsData *_data;
 
 #else
+	static bool _read_line(FILE *p_file, char *r_buf, int p_size);
+	static int _status_to_exitcode(int p_status);
+	String _get_command_line() const;
+
 	FILE *_process_fp;
 	char _process_buf[65535];
 #endif
-- 
2.43.0


From d61169b917b168401535a5146928fbb6d3751a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 21/82] fix: sockets and network addresses report failures, and
 a closed socket never touches another descriptor

---
 platform/sfw.cpp | 100 ++++++++++++++++++++++++++++++++++++++---------
 platform/sfw.h   |   5 ++-
 2 files changed, 85 insertions(+), 20 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index ad473e8..e777520 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17022,7 +17022,7 @@ struct in6__addruint {
 
 // INADDR_ANY use (type)value casting.
 static const in_addr_t kInaddrAny = INADDR_ANY;
-static const in_addr_t kInaddrLoopback = INADDR_ANY;
+static const in_addr_t kInaddrLoopback = INADDR_LOOPBACK;
 
 //     /* Structure describing an Internet socket address.  */
 //     struct sock_addrin {
@@ -17146,7 +17146,7 @@ sa_family_t InetAddress::family() const {
 }
 
 String InetAddress::to_ip() const {
-	char buf[64];
+	char buf[64] = "";
 	if (_data->_addr.sin_family == AF_INET) {
 #if defined GCCWIN || (_MSC_VER && _MSC_VER >= 1900)
 		::inet_ntop(AF_INET, (PVOID)&_data->_addr.sin_addr, buf, sizeof(buf));
@@ -17191,7 +17191,7 @@ void InetAddress::set_port_net_endian(uint16_t port) {
 	_data->_addr.sin_port = port;
 }
 
-inline bool InetAddress::is_unspecified() const {
+bool InetAddress::is_unspecified() const {
 	return _is_unspecified;
 }
 
@@ -17205,11 +17205,11 @@ bool InetAddress::is_ip_v6() const {
 
 InetAddress::InetAddress(uint16_t port, bool loopbackOnly, bool ipv6) {
 	_data = memnew(InetAddressData);
+	memset(_data, 0, sizeof(*_data));
 
 	_is_ip_v6 = ipv6;
 
 	if (ipv6) {
-		memset(&_data->_addr6, 0, sizeof(_data->_addr6));
 		_data->_addr6.sin6_family = AF_INET6;
 
 		in6_addr ip = loopbackOnly ? in6addr_loopback : in6addr_any;
@@ -17217,7 +17217,6 @@ InetAddress::InetAddress(uint16_t port, bool loopbackOnly, bool ipv6) {
 		_data->_addr6.sin6_addr = ip;
 		_data->_addr6.sin6_port = htons(port);
 	} else {
-		memset(&_data->_addr, 0, sizeof(_data->_addr));
 		_data->_addr.sin_family = AF_INET;
 
 		in_addr_t ip = loopbackOnly ? kInaddrLoopback : kInaddrAny;
@@ -17231,11 +17230,12 @@ InetAddress::InetAddress(uint16_t port, bool loopbackOnly, bool ipv6) {
 
 InetAddress::InetAddress(const String &ip, uint16_t port, bool ipv6) {
 	_data = memnew(InetAddressData);
+	memset(_data, 0, sizeof(*_data));
 
 	_is_ip_v6 = ipv6;
+	_is_unspecified = true;
 
 	if (ipv6) {
-		memset(&_data->_addr6, 0, sizeof(_data->_addr6));
 		_data->_addr6.sin6_family = AF_INET6;
 		_data->_addr6.sin6_port = htons(port);
 
@@ -17243,7 +17243,6 @@ InetAddress::InetAddress(const String &ip, uint16_t port, bool ipv6) {
 			return;
 		}
 	} else {
-		memset(&_data->_addr, 0, sizeof(_data->_addr));
 		_data->_addr.sin_family = AF_INET;
 		_data->_addr.sin_port = htons(port);
 
@@ -17257,19 +17256,38 @@ InetAddress::InetAddress(const String &ip, uint16_t port, bool ipv6) {
 
 InetAddress::InetAddress(const struct sockaddr_in &addr) {
 	_data = memnew(InetAddressData);
+	memset(_data, 0, sizeof(*_data));
 
 	_data->_addr = addr;
+	_is_ip_v6 = false;
 	_is_unspecified = false;
 }
 
 InetAddress::InetAddress(const struct sockaddr_in6 &addr) {
 	_data = memnew(InetAddressData);
 
+	// Can hold an address of either family.
 	_data->_addr6 = addr;
-	_is_ip_v6 = true;
+	_is_ip_v6 = (_data->_addr6.sin6_family == AF_INET6);
 	_is_unspecified = false;
 }
 
+InetAddress::InetAddress(const InetAddress &p_other) {
+	_data = memnew(InetAddressData);
+
+	*_data = *p_other._data;
+	_is_ip_v6 = p_other._is_ip_v6;
+	_is_unspecified = p_other._is_unspecified;
+}
+
+InetAddress &InetAddress::operator=(const InetAddress &p_other) {
+	*_data = *p_other._data;
+	_is_ip_v6 = p_other._is_ip_v6;
+	_is_unspecified = p_other._is_unspecified;
+
+	return *this;
+}
+
 InetAddress::~InetAddress() {
 	memdelete(_data);
 }
@@ -17313,9 +17331,24 @@ void Socket::create_net_socket() {
 	create(AF_INET);
 }
 
+#if !defined(_WIN64) && !defined(_WIN32)
+// 0 marks a closed Socket, so descriptor 0 (free in a process without a standard input) has to be moved.
+static int _nonzero_descriptor(int p_fd) {
+	if (p_fd != 0) {
+		return p_fd;
+	}
+
+	int fd = ::fcntl(p_fd, F_DUPFD_CLOEXEC, 1);
+	close(p_fd);
+	return fd;
+}
+#endif
+
 void Socket::create(int family) {
+	close_socket();
+
 #ifdef __linux__
-	_socket = ::socket(family, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, IPPROTO_TCP);
+	_socket = _nonzero_descriptor(::socket(family, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, IPPROTO_TCP));
 #else
 	_socket = static_cast<int>(::socket(family, SOCK_STREAM, IPPROTO_TCP));
 #endif
@@ -17327,7 +17360,9 @@ void Socket::close_socket() {
 	}
 
 #if !defined(_WIN64) && !defined(_WIN32)
-	close(_socket);
+	if (_socket > 0) {
+		close(_socket);
+	}
 #else
 	closesocket(_socket);
 #endif
@@ -17353,11 +17388,14 @@ int Socket::set_non_block() {
 #else
 	// non-block
 	int flags = ::fcntl(_socket, F_GETFL, 0);
+
+	if (flags < 0) {
+		return -1;
+	}
+
 	flags |= O_NONBLOCK;
-	int ret = ::fcntl(_socket, F_SETFL, flags);
-	// TODO check
 
-	return ret;
+	return ::fcntl(_socket, F_SETFL, flags);
 #endif
 }
 
@@ -17371,11 +17409,14 @@ int Socket::set_close_on_exit() {
 #else
 	// close-on-exec
 	int flags = ::fcntl(_socket, F_GETFD, 0);
+
+	if (flags < 0) {
+		return -1;
+	}
+
 	flags |= FD_CLOEXEC;
-	int ret = ::fcntl(_socket, F_SETFD, flags);
-	// TODO check
 
-	return ret;
+	return ::fcntl(_socket, F_SETFD, flags);
 #endif
 }
 
@@ -17454,18 +17495,20 @@ int Socket::listen() {
 
 int Socket::accept(Socket *sock) {
 	ERR_FAIL_COND_V(!sock, -1);
+	ERR_FAIL_COND_V(_socket == 0, -1);
 
 	struct sockaddr_in6 addr6;
 	memset(&addr6, 0, sizeof(addr6));
 	socklen_t size = sizeof(addr6);
 
 #ifdef __linux__
-	int connfd = ::accept4(_socket, (struct sockaddr *)&addr6, &size, SOCK_NONBLOCK | SOCK_CLOEXEC);
+	int connfd = _nonzero_descriptor(::accept4(_socket, (struct sockaddr *)&addr6, &size, SOCK_NONBLOCK | SOCK_CLOEXEC));
 #else
 	int connfd = static_cast<int>(::accept(_socket, (struct sockaddr *)&addr6, &size));
 #endif
 
 	if (connfd >= 0) {
+		sock->close_socket();
 		sock->_socket = connfd;
 		sock->_address.set_sock_addr_inet6(addr6);
 #ifndef __linux__
@@ -17488,7 +17531,10 @@ int Socket::close_write() {
 }
 
 int Socket::read(char *buffer, uint64_t len) {
-	//ERR_FAIL_COND_V(_socket == 0, -1);
+	if (_socket == 0) {
+		errno = EBADF;
+		return -1;
+	}
 
 #if !defined(_WIN64) && !defined(_WIN32)
 	return ::read(_socket, buffer, len);
@@ -17498,10 +17544,18 @@ int Socket::read(char *buffer, uint64_t len) {
 }
 
 int Socket::send(const char *buffer, uint64_t len) {
-	//ERR_FAIL_COND_V(_socket == 0, -1);
+	if (_socket == 0) {
+		errno = EBADF;
+		return -1;
+	}
 
 #if !defined(_WIN64) && !defined(_WIN32)
+#ifdef MSG_NOSIGNAL
+	// A peer that is gone is an error, not a SIGPIPE.
+	return ::send(_socket, buffer, len, MSG_NOSIGNAL);
+#else
 	return write(_socket, buffer, len);
+#endif
 #else
 	errno = 0;
 	return ::send(_socket, buffer, static_cast<int>(len), 0);
@@ -17566,6 +17620,10 @@ void Socket::set_keep_alive(bool on) {
 struct sockaddr_in6 Socket::get_local_addr(int *r_err) {
 	struct sockaddr_in6 localaddr = { 0 };
 
+	if (r_err) {
+		*r_err = -1;
+	}
+
 	ERR_FAIL_COND_V(_socket == 0, localaddr);
 
 	memset(&localaddr, 0, sizeof(localaddr));
@@ -17583,6 +17641,10 @@ struct sockaddr_in6 Socket::get_local_addr(int *r_err) {
 struct sockaddr_in6 Socket::get_peer_addr(int *r_err) {
 	struct sockaddr_in6 peeraddr = { 0 };
 
+	if (r_err) {
+		*r_err = -1;
+	}
+
 	ERR_FAIL_COND_V(_socket == 0, peeraddr);
 
 	memset(&peeraddr, 0, sizeof(peeraddr));
diff --git a/platform/sfw.h b/platform/sfw.h
index 37bfeda..4958624 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17814,7 +17814,7 @@ public:
 
 	void set_port_net_endian(uint16_t port);
 
-	inline bool is_unspecified() const;
+	bool is_unspecified() const;
 
 	InetAddress(uint16_t port = 0, bool loopbackOnly = false, bool ipv6 = false);
 	InetAddress(const String &ip, uint16_t port, bool ipv6 = false);
@@ -17822,6 +17822,9 @@ public:
 	explicit InetAddress(const struct sockaddr_in &addr);
 	explicit InetAddress(const struct sockaddr_in6 &addr);
 
+	InetAddress(const InetAddress &p_other);
+	InetAddress &operator=(const InetAddress &p_other);
+
 	~InetAddress();
 
 private:
-- 
2.43.0


From 8fd487c6c73ea0490d4d6686dd5a121b34ff8793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 22/82] fix: images load any channel count, free what they
 allocate and report failed saves

---
 platform/image.cpp | 102 ++++++++++++++++++++++++++++-----------------
 1 file changed, 64 insertions(+), 38 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index d14dfaa..cc17dc4 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1432,28 +1432,24 @@ void Image::load_from_file(const String &file_name, Format p_format) {
 
 	ERR_FAIL_COND_MSG(!pixels, "Couldn't load image! " + file_name);
 
-	if (n != img_n) {
-		memdelete(pixels);
-		ERR_PRINT("Couldn't load image! n != img_n");
-		return;
-	}
-
+	// Whatever the file holds, pixels has img_n channels.
 	int size = x * y * get_format_pixel_size(FORMAT_RGBA8);
 
-	data.resize(size);
-	{
-		write_lock = true;
-		memcpy(data.ptrw(), pixels, size);
-		write_lock = false;
+	Vector<uint8_t> new_data;
+	if (new_data.resize(size) != OK) {
+		stbi_image_free(pixels);
+		ERR_FAIL_MSG("Couldn't load image! " + file_name);
 	}
+	memcpy(new_data.ptrw(), pixels, size);
 
+	stbi_image_free(pixels);
+
+	data = new_data;
 	width = x;
 	height = y;
 	mipmaps = false;
 	format = FORMAT_RGBA8;
 
-	memdelete(pixels);
-
 	if (p_format != FORMAT_RGBA8) {
 		convert(p_format);
 	}
@@ -1650,6 +1646,25 @@ void Image::create(const char **p_xpm) {
 	}
 }
 
+static void _image_write_func(void *p_context, void *p_data, int p_size) {
+	FileAccess *f = (FileAccess *)p_context;
+
+	f->store_buffer((const uint8_t *)p_data, p_size);
+}
+
+// The image is saved only if everything arrived in the file.
+static Error _image_close_file(FileAccess *p_file, bool p_encoded) {
+	p_file->close();
+	Error err = p_file->get_error();
+	memdelete(p_file);
+
+	if (err == OK && !p_encoded) {
+		err = FAILED;
+	}
+
+	return err;
+}
+
 Error Image::save_png(const String &file_name) {
 	ERR_FAIL_COND_V(format >= FORMAT_RF, ERR_UNAVAILABLE);
 
@@ -1674,12 +1689,15 @@ Error Image::save_png(const String &file_name) {
 	FileAccess *f = FileAccess::create_and_open(file_name, FileAccess::WRITE);
 
 	if (!f) {
+		STBIW_FREE(ret_arr);
 		return FAILED;
 	}
 
 	f->store_buffer(ret_arr, out_length);
 
-	return OK;
+	STBIW_FREE(ret_arr);
+
+	return _image_close_file(f, true);
 }
 Error Image::save_bmp(const String &file_name) {
 	ERR_FAIL_COND_V(format >= FORMAT_RF, ERR_UNAVAILABLE);
@@ -1690,17 +1708,19 @@ Error Image::save_bmp(const String &file_name) {
 
 	int pfs = get_format_pixel_size(format);
 
+	FileAccess *f = FileAccess::create_and_open(file_name, FileAccess::WRITE);
+
+	if (!f) {
+		return FAILED;
+	}
+
 	write_lock = true;
 
-	int ret = stbi_write_bmp(file_name.utf8().get_data(), width, height, pfs, data.ptr());
+	int ret = stbi_write_bmp_to_func(_image_write_func, f, width, height, pfs, data.ptr());
 
 	write_lock = false;
 
-	if (ret == 0) {
-		return FAILED;
-	}
-
-	return OK;
+	return _image_close_file(f, ret != 0);
 }
 Error Image::save_tga(const String &file_name) {
 	ERR_FAIL_COND_V(format >= FORMAT_RF, ERR_UNAVAILABLE);
@@ -1711,17 +1731,19 @@ Error Image::save_tga(const String &file_name) {
 
 	int pfs = get_format_pixel_size(format);
 
+	FileAccess *f = FileAccess::create_and_open(file_name, FileAccess::WRITE);
+
+	if (!f) {
+		return FAILED;
+	}
+
 	write_lock = true;
 
-	int ret = stbi_write_tga(file_name.utf8().get_data(), width, height, pfs, data.ptr());
+	int ret = stbi_write_tga_to_func(_image_write_func, f, width, height, pfs, data.ptr());
 
 	write_lock = false;
 
-	if (ret == 0) {
-		return FAILED;
-	}
-
-	return OK;
+	return _image_close_file(f, ret != 0);
 }
 Error Image::save_jpg(const String &file_name, const int quality) {
 	ERR_FAIL_COND_V(format >= FORMAT_RF, ERR_UNAVAILABLE);
@@ -1732,17 +1754,19 @@ Error Image::save_jpg(const String &file_name, const int quality) {
 
 	int pfs = get_format_pixel_size(format);
 
+	FileAccess *f = FileAccess::create_and_open(file_name, FileAccess::WRITE);
+
+	if (!f) {
+		return FAILED;
+	}
+
 	write_lock = true;
 
-	int ret = stbi_write_jpg(file_name.utf8().get_data(), width, height, pfs, data.ptr(), quality);
+	int ret = stbi_write_jpg_to_func(_image_write_func, f, width, height, pfs, data.ptr(), quality);
 
 	write_lock = false;
 
-	if (ret == 0) {
-		return FAILED;
-	}
-
-	return OK;
+	return _image_close_file(f, ret != 0);
 }
 Error Image::save_hdr(const String &file_name) {
 	ERR_FAIL_COND_V(format < FORMAT_RF, ERR_UNAVAILABLE);
@@ -1753,17 +1777,19 @@ Error Image::save_hdr(const String &file_name) {
 
 	int pfs = get_format_pixel_size(format) / 4;
 
+	FileAccess *f = FileAccess::create_and_open(file_name, FileAccess::WRITE);
+
+	if (!f) {
+		return FAILED;
+	}
+
 	write_lock = true;
 
-	int ret = stbi_write_hdr(file_name.utf8().get_data(), width, height, pfs, ((float *)data.ptr()));
+	int ret = stbi_write_hdr_to_func(_image_write_func, f, width, height, pfs, ((float *)data.ptr()));
 
 	write_lock = false;
 
-	if (ret == 0) {
-		return FAILED;
-	}
-
-	return OK;
+	return _image_close_file(f, ret != 0);
 }
 
 #define DETECT_ALPHA_MAX_THRESHOLD 254
-- 
2.43.0


From eaff2a56fa39f7f6bf03d2fc2521a1909c527b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 23/82] fix: mini batches keep every example and its label

---
 core/utilities.cpp | 59 ++++++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 288ba48..b749f01 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -627,6 +627,7 @@ std::tuple<std::vector<std::vector<std::vector<real_t>>>, std::vector<std::vecto
 }
 
 Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix> &input_set, int n_mini_batch) {
+	ERR_FAIL_COND_V(n_mini_batch <= 0, Vector<Ref<MLPPMatrix>>());
 	Size2i size = input_set->size();
 
 	int n = size.y;
@@ -640,12 +641,15 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 
 	// Creating the mini-batches
 	for (int i = 0; i < n_mini_batch; i++) {
-		int mini_batch_start_offset = n_mini_batch * i;
+		int mini_batch_start_offset = mini_batch_element_count * i;
+		// The last mini-batch takes what is left over.
+		int current_element_count = (i == n_mini_batch - 1) ? n - mini_batch_start_offset : mini_batch_element_count;
+
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
-		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
+		current_input_set->resize(Size2i(size.x, current_element_count));
 
-		for (int j = 0; j < mini_batch_element_count; j++) {
+		for (int j = 0; j < current_element_count; j++) {
 			input_set->row_get_into_mlpp_vector(mini_batch_start_offset + j, row_tmp);
 			current_input_set->row_set_mlpp_vector(j, row_tmp);
 		}
@@ -653,17 +657,10 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 		input_mini_batches.push_back(current_input_set);
 	}
 
-	/* Don't think this can ever happen, todo double check
-	if (real_t(n) / real_t(n_mini_batch) - int(n / n_mini_batch) != 0) {
-		for (int i = 0; i < n - n / n_mini_batch * n_mini_batch; i++) {
-			inputMiniBatches[n_mini_batch - 1].push_back(inputSet[n_mini_batch * n_mini_batch + i]);
-		}
-	}
-	*/
-
 	return input_mini_batches;
 }
 MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const Ref<MLPPMatrix> &input_set, const Ref<MLPPVector> &output_set, int n_mini_batch) {
+	ERR_FAIL_COND_V(n_mini_batch <= 0, CreateMiniBatchMVBatch());
 	Size2i size = input_set->size();
 
 	int n = size.y;
@@ -677,39 +674,34 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 
 	for (int i = 0; i < n_mini_batch; i++) {
 		int mini_batch_start_offset = mini_batch_element_count * i;
+		// The last mini-batch takes what is left over.
+		int current_element_count = (i == n_mini_batch - 1) ? n - mini_batch_start_offset : mini_batch_element_count;
+
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
-		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
+		current_input_set->resize(Size2i(size.x, current_element_count));
 
 		Ref<MLPPVector> current_output_set;
 		current_output_set.instance();
-		current_output_set->resize(mini_batch_element_count);
+		current_output_set->resize(current_element_count);
 
-		for (int j = 0; j < mini_batch_element_count; j++) {
+		for (int j = 0; j < current_element_count; j++) {
 			int main_indx = mini_batch_start_offset + j;
 
 			input_set->row_get_into_mlpp_vector(main_indx, row_tmp);
 			current_input_set->row_set_mlpp_vector(j, row_tmp);
 
-			current_output_set->element_set(j, output_set->element_get(j));
+			current_output_set->element_set(j, output_set->element_get(main_indx));
 		}
 
 		ret.input_sets.push_back(current_input_set);
 		ret.output_sets.push_back(current_output_set);
 	}
 
-	/* Don't think this can ever happen, todo double check
-	if (real_t(n) / real_t(n_mini_batch) - int(n / n_mini_batch) != 0) {
-		for (int i = 0; i < n - n / n_mini_batch * n_mini_batch; i++) {
-			inputMiniBatches[n_mini_batch - 1].push_back(inputSet[n / n_mini_batch * n_mini_batch + i]);
-			outputMiniBatches[n_mini_batch - 1].push_back(outputSet[n / n_mini_batch * n_mini_batch + i]);
-		}
-	}
-	*/
-
 	return ret;
 }
 MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const Ref<MLPPMatrix> &input_set, const Ref<MLPPMatrix> &output_set, int n_mini_batch) {
+	ERR_FAIL_COND_V(n_mini_batch <= 0, CreateMiniBatchMMBatch());
 	Size2i input_set_size = input_set->size();
 	Size2i output_set_size = output_set->size();
 
@@ -727,16 +719,19 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 	CreateMiniBatchMMBatch ret;
 
 	for (int i = 0; i < n_mini_batch; i++) {
-		int mini_batch_start_offset = n_mini_batch * i;
+		int mini_batch_start_offset = mini_batch_element_count * i;
+		// The last mini-batch takes what is left over.
+		int current_element_count = (i == n_mini_batch - 1) ? n - mini_batch_start_offset : mini_batch_element_count;
+
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
-		current_input_set->resize(Size2i(input_set_size.x, mini_batch_element_count));
+		current_input_set->resize(Size2i(input_set_size.x, current_element_count));
 
 		Ref<MLPPMatrix> current_output_set;
 		current_output_set.instance();
-		current_output_set->resize(Size2i(output_set_size.x, mini_batch_element_count));
+		current_output_set->resize(Size2i(output_set_size.x, current_element_count));
 
-		for (int j = 0; j < mini_batch_element_count; j++) {
+		for (int j = 0; j < current_element_count; j++) {
 			int main_indx = mini_batch_start_offset + j;
 
 			input_set->row_get_into_mlpp_vector(main_indx, input_row_tmp);
@@ -750,14 +745,6 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 		ret.output_sets.push_back(current_output_set);
 	}
 
-	/* Don't think this can ever happen, todo double check
-	if (real_t(n) / real_t(n_mini_batch) - int(n / n_mini_batch) != 0) {
-		for (int i = 0; i < n - n / n_mini_batch * n_mini_batch; i++) {
-			inputMiniBatches[n_mini_batch - 1].push_back(inputSet[n / n_mini_batch * n_mini_batch + i]);
-		}
-	}
-	*/
-
 	return ret;
 }
 
-- 
2.43.0


From afe946358de456ed616fea494e176d8556774d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 24/82] fix: weight and bias initialization draw from the
 stated distributions

---
 core/utilities.cpp | 47 +++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index b749f01..8061bf4 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -50,22 +50,22 @@ std::vector<real_t> MLPPUtilities::weightInitialization(int n, std::string type)
 	std::vector<real_t> weights;
 	for (int i = 0; i < n; i++) {
 		if (type == "XavierNormal") {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + 1)));
+			std::normal_distribution<real_t> distribution(0, sqrt(2.0 / (n + 1)));
 			weights.push_back(distribution(generator));
 		} else if (type == "XavierUniform") {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + 1)), sqrt(6 / (n + 1)));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / (n + 1)), sqrt(6.0 / (n + 1)));
 			weights.push_back(distribution(generator));
 		} else if (type == "HeNormal") {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+			std::normal_distribution<real_t> distribution(0, sqrt(2.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "HeUniform") {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / n), sqrt(6.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "LeCunNormal") {
-			std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+			std::normal_distribution<real_t> distribution(0, sqrt(1.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "LeCunUniform") {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(3.0 / n), sqrt(3.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "Uniform") {
 			std::uniform_real_distribution<real_t> distribution(-1 / sqrt(n), 1 / sqrt(n));
@@ -96,22 +96,22 @@ std::vector<std::vector<real_t>> MLPPUtilities::weightInitialization(int n, int
 	for (int i = 0; i < n; i++) {
 		for (int j = 0; j < m; j++) {
 			if (type == "XavierNormal") {
-				std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + m)));
+				std::normal_distribution<real_t> distribution(0, sqrt(2.0 / (n + m)));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "XavierUniform") {
-				std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + m)), sqrt(6 / (n + m)));
+				std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / (n + m)), sqrt(6.0 / (n + m)));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "HeNormal") {
-				std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+				std::normal_distribution<real_t> distribution(0, sqrt(2.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "HeUniform") {
-				std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+				std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / n), sqrt(6.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "LeCunNormal") {
-				std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+				std::normal_distribution<real_t> distribution(0, sqrt(1.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "LeCunUniform") {
-				std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+				std::uniform_real_distribution<real_t> distribution(-sqrt(3.0 / n), sqrt(3.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "Uniform") {
 				std::uniform_real_distribution<real_t> distribution(-1 / sqrt(n), 1 / sqrt(n));
@@ -213,8 +213,9 @@ void MLPPUtilities::weight_initializationv(Ref<MLPPVector> weights, WeightDistri
 void MLPPUtilities::weight_initializationm(Ref<MLPPMatrix> weights, WeightDistributionType type) {
 	ERR_FAIL_COND(!weights.is_valid());
 
-	int n = weights->size().x;
-	int m = weights->size().y;
+	// One row per input, and one column per output.
+	int n = weights->size().y;
+	int m = weights->size().x;
 	int data_size = weights->data_size();
 	real_t *weights_ptr = weights->ptrw();
 
@@ -233,49 +234,49 @@ void MLPPUtilities::weight_initializationm(Ref<MLPPMatrix> weights, WeightDistri
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_XAVIER_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + m)));
+			std::normal_distribution<real_t> distribution(0, Math::sqrt(2.0 / (n + m)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_XAVIER_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + m)), sqrt(6 / (n + m)));
+			std::uniform_real_distribution<real_t> distribution(-Math::sqrt(6.0 / (n + m)), Math::sqrt(6.0 / (n + m)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_HE_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+			std::normal_distribution<real_t> distribution(0, Math::sqrt(2.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_HE_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+			std::uniform_real_distribution<real_t> distribution(-Math::sqrt(6.0 / n), Math::sqrt(6.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_LE_CUN_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+			std::normal_distribution<real_t> distribution(0, Math::sqrt(1.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_LE_CUN_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+			std::uniform_real_distribution<real_t> distribution(-Math::sqrt(3.0 / n), Math::sqrt(3.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-1 / sqrt(n), 1 / sqrt(n));
+			std::uniform_real_distribution<real_t> distribution(-1.0 / Math::sqrt(static_cast<real_t>(n)), 1.0 / Math::sqrt(static_cast<real_t>(n)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
@@ -295,15 +296,15 @@ real_t MLPPUtilities::bias_initializationr() {
 void MLPPUtilities::bias_initializationv(Ref<MLPPVector> z) {
 	ERR_FAIL_COND(!z.is_valid());
 
-	std::vector<real_t> bias;
 	std::random_device rd;
 	std::default_random_engine generator(rd());
 	std::uniform_real_distribution<real_t> distribution(0, 1);
 
 	int n = z->size();
+	real_t *z_ptr = z->ptrw();
 
 	for (int i = 0; i < n; i++) {
-		bias.push_back(distribution(generator));
+		z_ptr[i] = distribution(generator);
 	}
 }
 
-- 
2.43.0


From 97014b1837b1ad00aad88e6fe89b56ad0fe91bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 25/82] fix: saving parameters reports a file that cannot be
 opened or written

---
 core/utilities.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 8061bf4..4ebac0d 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -394,6 +394,7 @@ void MLPPUtilities::saveParameters(std::string fileName, std::vector<real_t> wei
 
 	if (!saveFile.is_open()) {
 		std::cout << fileName << " failed to open." << std::endl;
+		return;
 	}
 
 	saveFile << "Weight(s)" << layer_info << std::endl;
@@ -404,6 +405,10 @@ void MLPPUtilities::saveParameters(std::string fileName, std::vector<real_t> wei
 	saveFile << bias << std::endl;
 
 	saveFile.close();
+
+	if (!saveFile) {
+		std::cout << fileName << " failed to write." << std::endl;
+	}
 }
 
 void MLPPUtilities::saveParameters(std::string fileName, std::vector<real_t> weights, std::vector<real_t> initial, real_t bias, bool app, int layer) {
@@ -422,6 +427,7 @@ void MLPPUtilities::saveParameters(std::string fileName, std::vector<real_t> wei
 
 	if (!saveFile.is_open()) {
 		std::cout << fileName << " failed to open." << std::endl;
+		return;
 	}
 
 	saveFile << "Weight(s)" << layer_info << std::endl;
@@ -438,6 +444,10 @@ void MLPPUtilities::saveParameters(std::string fileName, std::vector<real_t> wei
 	saveFile << bias << std::endl;
 
 	saveFile.close();
+
+	if (!saveFile) {
+		std::cout << fileName << " failed to write." << std::endl;
+	}
 }
 
 void MLPPUtilities::saveParameters(std::string fileName, std::vector<std::vector<real_t>> weights, std::vector<real_t> bias, bool app, int layer) {
@@ -456,6 +466,7 @@ void MLPPUtilities::saveParameters(std::string fileName, std::vector<std::vector
 
 	if (!saveFile.is_open()) {
 		std::cout << fileName << " failed to open." << std::endl;
+		return;
 	}
 
 	saveFile << "Weight(s)" << layer_info << std::endl;
@@ -470,6 +481,10 @@ void MLPPUtilities::saveParameters(std::string fileName, std::vector<std::vector
 	}
 
 	saveFile.close();
+
+	if (!saveFile) {
+		std::cout << fileName << " failed to write." << std::endl;
+	}
 }
 
 void MLPPUtilities::UI(std::vector<real_t> weights, real_t bias) {
-- 
2.43.0


From 35a1607f519c392216019d713ca38668a76a67d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 26/82] fix: a vector can be resized to nothing when it is
 empty already

---
 core/mlpp_vector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 195479d..7d1a81f 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -160,8 +160,11 @@ void MLPPVector::resize(int p_size) {
 	_size = p_size;
 
 	if (_size == 0) {
-		memfree(_data);
-		_data = NULL;
+		if (_data) {
+			memfree(_data);
+			_data = NULL;
+		}
+
 		return;
 	}
 
-- 
2.43.0


From b6ddff49c07b5788cbda4b650ac1564eb70eba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 27/82] fix: loading data sets reports malformed rows and keeps
 every row

---
 core/data.cpp | 123 +++++++++++++++++++++++++++++---------------------
 1 file changed, 72 insertions(+), 51 deletions(-)

diff --git a/core/data.cpp b/core/data.cpp
index 5ad5dec..9f859a3 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -261,99 +261,120 @@ Ref<MLPPDataESimple> MLPPData::load_fires_and_crime(const String &path) {
 
 // MULTIVARIATE SUPERVISED
 
-void MLPPData::set_data_supervised(int k, const String &file_name, Ref<MLPPMatrix> input_set, Ref<MLPPVector> output_set) {
-	ERR_FAIL_COND(!input_set.is_valid() || !output_set.is_valid());
-
-	MLPPLinAlg alg;
-
-	Vector<Vector<real_t>> input_set_tmp;
-	Vector<real_t> output_set_tmp;
-
+// Reads every row of a CSV file. Rows need at least min_columns columns, only the first max_columns are used (all of them,
+// if it's negative). Fails, and gives no rows at all, if the file cannot be read, or if any of its rows is malformed.
+static bool _load_csv_rows(const String &file_name, int min_columns, int max_columns, Vector<Vector<real_t>> *r_rows) {
 #ifdef USING_SFW
 	FileAccess *file = FileAccess::create_and_open(file_name, FileAccess::READ);
 #else
 	FileAccess *file = FileAccess::open(file_name, FileAccess::READ);
 #endif
 
-	ERR_FAIL_COND(!file);
+	ERR_FAIL_COND_V(!file, false);
+
+	Vector<Vector<real_t>> rows;
+	String error;
 
-	while (!file->eof_reached()) {
+	while (error.empty() && !file->eof_reached()) {
 		Vector<String> ll = file->get_csv_line();
 
+		if (ll.size() == 0 || (ll.size() == 1 && ll[0].strip_edges().empty())) {
+			// Empty line, or the end of the file.
+			continue;
+		}
+
+		if (ll.size() < min_columns) {
+			error = "Row " + itos(rows.size()) + " has only " + itos(ll.size()) + " columns.";
+			break;
+		}
+
+		int column_count = (max_columns < 0) ? ll.size() : MIN(ll.size(), max_columns);
+
 		Vector<real_t> row;
+		row.resize(column_count);
+
+		for (int i = 0; i < column_count; ++i) {
+			String cell = ll[i].strip_edges().to_lower();
 
-		for (int i = 0; i < k; ++i) {
-			row.push_back(static_cast<real_t>(ll[i].to_double()));
+			if (!cell.is_valid_float()) {
+				error = "Row " + itos(rows.size()) + " has a cell that is not a number: \"" + ll[i] + "\".";
+				break;
+			}
+
+			row.write[i] = static_cast<real_t>(cell.to_double());
 		}
 
-		input_set_tmp.push_back(row);
-		output_set_tmp.push_back(static_cast<real_t>(ll[k].to_double()));
+		rows.push_back(row);
+	}
+
+	if (error.empty()) {
+		Error file_error = file->get_error();
+
+		if (file_error != OK && file_error != ERR_FILE_EOF) {
+			error = "Reading failed.";
+		}
 	}
 
 	file->close();
 	memdelete(file);
 
-	output_set->set_from_vector(output_set_tmp);
-	input_set->set_from_vectors(input_set_tmp);
-}
+	ERR_FAIL_COND_V_MSG(!error.empty(), false, "Can't load '" + file_name + "'. " + error);
 
-void MLPPData::set_data_unsupervised(int k, const String &file_name, Ref<MLPPMatrix> input_set) {
-	ERR_FAIL_COND(!input_set.is_valid());
+	*r_rows = rows;
 
-	MLPPLinAlg alg;
+	return true;
+}
 
-	Vector<Vector<real_t>> input_set_tmp;
-	input_set_tmp.resize(k);
+void MLPPData::set_data_supervised(int k, const String &file_name, Ref<MLPPMatrix> input_set, Ref<MLPPVector> output_set) {
+	ERR_FAIL_COND(!input_set.is_valid() || !output_set.is_valid());
 
-#ifdef USING_SFW
-	FileAccess *file = FileAccess::create_and_open(file_name, FileAccess::READ);
-#else
-	FileAccess *file = FileAccess::open(file_name, FileAccess::READ);
-#endif
+	Vector<Vector<real_t>> rows;
 
-	ERR_FAIL_COND(!file);
+	ERR_FAIL_COND(!_load_csv_rows(file_name, k + 1, k + 1, &rows));
 
-	while (!file->eof_reached()) {
-		Vector<String> ll = file->get_csv_line();
+	Vector<real_t> output_set_tmp;
+	output_set_tmp.resize(rows.size());
 
-		for (int i = 0; i < k; ++i) {
-			input_set_tmp.write[i].push_back(static_cast<real_t>(ll[i].to_double()));
-		}
+	for (int i = 0; i < rows.size(); ++i) {
+		output_set_tmp.write[i] = rows[i][k];
+		rows.write[i].resize(k);
 	}
 
-	file->close();
-	memdelete(file);
+	output_set->set_from_vector(output_set_tmp);
+	input_set->set_from_vectors(rows);
+}
+
+void MLPPData::set_data_unsupervised(int k, const String &file_name, Ref<MLPPMatrix> input_set) {
+	ERR_FAIL_COND(!input_set.is_valid());
+
+	Vector<Vector<real_t>> rows;
+
+	ERR_FAIL_COND(!_load_csv_rows(file_name, k, k, &rows));
 
-	input_set->set_from_vectors(input_set_tmp);
-	input_set = alg.transposenm(input_set);
+	input_set->set_from_vectors(rows);
 }
 
 void MLPPData::set_data_simple(const String &file_name, Ref<MLPPVector> input_set, Ref<MLPPVector> output_set) {
 	ERR_FAIL_COND(!input_set.is_valid() || !output_set.is_valid());
 
-#ifdef USING_SFW
-	FileAccess *file = FileAccess::create_and_open(file_name, FileAccess::READ);
-#else
-	FileAccess *file = FileAccess::open(file_name, FileAccess::READ);
-#endif
+	Vector<Vector<real_t>> rows;
 
-	ERR_FAIL_COND(!file);
+	ERR_FAIL_COND(!_load_csv_rows(file_name, 2, -1, &rows));
 
 	Vector<real_t> input_set_tmp;
 	Vector<real_t> output_set_tmp;
 
-	while (!file->eof_reached()) {
-		Vector<String> ll = file->get_csv_line();
+	for (int i = 0; i < rows.size(); ++i) {
+		const Vector<real_t> &row = rows[i];
+
+		ERR_FAIL_COND_MSG(row.size() % 2 != 0, "Can't load '" + file_name + "'. Row " + itos(i) + " has an odd number of columns.");
 
-		for (int i = 0; i < ll.size(); i += 2) {
-			input_set_tmp.push_back(static_cast<real_t>(ll[i].to_double()));
-			output_set_tmp.push_back(static_cast<real_t>(ll[i + 1].to_double()));
+		for (int j = 0; j < row.size(); j += 2) {
+			input_set_tmp.push_back(row[j]);
+			output_set_tmp.push_back(row[j + 1]);
 		}
 	}
 
-	file->close();
-	memdelete(file);
-
 	input_set->set_from_vector(input_set_tmp);
 	output_set->set_from_vector(output_set_tmp);
 }
-- 
2.43.0


From 99aa32b860eb52b177b11816b2557e9854205cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 28/82] fix: kmeans assigns every row to its closest centroid

---
 modules/kmeans/kmeans.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index f658e1b..1d4781f 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -81,11 +81,11 @@ Ref<MLPPMatrix> MLPPKMeans::model_set_test(const Ref<MLPPMatrix> &X) {
 	ERR_FAIL_COND_V(!X.is_valid(), Ref<MLPPMatrix>());
 	ERR_FAIL_COND_V(!_initialized, Ref<MLPPMatrix>());
 
-	int input_set_size_y = _input_set->size().y;
+	int x_size_y = X->size().y;
 
 	Ref<MLPPMatrix> closest_centroids;
 	closest_centroids.instance();
-	closest_centroids->resize(Size2i(_mu->size().x, input_set_size_y));
+	closest_centroids->resize(Size2i(_mu->size().x, x_size_y));
 
 	Ref<MLPPVector> closest_centroid;
 	closest_centroid.instance();
@@ -99,13 +99,13 @@ Ref<MLPPMatrix> MLPPKMeans::model_set_test(const Ref<MLPPMatrix> &X) {
 	tmp_mujv.instance();
 	tmp_mujv->resize(_mu->size().x);
 
-	int r0_size = _r->size().x;
+	int mu_size_y = _mu->size().y;
 
-	for (int i = 0; i < input_set_size_y; ++i) {
+	for (int i = 0; i < x_size_y; ++i) {
 		_mu->row_get_into_mlpp_vector(0, closest_centroid);
 		X->row_get_into_mlpp_vector(i, tmp_xiv);
 
-		for (int j = 0; j < r0_size; ++j) {
+		for (int j = 0; j < mu_size_y; ++j) {
 			_mu->row_get_into_mlpp_vector(j, tmp_mujv);
 
 			bool is_centroid_closer = tmp_xiv->euclidean_distance(tmp_mujv) < tmp_xiv->euclidean_distance(closest_centroid);
@@ -355,6 +355,7 @@ void MLPPKMeans::_evaluate() {
 		_input_set->row_get_into_mlpp_vector(i, input_set_i_tempv);
 
 		closest_centroid_current_dist = input_set_i_tempv->euclidean_distance(closest_centroid);
+		closest_centroid_index = 0;
 
 		for (int j = 0; j < r_size_x; ++j) {
 			_mu->row_get_into_mlpp_vector(j, mu_j_tempv);
@@ -379,7 +380,7 @@ void MLPPKMeans::_compute_mu() {
 
 	Ref<MLPPVector> num;
 	num.instance();
-	num->resize(_r->size().x);
+	num->resize(_mu->size().x);
 
 	Ref<MLPPVector> input_set_j_tempv;
 	input_set_j_tempv.instance();
@@ -408,6 +409,11 @@ void MLPPKMeans::_compute_mu() {
 			den += r_j_i;
 		}
 
+		if (den == 0) {
+			// Nothing belongs to this centroid, it has to stay where it is.
+			continue;
+		}
+
 		mu_tempv->scalar_multiplyb(real_t(1) / real_t(den), num);
 
 		_mu->row_set_mlpp_vector(i, mu_tempv);
@@ -465,11 +471,14 @@ void MLPPKMeans::_kmeanspp_initialization() {
 	farthest_centroid.instance();
 	farthest_centroid->resize(_input_set->size().x);
 
-	for (int i = 1; i < _k - 1; ++i) {
+	for (int i = 1; i < _k; ++i) {
+		// If every example is at one of the centroids already, then any of them will do.
+		_input_set->row_get_into_mlpp_vector(0, farthest_centroid);
+		real_t max_dist = 0;
+
 		for (int j = 0; j < input_set_size_y; ++j) {
 			_input_set->row_get_into_mlpp_vector(j, input_set_j_tempv);
 
-			real_t max_dist = 0;
 			// SUM ALL THE SQUARED DISTANCES, CHOOSE THE ONE THAT'S FARTHEST
 			// AS TO SPREAD OUT THE CLUSTER CENTROIDS.
 			real_t sum = 0;
-- 
2.43.0


From 994784dcd9a39fd29878e94ac6837ed3064e8cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 29/82] fix: opening a file fails when its kind cannot be told

---
 platform/sfw.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e777520..5e58fd4 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14880,6 +14880,10 @@ Error FileAccess::_open(const String &p_path, int p_mode_flags) {
 			default:
 				return ERR_FILE_CANT_OPEN;
 		}
+	} else if (errno != ENOENT) {
+		// It may be a directory, which opens and reads as an empty file.
+		last_error = ERR_FILE_CANT_OPEN;
+		return last_error;
 	}
 
 	if (is_backup_save_enabled() && (p_mode_flags & WRITE) && !(p_mode_flags & READ)) {
-- 
2.43.0


From 29cf57e57845fc96dd8b859c4e524fd4fcf601ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 30/82] fix: the matrix and vector versions of activations and
 costs work on their own kind of data

---
 core/activation.cpp | 18 +++++++++---------
 core/cost.cpp       |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 4b6efab..f2a48e6 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -998,7 +998,7 @@ Ref<MLPPMatrix> MLPPActivation::softmax_derivm(const Ref<MLPPMatrix> &z) {
 	for (int i = 0; i < z_size.y; ++i) {
 		z->row_get_into_mlpp_vector(i, row_tmp);
 
-		Ref<MLPPVector> sfn = softmax_derivm(z);
+		Ref<MLPPVector> sfn = softmax_derivv(row_tmp);
 
 		a->row_set_mlpp_vector(i, sfn);
 	}
@@ -1249,7 +1249,7 @@ Ref<MLPPVector> MLPPActivation::softplus_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softplus_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.lognv(alg.additionnv(alg.onematnm(z->size().y, z->size().x), alg.expnv(z)));
+	return alg.lognm(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.expnm(z)));
 }
 
 real_t MLPPActivation::softplus_derivr(real_t z) {
@@ -1275,7 +1275,7 @@ Ref<MLPPVector> MLPPActivation::softsign_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softsign_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(z, alg.additionnv(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)));
+	return alg.division_element_wisenvnm(z, alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)));
 }
 
 real_t MLPPActivation::softsign_derivr(real_t z) {
@@ -1289,7 +1289,7 @@ Ref<MLPPVector> MLPPActivation::softsign_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softsign_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.exponentiatenv(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)), 2));
+	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.exponentiatenm(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)), 2));
 }
 
 //GAUSSIANCDF
@@ -1463,7 +1463,7 @@ Ref<MLPPVector> MLPPActivation::swish_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::swish_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.hadamard_productnv(z, sigmoid_normm(z));
+	return alg.hadamard_productnm(z, sigmoid_normm(z));
 }
 
 real_t MLPPActivation::swish_derivr(real_t z) {
@@ -1477,7 +1477,7 @@ Ref<MLPPVector> MLPPActivation::swish_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::swish_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.additionnv(swish_normm(z), alg.subtractionnv(sigmoid_normm(z), alg.hadamard_productnm(sigmoid_normm(z), swish_normm(z))));
+	return alg.additionnm(swish_normm(z), alg.subtractionnm(sigmoid_normm(z), alg.hadamard_productnm(sigmoid_normm(z), swish_normm(z))));
 }
 
 //MISH
@@ -1514,7 +1514,7 @@ Ref<MLPPVector> MLPPActivation::mish_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::mish_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.additionnv(
+	return alg.additionnm(
 			alg.hadamard_productnm(
 					alg.hadamard_productnm(
 							alg.hadamard_productnm(
@@ -2291,7 +2291,7 @@ Ref<MLPPVector> MLPPActivation::artanh_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::artanh_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.subtractionnv(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)));
+	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.subtractionnm(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)));
 }
 
 //ARCSCH
@@ -2329,7 +2329,7 @@ Ref<MLPPVector> MLPPActivation::arcsch_derivv(const Ref<MLPPVector> &z) {
 
 	return alg.division_element_wisenv(
 			alg.fullnv(z->size(), -1),
-			alg.hadamard_productnm(
+			alg.hadamard_productnv(
 					alg.hadamard_productnv(z, z),
 					alg.sqrtnv(alg.additionnv(alg.onevecnv(z->size()), alg.division_element_wisenv(alg.onevecnv(z->size()), alg.hadamard_productnv(z, z))))));
 }
diff --git a/core/cost.cpp b/core/cost.cpp
index 2d6ce84..4b0874e 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -233,7 +233,7 @@ Ref<MLPPVector> MLPPCost::mbe_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 }
 Ref<MLPPMatrix> MLPPCost::mbe_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	MLPPLinAlg alg;
-	return alg.onematnm(y_hat->size().x, y_hat->size().y);
+	return alg.onematnm(y_hat->size().y, y_hat->size().x);
 }
 
 // Classification Costs
-- 
2.43.0


From 91dbccac21179ef41aa81e1ab414068062382ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 31/82] fix: resizevt clears, absnvt returns the absolute
 values, detm knows 1x1 matrices

---
 core/lin_alg.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index e72ea1b..2dee7f2 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -445,7 +445,9 @@ real_t MLPPLinAlg::detm(const Ref<MLPPMatrix> &A, int d) {
 	/* This is the base case in which the input is a 2x2 square matrix.
 	Recursion is performed unless and until we reach this base case,
 	such that we recieve a scalar as the result. */
-	if (d == 2) {
+	if (d == 1) {
+		return A->element_get(0, 0);
+	} else if (d == 2) {
 		return A->element_get(0, 0) * A->element_get(1, 1) - A->element_get(0, 1) * A->element_get(1, 0);
 	} else {
 		for (int i = 0; i < d; i++) {
@@ -1906,6 +1908,7 @@ void MLPPLinAlg::resizevt(Vector<Ref<MLPPMatrix>> &r_target, const Vector<Ref<ML
 		Ref<MLPPMatrix> m;
 		m.instance();
 		m->resize(A[i]->size());
+		m->fill(0);
 
 		r_target.write[i] = m;
 	}
@@ -1945,7 +1948,7 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::absnvt(const Vector<Ref<MLPPMatrix>> &A) {
 		res.write[i] = absnm(A[i]);
 	}
 
-	return A;
+	return res;
 }
 
 /*
-- 
2.43.0


From 16bd8f2efe792799c9a7b781a80309b1195b6df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 32/82] fix: the determinant of a 1x1 matrix is its element

---
 core/mlpp_matrix.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 31ac48b..a6b73bf 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1604,7 +1604,9 @@ real_t MLPPMatrix::detb(const Ref<MLPPMatrix> &A, int d) const {
 	/* This is the base case in which the input is a 2x2 square matrix.
 	Recursion is performed unless and until we reach this base case,
 	such that we recieve a scalar as the result. */
-	if (d == 2) {
+	if (d == 1) {
+		return A->element_get(0, 0);
+	} else if (d == 2) {
 		return A->element_get(0, 0) * A->element_get(1, 1) - A->element_get(0, 1) * A->element_get(1, 0);
 	} else {
 		Ref<MLPPMatrix> B;
-- 
2.43.0


From 669e5ce68b2e856f75386039c1bae7e43ee5f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 33/82] fix: changing what a layer is given does not forget its
 weights

---
 modules/hidden_layer/hidden_layer.cpp | 17 +++++------------
 modules/output_layer/output_layer.cpp | 12 ------------
 2 files changed, 5 insertions(+), 24 deletions(-)

diff --git a/modules/hidden_layer/hidden_layer.cpp b/modules/hidden_layer/hidden_layer.cpp
index 67e3633..3c40e2e 100644
--- a/modules/hidden_layer/hidden_layer.cpp
+++ b/modules/hidden_layer/hidden_layer.cpp
@@ -47,7 +47,6 @@ MLPPActivation::ActivationFunction MLPPHiddenLayer::get_activation() const {
 }
 void MLPPHiddenLayer::set_activation(const MLPPActivation::ActivationFunction val) {
 	_activation = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_input() {
@@ -55,7 +54,11 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_input() {
 }
 void MLPPHiddenLayer::set_input(const Ref<MLPPMatrix> &val) {
 	_input = val;
-	_initialized = false;
+
+	// The weights are only drawn again when they do not fit the new input.
+	if (!_input.is_valid() || _weights->size().y != _input->size().x) {
+		_initialized = false;
+	}
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_weights() {
@@ -63,7 +66,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_weights() {
 }
 void MLPPHiddenLayer::set_weights(const Ref<MLPPMatrix> &val) {
 	_weights = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::MLPPHiddenLayer::get_bias() {
@@ -71,7 +73,6 @@ Ref<MLPPVector> MLPPHiddenLayer::MLPPHiddenLayer::get_bias() {
 }
 void MLPPHiddenLayer::set_bias(const Ref<MLPPVector> &val) {
 	_bias = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_z() {
@@ -79,7 +80,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_z() {
 }
 void MLPPHiddenLayer::set_z(const Ref<MLPPMatrix> &val) {
 	_z = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_a() {
@@ -87,7 +87,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_a() {
 }
 void MLPPHiddenLayer::set_a(const Ref<MLPPMatrix> &val) {
 	_a = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::get_z_test() {
@@ -95,7 +94,6 @@ Ref<MLPPVector> MLPPHiddenLayer::get_z_test() {
 }
 void MLPPHiddenLayer::set_z_test(const Ref<MLPPVector> &val) {
 	_z_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::get_a_test() {
@@ -103,7 +101,6 @@ Ref<MLPPVector> MLPPHiddenLayer::get_a_test() {
 }
 void MLPPHiddenLayer::set_a_test(const Ref<MLPPVector> &val) {
 	_a_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_delta() {
@@ -111,7 +108,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_delta() {
 }
 void MLPPHiddenLayer::set_delta(const Ref<MLPPMatrix> &val) {
 	_delta = val;
-	_initialized = false;
 }
 
 MLPPReg::RegularizationType MLPPHiddenLayer::get_reg() const {
@@ -119,7 +115,6 @@ MLPPReg::RegularizationType MLPPHiddenLayer::get_reg() const {
 }
 void MLPPHiddenLayer::set_reg(const MLPPReg::RegularizationType val) {
 	_reg = val;
-	_initialized = false;
 }
 
 real_t MLPPHiddenLayer::get_lambda() const {
@@ -127,7 +122,6 @@ real_t MLPPHiddenLayer::get_lambda() const {
 }
 void MLPPHiddenLayer::set_lambda(const real_t val) {
 	_lambda = val;
-	_initialized = false;
 }
 
 real_t MLPPHiddenLayer::get_alpha() const {
@@ -135,7 +129,6 @@ real_t MLPPHiddenLayer::get_alpha() const {
 }
 void MLPPHiddenLayer::set_alpha(const real_t val) {
 	_alpha = val;
-	_initialized = false;
 }
 
 MLPPUtilities::WeightDistributionType MLPPHiddenLayer::get_weight_init() const {
diff --git a/modules/output_layer/output_layer.cpp b/modules/output_layer/output_layer.cpp
index 4b5b2e7..7320f91 100644
--- a/modules/output_layer/output_layer.cpp
+++ b/modules/output_layer/output_layer.cpp
@@ -45,7 +45,6 @@ MLPPActivation::ActivationFunction MLPPOutputLayer::get_activation() {
 }
 void MLPPOutputLayer::set_activation(const MLPPActivation::ActivationFunction val) {
 	_activation = val;
-	_initialized = false;
 }
 
 MLPPCost::CostTypes MLPPOutputLayer::get_cost() {
@@ -53,7 +52,6 @@ MLPPCost::CostTypes MLPPOutputLayer::get_cost() {
 }
 void MLPPOutputLayer::set_cost(const MLPPCost::CostTypes val) {
 	_cost = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPOutputLayer::get_input() {
@@ -61,7 +59,6 @@ Ref<MLPPMatrix> MLPPOutputLayer::get_input() {
 }
 void MLPPOutputLayer::set_input(const Ref<MLPPMatrix> &val) {
 	_input = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_weights() {
@@ -69,7 +66,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_weights() {
 }
 void MLPPOutputLayer::set_weights(const Ref<MLPPVector> &val) {
 	_weights = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::MLPPOutputLayer::get_bias() {
@@ -77,7 +73,6 @@ real_t MLPPOutputLayer::MLPPOutputLayer::get_bias() {
 }
 void MLPPOutputLayer::set_bias(const real_t val) {
 	_bias = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_z() {
@@ -85,7 +80,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_z() {
 }
 void MLPPOutputLayer::set_z(const Ref<MLPPVector> &val) {
 	_z = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_a() {
@@ -93,7 +87,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_a() {
 }
 void MLPPOutputLayer::set_a(const Ref<MLPPVector> &val) {
 	_a = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_z_test() {
@@ -101,7 +94,6 @@ real_t MLPPOutputLayer::get_z_test() {
 }
 void MLPPOutputLayer::set_z_test(const real_t val) {
 	_z_test = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_a_test() {
@@ -109,7 +101,6 @@ real_t MLPPOutputLayer::get_a_test() {
 }
 void MLPPOutputLayer::set_a_test(const real_t val) {
 	_a_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_delta() {
@@ -117,7 +108,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_delta() {
 }
 void MLPPOutputLayer::set_delta(const Ref<MLPPVector> &val) {
 	_delta = val;
-	_initialized = false;
 }
 
 MLPPReg::RegularizationType MLPPOutputLayer::get_reg() {
@@ -132,7 +122,6 @@ real_t MLPPOutputLayer::get_lambda() {
 }
 void MLPPOutputLayer::set_lambda(const real_t val) {
 	_lambda = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_alpha() {
@@ -140,7 +129,6 @@ real_t MLPPOutputLayer::get_alpha() {
 }
 void MLPPOutputLayer::set_alpha(const real_t val) {
 	_alpha = val;
-	_initialized = false;
 }
 
 MLPPUtilities::WeightDistributionType MLPPOutputLayer::get_weight_init() {
-- 
2.43.0


From a9af0b0ba0167f53aba125e78d21e76a38e8fc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 34/82] fix: the networks' moments start at zero and layers of
 different widths can be trained

---
 modules/ann/ann.cpp   | 33 +++++++++++++++++++++++----------
 modules/mann/mann.cpp |  2 +-
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 546e6cc..6592a52 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -142,9 +142,9 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 	input_set_row_tmp.instance();
 	input_set_row_tmp->resize(_input_set->size().x);
 
-	Ref<MLPPVector> y_hat_row_tmp;
-	y_hat_row_tmp.instance();
-	y_hat_row_tmp->resize(1);
+	Ref<MLPPMatrix> input_set_row_mat_tmp;
+	input_set_row_mat_tmp.instance();
+	input_set_row_mat_tmp->resize(Size2i(_input_set->size().x, 1));
 
 	Ref<MLPPVector> output_set_row_tmp;
 	output_set_row_tmp.instance();
@@ -159,21 +159,22 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		real_t output_element_set = _output_set->element_get(output_index);
 		output_set_row_tmp->element_set(0, output_element_set);
 
-		real_t y_hat = model_test(input_set_row_tmp);
-		y_hat_row_tmp->element_set(0, y_hat);
+		// The gradients need the values of every layer for this example.
+		input_set_row_mat_tmp->row_set_mlpp_vector(0, input_set_row_tmp);
+		Ref<MLPPVector> y_hat = model_set_test(input_set_row_mat_tmp);
 
-		cost_prev = cost(y_hat_row_tmp, output_set_row_tmp);
+		cost_prev = cost(y_hat, output_set_row_tmp);
 
-		ComputeGradientsResult grads = compute_gradients(y_hat_row_tmp, output_set_row_tmp);
+		ComputeGradientsResult grads = compute_gradients(y_hat, output_set_row_tmp);
 
 		grads.cumulative_hidden_layer_w_grad = alg.scalar_multiplynvt(learning_rate / _n, grads.cumulative_hidden_layer_w_grad);
 		grads.output_w_grad->scalar_multiply(learning_rate / _n);
 
 		update_parameters(grads.cumulative_hidden_layer_w_grad, grads.output_w_grad, learning_rate); // subject to change. may want bias to have this matrix too.
-		y_hat = model_test(input_set_row_tmp);
+		y_hat = model_set_test(input_set_row_mat_tmp);
 
 		if (ui) {
-			print_ui(epoch, cost_prev, y_hat_row_tmp, output_set_row_tmp);
+			print_ui(epoch, cost_prev, y_hat, output_set_row_tmp);
 		}
 
 		epoch++;
@@ -273,6 +274,7 @@ void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			if (nag) { // "Aposterori" calculation
@@ -339,6 +341,7 @@ void MLPPANN::adagrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			v_hidden = alg.additionnvt(v_hidden, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2));
@@ -404,6 +407,7 @@ void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(1 - b1, v_hidden), alg.scalar_multiplynvt(b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
@@ -470,9 +474,11 @@ void MLPPANN::adam(real_t learning_rate, int max_epoch, int mini_batch_size, rea
 				alg.resizevt(v_hidden, grads.cumulative_hidden_layer_w_grad);
 			}
 
-			if (m_output->size() == 0 && v_output->size()) {
+			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -550,7 +556,9 @@ void MLPPANN::adamax(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 			if (m_output->size() == 0 && u_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				u_output->resize(grads.output_w_grad->size());
+				u_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -625,7 +633,9 @@ void MLPPANN::nadam(real_t learning_rate, int max_epoch, int mini_batch_size, re
 
 			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -713,8 +723,11 @@ void MLPPANN::amsgrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 				v_output_hat->resize(grads.output_w_grad->size());
+				v_output_hat->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index 7d8e0dc..17eb0f4 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -159,7 +159,7 @@ void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 				layer = _network[i];
 				Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
 
-				layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
+				layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights()->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
 
 				hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 
-- 
2.43.0


From 13e2bdb9e3039a98aabfe76857dc8113e9a5c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 35/82] fix: lin_reg averages mini batches and adamax survives
 a zero gradient

---
 modules/lin_reg/lin_reg.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 73a1243..db33f0e 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -310,7 +310,7 @@ void MLPPLinReg::momentum(real_t learning_rate, int max_epoch, int mini_batch_si
 
 			// Calculating the weight gradients
 
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
@@ -366,7 +366,7 @@ void MLPPLinReg::nag(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 			// Calculating the weight gradients
 
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -419,7 +419,7 @@ void MLPPLinReg::adagrad(real_t learning_rate, int max_epoch, int mini_batch_siz
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -472,7 +472,7 @@ void MLPPLinReg::adadelta(real_t learning_rate, int max_epoch, int mini_batch_si
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -525,7 +525,7 @@ void MLPPLinReg::adam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -582,7 +582,7 @@ void MLPPLinReg::adamax(real_t learning_rate, int max_epoch, int mini_batch_size
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -590,7 +590,7 @@ void MLPPLinReg::adamax(real_t learning_rate, int max_epoch, int mini_batch_size
 			u = u->scalar_multiplyn(b2)->maxn(weight_grad->absn());
 
 			Ref<MLPPVector> m_hat = m->scalar_multiplyn(1 / (1 - Math::pow(b1, epoch)));
-			_weights->sub(m_hat->division_element_wisen(u)->scalar_multiplyn(learning_rate));
+			_weights->sub(m_hat->division_element_wisen(u->scalar_addn(e))->scalar_multiplyn(learning_rate));
 
 			// Calculating the bias gradients
 			_bias -= learning_rate * error->sum_elements() / current_output_mini_batch->size(); // As normal
@@ -639,7 +639,7 @@ void MLPPLinReg::nadam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -752,6 +752,7 @@ MLPPLinReg::MLPPLinReg(const Ref<MLPPMatrix> &p_input_set, const Ref<MLPPVector>
 
 	_y_hat.instance();
 	_y_hat->resize(_n);
+	_y_hat->fill(0);
 
 	_weights.instance();
 	_weights->resize(_k);
-- 
2.43.0


From 4f614292a17f812645031fe30a13ce3523b4a52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 36/82] fix: exp_reg, log_reg, c_log_log_reg and dual_svc do
 not start from leftover memory and step the right way

---
 modules/c_log_log_reg/c_log_log_reg.cpp | 3 ++-
 modules/dual_svc/dual_svc.cpp           | 1 +
 modules/exp_reg/exp_reg.cpp             | 5 +++--
 modules/log_reg/log_reg.cpp             | 1 +
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/modules/c_log_log_reg/c_log_log_reg.cpp b/modules/c_log_log_reg/c_log_log_reg.cpp
index eef50ca..0fe8257 100644
--- a/modules/c_log_log_reg/c_log_log_reg.cpp
+++ b/modules/c_log_log_reg/c_log_log_reg.cpp
@@ -93,7 +93,7 @@ void MLPPCLogLogReg::mle(real_t learning_rate, int max_epoch, bool ui) {
 	while (true) {
 		cost_prev = cost(_y_hat, _output_set);
 
-		Ref<MLPPVector> error = _y_hat->subn(_output_set);
+		Ref<MLPPVector> error = _output_set->subn(_y_hat);
 
 		_weights->add(_input_set->transposen()->mult_vec(error->hadamard_productn(avn.cloglog_derivv(_z)))->scalar_multiplyn(learning_rate / _n));
 		_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
@@ -247,6 +247,7 @@ MLPPCLogLogReg::MLPPCLogLogReg(const Ref<MLPPMatrix> &p_input_set, const Ref<MLP
 
 	_y_hat.instance();
 	_y_hat->resize(_n);
+	_y_hat->fill(0);
 
 	MLPPUtilities utilities;
 
diff --git a/modules/dual_svc/dual_svc.cpp b/modules/dual_svc/dual_svc.cpp
index eddcd6f..94953fc 100644
--- a/modules/dual_svc/dual_svc.cpp
+++ b/modules/dual_svc/dual_svc.cpp
@@ -203,6 +203,7 @@ MLPPDualSVC::MLPPDualSVC(const Ref<MLPPMatrix> &p_input_set, const Ref<MLPPVecto
 	_alpha.instance();
 
 	_y_hat->resize(_n);
+	_y_hat->fill(0);
 
 	MLPPUtilities utils;
 
diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 5ca6a13..7c24f26 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -211,8 +211,8 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 				real_t i_gradient = sum2 / current_output_batch->size();
 
 				// Weight/initial updation
-				_weights->element_set(i, _weights->element_get(i) - learning_rate * w_gradient);
-				_initial->element_set(i, _initial->element_get(i) - learning_rate * i_gradient);
+				_weights->element_set(j, _weights->element_get(j) - learning_rate * w_gradient);
+				_initial->element_set(j, _initial->element_get(j) - learning_rate * i_gradient);
 			}
 
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
@@ -265,6 +265,7 @@ MLPPExpReg::MLPPExpReg(const Ref<MLPPMatrix> &p_input_set, const Ref<MLPPVector>
 
 	_y_hat.instance();
 	_y_hat->resize(_n);
+	_y_hat->fill(0);
 
 	MLPPUtilities util;
 
diff --git a/modules/log_reg/log_reg.cpp b/modules/log_reg/log_reg.cpp
index 794e5b8..2dc8ef8 100644
--- a/modules/log_reg/log_reg.cpp
+++ b/modules/log_reg/log_reg.cpp
@@ -315,6 +315,7 @@ MLPPLogReg::MLPPLogReg(const Ref<MLPPMatrix> &p_input_set, const Ref<MLPPVector>
 
 	_y_hat.instance();
 	_y_hat->resize(_n);
+	_y_hat->fill(0);
 
 	_weights.instance();
 	_weights->resize(_k);
-- 
2.43.0


From a439d13021ec0e5f901e1d1a83a2ea9b670cc67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 37/82] fix: probit_reg, tanh_reg and svc mini batches use
 their own rows and their steps are kept

---
 modules/probit_reg/probit_reg.cpp | 15 +++++----------
 modules/svc/svc.cpp               |  5 +++--
 modules/tanh_reg/tanh_reg.cpp     |  5 +++--
 3 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/modules/probit_reg/probit_reg.cpp b/modules/probit_reg/probit_reg.cpp
index 56aab86..73ca883 100644
--- a/modules/probit_reg/probit_reg.cpp
+++ b/modules/probit_reg/probit_reg.cpp
@@ -275,10 +275,6 @@ void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_bat
 	int epoch = 1;
 	int n = _input_set->size().y;
 
-	Ref<MLPPVector> z_tmp;
-	z_tmp.instance();
-	z_tmp->resize(1);
-
 	// Creating the mini-batches
 	int n_mini_batch = n / mini_batch_size;
 
@@ -290,22 +286,20 @@ void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_bat
 			Ref<MLPPVector> current_output = batches.output_sets[i];
 
 			Ref<MLPPVector> y_hat = evaluatem(current_input);
-			real_t z = propagatev(current_output);
-
-			z_tmp->element_set(0, z);
+			Ref<MLPPVector> z = propagatem(current_input);
 
 			cost_prev = cost(y_hat, current_output);
 
 			Ref<MLPPVector> error = y_hat->subn(current_output);
 
 			// Calculating the weight gradients
-			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z_tmp)))->scalar_multiplyn(learning_rate / batches.input_sets.size()));
+			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z)))->scalar_multiplyn(learning_rate / current_output->size()));
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
 
-			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z_tmp))->sum_elements() / batches.input_sets.size();
-			y_hat = evaluatev(current_input);
+			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z))->sum_elements() / current_output->size();
+			y_hat = evaluatem(current_input);
 
 			if (ui) {
 				MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat, current_output));
@@ -361,6 +355,7 @@ void MLPPProbitReg::initialize() {
 	int k = _input_set->size().x;
 
 	_y_hat->resize(n);
+	_y_hat->fill(0);
 
 	MLPPUtilities util;
 	_weights->resize(k);
diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index edda1df..db6c10e 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -121,7 +121,7 @@ void MLPPSVC::train_gradient_descent(real_t learning_rate, int max_epoch, bool u
 		_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 		// Calculating the bias gradients
-		_bias += learning_rate * mlpp_cost.hinge_loss_derivwv(_y_hat, _output_set, _c)->sum_elements() / n;
+		_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(_y_hat, _output_set, _c)->sum_elements() / n;
 
 		forward_pass();
 
@@ -242,7 +242,7 @@ void MLPPSVC::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_siz
 			cost_prev = cost(z, current_output_batch_entry, _weights, _c);
 
 			// Calculating the weight gradients
-			_weights->subn(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
+			_weights->sub(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
 			_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 			// Calculating the bias gradients
@@ -304,6 +304,7 @@ void MLPPSVC::initialize() {
 	int k = _input_set->size().x;
 
 	_y_hat->resize(n);
+	_y_hat->fill(0);
 
 	MLPPUtilities util;
 
diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 623b632..4372b10 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -142,6 +142,7 @@ void MLPPTanhReg::initialize() {
 	int k = _input_set->size().x;
 
 	_y_hat->resize(n);
+	_y_hat->fill(0);
 	_weights->resize(k);
 
 	MLPPUtilities utils;
@@ -245,7 +246,7 @@ void MLPPTanhReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		real_t error = y_hat - output_set_entry;
 
 		// Weight Updation
-		_weights->subn(input_set_row_tmp->scalar_multiplyn(learning_rate * error * (1 - y_hat * y_hat)));
+		_weights->sub(input_set_row_tmp->scalar_multiplyn(learning_rate * error * (1 - y_hat * y_hat)));
 		_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 		// Bias updation
@@ -301,7 +302,7 @@ void MLPPTanhReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(_z))->sum_elements() / n;
+			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(z))->sum_elements() / n;
 
 			forward_pass();
 
-- 
2.43.0


From c2369db4b30e774259071fdc015b650b166c4fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 38/82] fix: softmax_reg and softmax_net keep predictions of
 the right shape and train on their inputs

---
 modules/softmax_net/softmax_net.cpp | 7 ++++---
 modules/softmax_reg/softmax_reg.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index 0ef1231..1d09d2f 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -232,7 +232,7 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 	Ref<MLPPMatrix> y_hat_mat_tmp;
 	y_hat_mat_tmp.instance();
-	y_hat_mat_tmp->resize(Size2i(_bias1->size(), 1));
+	y_hat_mat_tmp->resize(Size2i(_bias2->size(), 1));
 
 	Ref<MLPPMatrix> output_row_mat_tmp;
 	output_row_mat_tmp.instance();
@@ -334,7 +334,7 @@ void MLPPSoftmaxNet::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 			_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
 
 			// Bias Updation for layer 2
-			_bias2->sub(error->scalar_multiplyn(learning_rate));
+			_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 			//Calculating the weight/bias for layer 1
 			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
@@ -424,7 +424,8 @@ void MLPPSoftmaxNet::initialize() {
 	int k = _input_set->size().x;
 	int n_class = _output_set->size().x;
 
-	_y_hat->resize(Size2i(0, n));
+	_y_hat->resize(Size2i(n_class, n));
+	_y_hat->fill(0);
 
 	MLPPUtilities utils;
 
diff --git a/modules/softmax_reg/softmax_reg.cpp b/modules/softmax_reg/softmax_reg.cpp
index 5109514..aa7675f 100644
--- a/modules/softmax_reg/softmax_reg.cpp
+++ b/modules/softmax_reg/softmax_reg.cpp
@@ -208,7 +208,7 @@ void MLPPSoftmaxReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		// Bias updation
 		_bias->sub(b_gradient->scalar_multiplyn(learning_rate));
 
-		y_hat = evaluatev(output_set_row_tmp);
+		y_hat = evaluatev(input_set_row_tmp);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_matrix_tmp, output_set_row_matrix_tmp));
@@ -260,7 +260,7 @@ void MLPPSoftmaxReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 			y_hat = evaluatem(current_inputs);
 
 			if (ui) {
-				MLPPUtilities::CostInfo(epoch, cost_prev, cost(y_hat, current_outputs));
+				MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat, current_outputs));
 				MLPPUtilities::print_ui_mb(_weights, _bias);
 			}
 		}
@@ -318,7 +318,8 @@ void MLPPSoftmaxReg::initialize() {
 	int k = _input_set->size().x;
 	int n_class = _output_set->size().x;
 
-	_y_hat->resize(Size2i(0, n));
+	_y_hat->resize(Size2i(n_class, n));
+	_y_hat->fill(0);
 
 	MLPPUtilities util;
 
-- 
2.43.0


From 4b39b0ad146c724cc822b5b358c17ac487965dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 39/82] fix: mlp and auto_encoder mini batches update the right
 parameters

---
 modules/auto_encoder/auto_encoder.cpp | 9 +++++----
 modules/mlp/mlp.cpp                   | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index fb457b0..f978ac5 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -232,17 +232,17 @@ void MLPPAutoEncoder::mbgd(real_t learning_rate, int max_epoch, int mini_batch_s
 			_weights2->sub(D2_1->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			// Bias Updation for layer 2
-			_bias2->sub(error->scalar_multiplyn(learning_rate));
+			_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 			//Calculating the weight/bias for layer 1
 
-			Ref<MLPPMatrix> D1_1 = _weights2->transposen()->multn(error);
+			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(prop_res.z2));
 			Ref<MLPPMatrix> D1_3 = current_batch->transposen()->multn(D1_2);
 
 			// weight an bias updation for layer 1
-			_weights2->sub(D1_3->scalar_multiplyn(learning_rate / current_batch->size().x));
-			_bias1->subtract_matrix_rows(D1_2->scalar_multiplyn(learning_rate / current_batch->size().x));
+			_weights1->sub(D1_3->scalar_multiplyn(learning_rate / current_batch->size().y));
+			_bias1->subtract_matrix_rows(D1_2->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			y_hat = evaluatem(current_batch);
 
@@ -288,6 +288,7 @@ MLPPAutoEncoder::MLPPAutoEncoder(const Ref<MLPPMatrix> &p_input_set, int p_n_hid
 
 	_y_hat.instance();
 	_y_hat->resize(_input_set->size());
+	_y_hat->fill(0);
 
 	MLPPUtilities utilities;
 
diff --git a/modules/mlp/mlp.cpp b/modules/mlp/mlp.cpp
index 3a08a9f..ea90e1e 100644
--- a/modules/mlp/mlp.cpp
+++ b/modules/mlp/mlp.cpp
@@ -303,10 +303,10 @@ void MLPPMLP::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 
 			_bias1->subtract_matrix_rows(D1_2->scalar_multiplyn(lr_d_cos));
 
-			_y_hat = evaluatem(current_input);
+			ly_hat = evaluatem(current_input);
 
 			if (UI) {
-				MLPPUtilities::CostInfo(epoch, cost_prev, cost(ly_hat, current_output));
+				MLPPUtilities::cost_info(epoch, cost_prev, cost(ly_hat, current_output));
 				PLOG_MSG("Layer 1:");
 				MLPPUtilities::print_ui_mb(_weights1, _bias1);
 				PLOG_MSG("Layer 2:");
@@ -353,6 +353,7 @@ void MLPPMLP::initialize() {
 
 	MLPPActivation avn;
 	_y_hat->resize(_n);
+	_y_hat->fill(0);
 
 	MLPPUtilities util;
 
-- 
2.43.0


From d30917719d1c97243776e0ecc04987a37ac3b012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 40/82] fix: the naive Bayes classifiers clear their scores and
 know their vocabulary before counting

---
 modules/bernoulli_nb/bernoulli_nb.cpp     | 12 ++++++------
 modules/bernoulli_nb/bernoulli_nb.h       |  2 +-
 modules/multinomial_nb/multinomial_nb.cpp |  7 +++++++
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/modules/bernoulli_nb/bernoulli_nb.cpp b/modules/bernoulli_nb/bernoulli_nb.cpp
index aa634cc..0cfa221 100644
--- a/modules/bernoulli_nb/bernoulli_nb.cpp
+++ b/modules/bernoulli_nb/bernoulli_nb.cpp
@@ -148,11 +148,11 @@ void MLPPBernoulliNB::compute_theta() {
 	}
 
 	for (int i = 0; i < _theta.size(); i++) {
-		for (uint32_t j = 0; j < _theta[i].size(); j++) {
+		for (int j = 0; j < _vocab->size(); j++) {
 			if (i == 0) {
-				_theta.write[i][j] /= _prior_0 * _y_hat->size();
+				_theta.write[i][_vocab->element_get(j)] /= _prior_0 * _y_hat->size();
 			} else {
-				_theta.write[i][j] /= _prior_1 * _y_hat->size();
+				_theta.write[i][_vocab->element_get(j)] /= _prior_1 * _y_hat->size();
 			}
 		}
 	}
@@ -175,12 +175,12 @@ void MLPPBernoulliNB::evaluate() {
 		_prior_1 = sum / _y_hat->size();
 		_prior_0 = 1 - _prior_1;
 
-		// Evaluating Theta...
-		compute_theta();
-
 		// Evaluating the vocab set...
 		compute_vocab();
 
+		// Evaluating Theta...
+		compute_theta();
+
 		Vector<int> found_indices;
 
 		for (int j = 0; j < _input_set->size().x; j++) {
diff --git a/modules/bernoulli_nb/bernoulli_nb.h b/modules/bernoulli_nb/bernoulli_nb.h
index 810778e..fab859b 100644
--- a/modules/bernoulli_nb/bernoulli_nb.h
+++ b/modules/bernoulli_nb/bernoulli_nb.h
@@ -69,7 +69,7 @@ protected:
 	real_t _prior_1;
 	real_t _prior_0;
 
-	Vector<HashMap<real_t, int>> _theta;
+	Vector<HashMap<real_t, real_t>> _theta;
 	Ref<MLPPVector> _vocab;
 	int _class_num;
 
diff --git a/modules/multinomial_nb/multinomial_nb.cpp b/modules/multinomial_nb/multinomial_nb.cpp
index 0f63f0d..e037ad4 100644
--- a/modules/multinomial_nb/multinomial_nb.cpp
+++ b/modules/multinomial_nb/multinomial_nb.cpp
@@ -98,6 +98,9 @@ real_t MLPPMultinomialNB::model_test(const Ref<MLPPVector> &x) {
 
 	LocalVector<real_t> score;
 	score.resize(_class_num);
+	for (uint32_t i = 0; i < score.size(); ++i) {
+		score[i] = 0;
+	}
 
 	compute_theta();
 
@@ -218,9 +221,13 @@ void MLPPMultinomialNB::evaluate() {
 		// Pr(B | A) * Pr(A)
 		LocalVector<real_t> score;
 		score.resize(_class_num);
+		for (uint32_t ii = 0; ii < score.size(); ++ii) {
+			score[ii] = 0;
+		}
 
 		// Easy computation of priors, i.e. Pr(C_k)
 		_priors->resize(_class_num);
+		_priors->fill(0);
 		for (int ii = 0; ii < _output_set->size(); ii++) {
 			int osii = static_cast<int>(_output_set->element_get(ii));
 			_priors->element_set(osii, _priors->element_get(osii) + 1);
-- 
2.43.0


From 50f81096dd1753f1494a523605148d9d51a81b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 41/82] fix: the eigenvalue iteration ends, picks its pivot by
 magnitude and keeps each value with its vector

---
 core/lin_alg.cpp     |  97 +++++++---------------
 core/mlpp_matrix.cpp | 194 +++++++++++++------------------------------
 2 files changed, 90 insertions(+), 201 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 2dee7f2..f645c9b 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -739,39 +739,39 @@ MLPPLinAlg::EigenResult MLPPLinAlg::eigen(Ref<MLPPMatrix> A) {
 	eigenvalues of a matrix is utilizing Jacobi's method.
 	*/
 
-	real_t diagonal = true; // Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
-
-	HashMap<int, int> val_to_vec;
 	Ref<MLPPMatrix> a_new;
 	Ref<MLPPMatrix> eigenvectors = identitym(A->size().y);
 	Size2i a_size = A->size();
 
-	do {
-		real_t a_ij = A->element_get(0, 1);
-		real_t sub_i = 0;
-		real_t sub_j = 1;
+	// Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
+	// A symmetric matrix takes a few rotations per element, the limit is for everything else.
+	for (int rotation = 0; rotation < 100 * a_size.y * a_size.x; ++rotation) {
+		// The off-diagonal element with the largest magnitude.
+		real_t a_ij = 0;
+		int sub_i = 0;
+		int sub_j = 0;
+		real_t largest_diagonal = 0;
+
 		for (int i = 0; i < a_size.y; ++i) {
-			for (int j = 0; j < a_size.x; ++j) {
+			largest_diagonal = MAX(largest_diagonal, ABS(A->element_get(i, i)));
+
+			for (int j = i + 1; j < a_size.x; ++j) {
 				real_t ca_ij = A->element_get(i, j);
-				real_t abs_ca_ij = ABS(ca_ij);
 
-				if (i != j && abs_ca_ij > a_ij) {
+				if (ABS(ca_ij) > ABS(a_ij)) {
 					a_ij = ca_ij;
 					sub_i = i;
 					sub_j = j;
-				} else if (i != j && abs_ca_ij == a_ij) {
-					if (i < sub_i) {
-						a_ij = ca_ij;
-						sub_i = i;
-						sub_j = j;
-					}
 				}
 			}
 		}
 
+		if (ABS(a_ij) <= CMP_EPSILON * largest_diagonal || a_ij == 0) {
+			break;
+		}
+
 		real_t a_ii = A->element_get(sub_i, sub_i);
 		real_t a_jj = A->element_get(sub_j, sub_j);
-		//real_t a_ji = A->element_get(sub_j, sub_i);
 		real_t theta;
 
 		if (a_ii == a_jj) {
@@ -786,50 +786,20 @@ MLPPLinAlg::EigenResult MLPPLinAlg::eigen(Ref<MLPPMatrix> A) {
 		P->element_set(sub_j, sub_j, Math::cos(theta));
 		P->element_set(sub_j, sub_i, Math::sin(theta));
 
-		a_new = matmultnm(matmultnm(inversenm(P), A), P);
-
-		Size2i a_new_size = a_new->size();
-
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					a_new->element_set(i, j, 0);
-				}
-			}
-		}
-
-		bool non_zero = false;
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					non_zero = true;
-				}
-			}
-		}
-
-		if (non_zero) {
-			diagonal = false;
-		} else {
-			diagonal = true;
-		}
-
-		if (a_new->is_equal_approx(A)) {
-			diagonal = true;
-			for (int i = 0; i < a_new_size.y; ++i) {
-				for (int j = 0; j < a_new_size.x; ++j) {
-					if (i != j) {
-						a_new->element_set(i, j, 0);
-					}
-				}
-			}
-		}
-
+		A = matmultnm(matmultnm(transposenm(P), A), P);
 		eigenvectors = matmultnm(eigenvectors, P);
-		A = a_new;
+	}
 
-	} while (!diagonal);
+	a_new = identitym(a_size.y);
 
-	Ref<MLPPMatrix> a_new_prior = a_new->duplicate_fast();
+	for (int i = 0; i < a_size.y; ++i) {
+		a_new->element_set(i, i, A->element_get(i, i));
+	}
+
+	Vector<int> order; // The column each eigenvalue comes from.
+	for (int i = 0; i < a_size.y; ++i) {
+		order.push_back(i);
+	}
 
 	Size2i a_new_size = a_new->size();
 
@@ -840,14 +810,7 @@ MLPPLinAlg::EigenResult MLPPLinAlg::eigen(Ref<MLPPMatrix> A) {
 				real_t temp = a_new->element_get(j + 1, j + 1);
 				a_new->element_set(j + 1, j + 1, a_new->element_get(j, j));
 				a_new->element_set(j, j, temp);
-			}
-		}
-	}
-
-	for (int i = 0; i < a_new_size.y; ++i) {
-		for (int j = 0; j < a_new_size.x; ++j) {
-			if (a_new->element_get(i, i) == a_new_prior->element_get(j, j)) {
-				val_to_vec[i] = j;
+				SWAP(order.write[j], order.write[j + 1]);
 			}
 		}
 	}
@@ -858,7 +821,7 @@ MLPPLinAlg::EigenResult MLPPLinAlg::eigen(Ref<MLPPMatrix> A) {
 
 	for (int i = 0; i < eigenvectors_size.y; ++i) {
 		for (int j = 0; j < eigenvectors_size.x; ++j) {
-			eigenvectors->element_set(i, j, eigen_temp->element_get(i, val_to_vec[j]));
+			eigenvectors->element_set(i, j, eigen_temp->element_get(i, order[j]));
 		}
 	}
 
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index a6b73bf..70787b4 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2238,40 +2238,40 @@ MLPPMatrix::EigenResult MLPPMatrix::eigen() const {
 	eigenvalues of a matrix is utilizing Jacobi's method.
 	*/
 
-	real_t diagonal = true; // Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
-
-	HashMap<int, int> val_to_vec;
 	Ref<MLPPMatrix> a_new;
 	Ref<MLPPMatrix> a_mat = Ref<MLPPMatrix>(this);
 	Ref<MLPPMatrix> eigenvectors = identity_mat(a_mat->size().y);
 	Size2i a_size = a_mat->size();
 
-	do {
-		real_t a_ij = a_mat->element_get(0, 1);
-		real_t sub_i = 0;
-		real_t sub_j = 1;
+	// Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
+	// A symmetric matrix takes a few rotations per element, the limit is for everything else.
+	for (int rotation = 0; rotation < 100 * a_size.y * a_size.x; ++rotation) {
+		// The off-diagonal element with the largest magnitude.
+		real_t a_ij = 0;
+		int sub_i = 0;
+		int sub_j = 0;
+		real_t largest_diagonal = 0;
+
 		for (int i = 0; i < a_size.y; ++i) {
-			for (int j = 0; j < a_size.x; ++j) {
+			largest_diagonal = MAX(largest_diagonal, ABS(a_mat->element_get(i, i)));
+
+			for (int j = i + 1; j < a_size.x; ++j) {
 				real_t ca_ij = a_mat->element_get(i, j);
-				real_t abs_ca_ij = ABS(ca_ij);
 
-				if (i != j && abs_ca_ij > a_ij) {
+				if (ABS(ca_ij) > ABS(a_ij)) {
 					a_ij = ca_ij;
 					sub_i = i;
 					sub_j = j;
-				} else if (i != j && abs_ca_ij == a_ij) {
-					if (i < sub_i) {
-						a_ij = ca_ij;
-						sub_i = i;
-						sub_j = j;
-					}
 				}
 			}
 		}
 
+		if (ABS(a_ij) <= CMP_EPSILON * largest_diagonal || a_ij == 0) {
+			break;
+		}
+
 		real_t a_ii = a_mat->element_get(sub_i, sub_i);
 		real_t a_jj = a_mat->element_get(sub_j, sub_j);
-		//real_t a_ji = a_mat->element_get(sub_j, sub_i);
 		real_t theta;
 
 		if (a_ii == a_jj) {
@@ -2286,50 +2286,20 @@ MLPPMatrix::EigenResult MLPPMatrix::eigen() const {
 		P->element_set(sub_j, sub_j, Math::cos(theta));
 		P->element_set(sub_j, sub_i, Math::sin(theta));
 
-		a_new = P->inverse()->multn(a_mat)->multn(P);
-
-		Size2i a_new_size = a_new->size();
-
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					a_new->element_set(i, j, 0);
-				}
-			}
-		}
-
-		bool non_zero = false;
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					non_zero = true;
-				}
-			}
-		}
-
-		if (non_zero) {
-			diagonal = false;
-		} else {
-			diagonal = true;
-		}
-
-		if (a_new->is_equal_approx(a_mat)) {
-			diagonal = true;
-			for (int i = 0; i < a_new_size.y; ++i) {
-				for (int j = 0; j < a_new_size.x; ++j) {
-					if (i != j) {
-						a_new->element_set(i, j, 0);
-					}
-				}
-			}
-		}
-
+		a_mat = P->transposen()->multn(a_mat)->multn(P);
 		eigenvectors = eigenvectors->multn(P);
-		a_mat = a_new;
+	}
 
-	} while (!diagonal);
+	a_new = identity_mat(a_size.y);
 
-	Ref<MLPPMatrix> a_new_prior = a_new->duplicate_fast();
+	for (int i = 0; i < a_size.y; ++i) {
+		a_new->element_set(i, i, a_mat->element_get(i, i));
+	}
+
+	Vector<int> order; // The column each eigenvalue comes from.
+	for (int i = 0; i < a_size.y; ++i) {
+		order.push_back(i);
+	}
 
 	Size2i a_new_size = a_new->size();
 
@@ -2340,14 +2310,7 @@ MLPPMatrix::EigenResult MLPPMatrix::eigen() const {
 				real_t temp = a_new->element_get(j + 1, j + 1);
 				a_new->element_set(j + 1, j + 1, a_new->element_get(j, j));
 				a_new->element_set(j, j, temp);
-			}
-		}
-	}
-
-	for (int i = 0; i < a_new_size.y; ++i) {
-		for (int j = 0; j < a_new_size.x; ++j) {
-			if (a_new->element_get(i, i) == a_new_prior->element_get(j, j)) {
-				val_to_vec[i] = j;
+				SWAP(order.write[j], order.write[j + 1]);
 			}
 		}
 	}
@@ -2358,7 +2321,7 @@ MLPPMatrix::EigenResult MLPPMatrix::eigen() const {
 
 	for (int i = 0; i < eigenvectors_size.y; ++i) {
 		for (int j = 0; j < eigenvectors_size.x; ++j) {
-			eigenvectors->element_set(i, j, eigen_temp->element_get(i, val_to_vec[j]));
+			eigenvectors->element_set(i, j, eigen_temp->element_get(i, order[j]));
 		}
 	}
 
@@ -2378,40 +2341,40 @@ MLPPMatrix::EigenResult MLPPMatrix::eigenb(const Ref<MLPPMatrix> &A) const {
 	eigenvalues of a matrix is utilizing Jacobi's method.
 	*/
 
-	real_t diagonal = true; // Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
-
-	HashMap<int, int> val_to_vec;
 	Ref<MLPPMatrix> a_new;
 	Ref<MLPPMatrix> a_mat = A;
 	Ref<MLPPMatrix> eigenvectors = identity_mat(a_mat->size().y);
 	Size2i a_size = a_mat->size();
 
-	do {
-		real_t a_ij = a_mat->element_get(0, 1);
-		real_t sub_i = 0;
-		real_t sub_j = 1;
+	// Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
+	// A symmetric matrix takes a few rotations per element, the limit is for everything else.
+	for (int rotation = 0; rotation < 100 * a_size.y * a_size.x; ++rotation) {
+		// The off-diagonal element with the largest magnitude.
+		real_t a_ij = 0;
+		int sub_i = 0;
+		int sub_j = 0;
+		real_t largest_diagonal = 0;
+
 		for (int i = 0; i < a_size.y; ++i) {
-			for (int j = 0; j < a_size.x; ++j) {
+			largest_diagonal = MAX(largest_diagonal, ABS(a_mat->element_get(i, i)));
+
+			for (int j = i + 1; j < a_size.x; ++j) {
 				real_t ca_ij = a_mat->element_get(i, j);
-				real_t abs_ca_ij = ABS(ca_ij);
 
-				if (i != j && abs_ca_ij > a_ij) {
+				if (ABS(ca_ij) > ABS(a_ij)) {
 					a_ij = ca_ij;
 					sub_i = i;
 					sub_j = j;
-				} else if (i != j && abs_ca_ij == a_ij) {
-					if (i < sub_i) {
-						a_ij = ca_ij;
-						sub_i = i;
-						sub_j = j;
-					}
 				}
 			}
 		}
 
+		if (ABS(a_ij) <= CMP_EPSILON * largest_diagonal || a_ij == 0) {
+			break;
+		}
+
 		real_t a_ii = a_mat->element_get(sub_i, sub_i);
 		real_t a_jj = a_mat->element_get(sub_j, sub_j);
-		//real_t a_ji = a_mat->element_get(sub_j, sub_i);
 		real_t theta;
 
 		if (a_ii == a_jj) {
@@ -2426,50 +2389,20 @@ MLPPMatrix::EigenResult MLPPMatrix::eigenb(const Ref<MLPPMatrix> &A) const {
 		P->element_set(sub_j, sub_j, Math::cos(theta));
 		P->element_set(sub_j, sub_i, Math::sin(theta));
 
-		a_new = P->inverse()->multn(a_mat)->multn(P);
-
-		Size2i a_new_size = a_new->size();
-
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					a_new->element_set(i, j, 0);
-				}
-			}
-		}
-
-		bool non_zero = false;
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					non_zero = true;
-				}
-			}
-		}
-
-		if (non_zero) {
-			diagonal = false;
-		} else {
-			diagonal = true;
-		}
-
-		if (a_new->is_equal_approx(a_mat)) {
-			diagonal = true;
-			for (int i = 0; i < a_new_size.y; ++i) {
-				for (int j = 0; j < a_new_size.x; ++j) {
-					if (i != j) {
-						a_new->element_set(i, j, 0);
-					}
-				}
-			}
-		}
-
+		a_mat = P->transposen()->multn(a_mat)->multn(P);
 		eigenvectors = eigenvectors->multn(P);
-		a_mat = a_new;
+	}
 
-	} while (!diagonal);
+	a_new = identity_mat(a_size.y);
 
-	Ref<MLPPMatrix> a_new_prior = a_new->duplicate_fast();
+	for (int i = 0; i < a_size.y; ++i) {
+		a_new->element_set(i, i, a_mat->element_get(i, i));
+	}
+
+	Vector<int> order; // The column each eigenvalue comes from.
+	for (int i = 0; i < a_size.y; ++i) {
+		order.push_back(i);
+	}
 
 	Size2i a_new_size = a_new->size();
 
@@ -2480,14 +2413,7 @@ MLPPMatrix::EigenResult MLPPMatrix::eigenb(const Ref<MLPPMatrix> &A) const {
 				real_t temp = a_new->element_get(j + 1, j + 1);
 				a_new->element_set(j + 1, j + 1, a_new->element_get(j, j));
 				a_new->element_set(j, j, temp);
-			}
-		}
-	}
-
-	for (int i = 0; i < a_new_size.y; ++i) {
-		for (int j = 0; j < a_new_size.x; ++j) {
-			if (a_new->element_get(i, i) == a_new_prior->element_get(j, j)) {
-				val_to_vec[i] = j;
+				SWAP(order.write[j], order.write[j + 1]);
 			}
 		}
 	}
@@ -2498,7 +2424,7 @@ MLPPMatrix::EigenResult MLPPMatrix::eigenb(const Ref<MLPPMatrix> &A) const {
 
 	for (int i = 0; i < eigenvectors_size.y; ++i) {
 		for (int j = 0; j < eigenvectors_size.x; ++j) {
-			eigenvectors->element_set(i, j, eigen_temp->element_get(i, val_to_vec[j]));
+			eigenvectors->element_set(i, j, eigen_temp->element_get(i, order[j]));
 		}
 	}
 
-- 
2.43.0


From 54e7c18b5aae48ffc1a69f6e770d57cf4370e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:10 +0000
Subject: [PATCH 42/82] fix: assigning an array or dictionary one of its own
 elements read released memory

---
 platform/sfw.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 5e58fd4..203fb9e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -19125,20 +19125,23 @@ bool Dictionary::operator!=(const Dictionary &p_dictionary) const {
 }
 
 void Dictionary::_ref(const Dictionary &p_from) const {
+	// p_from may be stored inside this dictionary, and go away with it.
+	DictionaryPrivate *_fp = p_from._p;
+
 	//make a copy first (thread safe)
-	if (!p_from._p->refcount.ref()) {
+	if (!_fp->refcount.ref()) {
 		return; // couldn't copy
 	}
 
 	//if this is the same, unreference the other one
-	if (p_from._p == _p) {
+	if (_fp == _p) {
 		_p->refcount.unref();
 		return;
 	}
 	if (_p) {
 		_unref();
 	}
-	_p = p_from._p;
+	_p = _fp;
 }
 
 void Dictionary::clear() {
@@ -19288,7 +19291,7 @@ void Array::_ref(const Array &p_from) const {
 
 	_unref();
 
-	_p = p_from._p;
+	_p = _fp; // p_from may have been stored inside the old array
 }
 
 void Array::_unref() const {
-- 
2.43.0


From 8191a913429fb06e30f27bdabe367857e805b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:41 +0000
Subject: [PATCH 43/82] fix: vectors read released memory when given a value
 out of their own buffer

---
 platform/sfw.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 4958624..95a1b16 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -2944,7 +2944,15 @@ public:
 
 	_FORCE_INLINE_ void set(int p_index, const T &p_elem) {
 		CRASH_BAD_INDEX(p_index, size());
-		ERR_FAIL_COND(!_copy_on_write());
+
+		if (_get_refcount()->get() > 1) {
+			// p_elem may be in the shared buffer, which can go away as soon as this has its own one.
+			T elem = p_elem;
+			ERR_FAIL_COND(!_copy_on_write());
+			_ptr[p_index] = elem;
+			return;
+		}
+
 		_ptr[p_index] = p_elem;
 	}
 
@@ -2993,10 +3001,11 @@ public:
 			return;
 		}
 
+		T val = p_val; // It may be in the current buffer.
 		T *p = ptrw();
 		ERR_FAIL_COND(!p);
 		for (int i = 0; i < len; ++i) {
-			p[i] = p_val;
+			p[i] = val;
 		}
 	}
 
@@ -3181,16 +3190,15 @@ void CowData<T>::_ref(const CowData &p_from) {
 		return; // self assign, do nothing.
 	}
 
-	_unref(_ptr);
-	_ptr = nullptr;
+	// Take the new buffer before letting go of the old one: p_from may live inside the old buffer.
+	T *new_ptr = nullptr;
 
-	if (!p_from._ptr) {
-		return; //nothing to do
+	if (p_from._ptr && p_from._get_refcount()->conditional_increment() > 0) { // could reference
+		new_ptr = p_from._ptr;
 	}
 
-	if (p_from._get_refcount()->conditional_increment() > 0) { // could reference
-		_ptr = p_from._ptr;
-	}
+	_unref(_ptr);
+	_ptr = new_ptr;
 }
 
 template <class T>
-- 
2.43.0


From efc5308775ba359461fc3f4ef31e306d950314e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 44/82] fix: the growing arrays' insert and remove could not be
 compiled

---
 platform/sfw.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 95a1b16..832f750 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -1540,6 +1540,14 @@ _FORCE_INLINE_ void _RLOG_MACRO_TEMPLATE_FUNC(STR str, A p0, B p1, C p2, D p3, E
 	} else                                                                            \
 		((void)0)
 
+// Indices of an unsigned type cannot be below zero.
+#define ERR_FAIL_UNSIGNED_INDEX(index, size)                                         \
+	if ((index) >= (size)) {                                                         \
+		RLogger::log_index_error(__FUNCTION__, __FILE__, __LINE__, index, size, ""); \
+		return;                                                                      \
+	} else                                                                           \
+		((void)0)
+
 #define ERR_FAIL_COND(cond)                                                                            \
 	if (cond) {                                                                                        \
 		RLogger::log_error(__FUNCTION__, __FILE__, __LINE__, "ERR_FAIL_COND: \"" #cond "\" is true!"); \
-- 
2.43.0


From bfc33dba25c80247ed92dfdb005a002ab413f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:25 +0000
Subject: [PATCH 45/82] fix: a list, map or set assigned to itself became empty

---
 platform/sfw.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 832f750..ed2ab12 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -4149,6 +4149,10 @@ public:
 	}
 
 	void operator=(const RBMap &p_map) {
+		if (this == &p_map) {
+			return;
+		}
+
 		_copy_from(p_map);
 	}
 
@@ -4753,6 +4757,10 @@ public:
 	}
 
 	void operator=(const RBSet &p_set) {
+		if (this == &p_set) {
+			return;
+		}
+
 		_copy_from(p_set);
 	}
 
@@ -5635,6 +5643,10 @@ public:
 	 * copy the list
 	 */
 	void operator=(const List &p_list) {
+		if (this == &p_list) {
+			return;
+		}
+
 		clear();
 		const Element *it = p_list.front();
 		while (it) {
-- 
2.43.0


From 393d2a38c9d0cafbc7c27e427599703455a34b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:25 +0000
Subject: [PATCH 46/82] fix: moving a list element to before nothing cut it off
 the list

---
 platform/sfw.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index ed2ab12..86ccff7 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5765,6 +5765,11 @@ public:
 		value->next_ptr = where;
 		if (!where) {
 			value->prev_ptr = _data->last;
+			if (_data->last) {
+				_data->last->next_ptr = value;
+			} else {
+				_data->first = value;
+			}
 			_data->last = value;
 			return;
 		};
-- 
2.43.0


From 1498275cf0819a206f7c46c2dfb8d24b61dda1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:25 +0000
Subject: [PATCH 47/82] fix: a full ring buffer could not be read and an empty
 one could

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 86ccff7..433251f 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5938,7 +5938,7 @@ class RingBuffer {
 
 public:
 	T read() {
-		ERR_FAIL_COND_V(space_left() < 1, T());
+		ERR_FAIL_COND_V(data_left() < 1, T());
 		return data.ptr()[inc(read_pos, 1)];
 	};
 
-- 
2.43.0


From 5f5ba0d4f4f3e32df68711d855258e2c9f6a1f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:25 +0000
Subject: [PATCH 48/82] fix: ring buffer copy and find went wrong when asked
 for more than there is

---
 platform/sfw.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 433251f..e68115c 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5968,7 +5968,7 @@ public:
 	int copy(T *p_buf, int p_offset, int p_size) const {
 		int left = data_left();
 		if ((p_offset + p_size) > left) {
-			p_size -= left - p_offset;
+			p_size = left - p_offset;
 			if (p_size <= 0) {
 				return 0;
 			}
@@ -5994,9 +5994,9 @@ public:
 	int find(const T &t, int p_offset, int p_max_size) const {
 		int left = data_left();
 		if ((p_offset + p_max_size) > left) {
-			p_max_size -= left - p_offset;
+			p_max_size = left - p_offset;
 			if (p_max_size <= 0) {
-				return 0;
+				return -1;
 			}
 		}
 		p_max_size = MIN(left, p_max_size);
-- 
2.43.0


From 04eca31748aa9f72cd93c1c063b8b1e6b00942c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:25 +0000
Subject: [PATCH 49/82] fix: assigning an ordered hash map kept what it had
 before

---
 platform/sfw.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index e68115c..d027d1f 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -16117,6 +16117,11 @@ private:
 
 public:
 	void operator=(const OrderedHashMap &p_map) {
+		if (this == &p_map) {
+			return;
+		}
+
+		clear();
 		_copy_from(p_map);
 	}
 
-- 
2.43.0


From d7406bfad7918afbcefc4df2f20172bd9d9e62e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:25 +0000
Subject: [PATCH 50/82] fix: converting the growing arrays copied the bytes of
 elements that own something

---
 platform/sfw.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index d027d1f..cefe543 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -9609,7 +9609,9 @@ public:
 		Vector<T> ret;
 		ret.resize(size());
 		T *w = ret.ptrw();
-		memcpy(w, data, sizeof(T) * count);
+		for (U i = 0; i < count; i++) {
+			w[i] = data[i];
+		}
 		return ret;
 	}
 
@@ -9619,7 +9621,9 @@ public:
 			pl.resize(size());
 			typename PoolVector<T>::Write w = pl.write();
 			T *dest = w.ptr();
-			memcpy(dest, data, sizeof(T) * count);
+			for (U i = 0; i < count; i++) {
+				dest[i] = data[i];
+			}
 		}
 		return pl;
 	}
@@ -9898,7 +9902,9 @@ public:
 		Vector<T> ret;
 		ret.resize(size());
 		T *w = ret.ptrw();
-		memcpy(w, data, sizeof(T) * count);
+		for (U i = 0; i < count; i++) {
+			w[i] = data[i];
+		}
 		return ret;
 	}
 
@@ -9908,7 +9914,9 @@ public:
 			pl.resize(size());
 			typename PoolVector<T>::Write w = pl.write();
 			T *dest = w.ptr();
-			memcpy(dest, data, sizeof(T) * count);
+			for (U i = 0; i < count; i++) {
+				dest[i] = data[i];
+			}
 		}
 		return pl;
 	}
-- 
2.43.0


From a930d0f49f259aefdd10c534c17fe4ea14b13aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:25 +0000
Subject: [PATCH 51/82] fix: a text buffer wrote past its end when it was small
 but no longer short

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index cefe543..e2db433 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17348,7 +17348,7 @@ StringBuffer<SHORT_BUFFER_SIZE> &StringBuffer<SHORT_BUFFER_SIZE>::append(const C
 
 template <int SHORT_BUFFER_SIZE>
 StringBuffer<SHORT_BUFFER_SIZE> &StringBuffer<SHORT_BUFFER_SIZE>::reserve(int p_size) {
-	if (p_size < SHORT_BUFFER_SIZE || p_size < buffer.size()) {
+	if ((p_size < SHORT_BUFFER_SIZE && buffer.empty()) || p_size < buffer.size()) {
 		return *this;
 	}
 
-- 
2.43.0


From 93e9b366e9c697d1d9e02e43245d9668ec145cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:57 +0000
Subject: [PATCH 52/82] fix: an ordered hash map element that was not found had
 garbage for neighbours

---
 platform/sfw.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index e2db433..969cd14 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -15894,6 +15894,9 @@ public:
 			if (list_element) {
 				next_element = list_element->next();
 				prev_element = list_element->prev();
+			} else {
+				next_element = nullptr;
+				prev_element = nullptr;
 			}
 		}
 
-- 
2.43.0


From 64c2d6950dd9c5028a05e34f7d05696b8dad4715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:21 +0000
Subject: [PATCH 53/82] fix: shrinking an empty local vector ended the program

---
 platform/sfw.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 969cd14..9a488dc 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -9802,6 +9802,10 @@ public:
 	_FORCE_INLINE_ void reserve(U p_size, bool p_allow_shrink = false) {
 		p_size = nearest_power_of_2_templated(p_size);
 		if (!p_allow_shrink ? p_size > capacity : ((p_size >= count) && (p_size != capacity))) {
+			if (p_size == 0) {
+				reset();
+				return;
+			}
 			capacity = p_size;
 			data = (T *)memrealloc(data, capacity * sizeof(T));
 			CRASH_COND_MSG(!data, "Out of memory");
-- 
2.43.0


From cd7f33f8b0ff2e7537c6905a05d7eb2229b12d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 54/82] fix: a vector's element-wise division wrote its result
 nowhere

---
 core/mlpp_vector.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 7d1a81f..6d1c497 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -422,14 +422,11 @@ void MLPPVector::hadamard_productb(const Ref<MLPPVector> &a, const Ref<MLPPVecto
 void MLPPVector::division_element_wise(const Ref<MLPPVector> &b) {
 	ERR_FAIL_COND(!b.is_valid());
 
-	Ref<MLPPVector> out;
-	out.instance();
-
 	ERR_FAIL_COND(_size != b->size());
 
 	const real_t *a_ptr = ptr();
 	const real_t *b_ptr = b->ptr();
-	real_t *out_ptr = out->ptrw();
+	real_t *out_ptr = ptrw();
 
 	for (int i = 0; i < _size; ++i) {
 		out_ptr[i] = a_ptr[i] / b_ptr[i];
-- 
2.43.0


From e999a26fb7ffa08935d69036d565fd589d62460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 55/82] fix: a vector's cosine in place was its square root

---
 core/mlpp_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 6d1c497..a241e33 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -1029,7 +1029,7 @@ void MLPPVector::cos() {
 	real_t *out_ptr = ptrw();
 
 	for (int i = 0; i < _size; ++i) {
-		out_ptr[i] = Math::sqrt(out_ptr[i]);
+		out_ptr[i] = Math::cos(out_ptr[i]);
 	}
 }
 Ref<MLPPVector> MLPPVector::cosn() const {
-- 
2.43.0


From 2b1504f3c7518f478ce51f7c24496d31cea3f920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 56/82] fix: joining vectors into one of them wrote past its
 end

---
 core/mlpp_vector.cpp | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index a241e33..a28ae79 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -314,29 +314,9 @@ bool MLPPVector::is_equal_approx(const Ref<MLPPVector> &p_with, real_t tolerance
 }
 
 void MLPPVector::flatten_vectors(const Vector<Ref<MLPPVector>> &A) {
-	int vsize = 0;
-	for (int i = 0; i < A.size(); ++i) {
-		vsize += A[i]->size();
-	}
-
-	resize(vsize);
-
-	int a_index = 0;
-	real_t *a_ptr = ptrw();
-
-	for (int i = 0; i < A.size(); ++i) {
-		const Ref<MLPPVector> &r = A[i];
-
-		int r_size = r->size();
-		const real_t *r_ptr = r->ptr();
-
-		for (int j = 0; j < r_size; ++j) {
-			a_ptr[a_index] = r_ptr[j];
-			++a_index;
-		}
-	}
+	// This vector can be one of those in A.
+	set_from_mlpp_vector(flatten_vectorsn(A));
 }
-
 Ref<MLPPVector> MLPPVector::flatten_vectorsn(const Vector<Ref<MLPPVector>> &A) const {
 	Ref<MLPPVector> a;
 	a.instance();
-- 
2.43.0


From 04bad9a4c0fe9f53e5994b83bb232b0e1ad20d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 57/82] fix: erasing every one of a value read released memory
 when it was an element itself

---
 core/mlpp_vector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index a28ae79..b8d30fc 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -135,10 +135,11 @@ void MLPPVector::erase(const real_t &p_val) {
 }
 
 int MLPPVector::erase_multiple_unordered(const real_t &p_val) {
+	const real_t val = p_val; // It can be an element of this vector.
 	int from = 0;
 	int count = 0;
 	while (true) {
-		int64_t idx = find(p_val, from);
+		int64_t idx = find(val, from);
 
 		if (idx == -1) {
 			break;
-- 
2.43.0


From 47f5b8d57949a9bbad8c4a055e6470781b196ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 58/82] fix: a vector's scalar multiplication read an operand
 that was not there

---
 core/mlpp_vector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index b8d30fc..fc12dd6 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -475,6 +475,8 @@ Ref<MLPPVector> MLPPVector::scalar_multiplyn(real_t scalar) const {
 	return out;
 }
 void MLPPVector::scalar_multiplyb(real_t scalar, const Ref<MLPPVector> &a) {
+	ERR_FAIL_COND(!a.is_valid());
+
 	int s = a->size();
 
 	if (unlikely(size() != s)) {
-- 
2.43.0


From a34555bab58de07337c04ebee585bcfb7e10c024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 59/82] fix: a matrix's scalar operations into another took the
 target for the operand

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 70787b4..6576471 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1194,7 +1194,7 @@ void MLPPMatrix::scalar_multiplyb(const real_t scalar, const Ref<MLPPMatrix> &A)
 	}
 
 	int ds = data_size();
-	real_t *an_ptr = ptrw();
+	const real_t *an_ptr = A->ptr();
 
 	for (int i = 0; i < ds; ++i) {
 		_data[i] = an_ptr[i] * scalar;
@@ -1227,7 +1227,7 @@ void MLPPMatrix::scalar_addb(const real_t scalar, const Ref<MLPPMatrix> &A) {
 	}
 
 	int ds = data_size();
-	real_t *an_ptr = ptrw();
+	const real_t *an_ptr = A->ptr();
 
 	for (int i = 0; i < ds; ++i) {
 		_data[i] = an_ptr[i] + scalar;
-- 
2.43.0


From 7961d90263aebce1a43c4695b9e507f26a69f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 60/82] fix: a matrix product into one of its operands was
 wrong

---
 core/mlpp_matrix.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 6576471..fbeb1fe 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -782,6 +782,11 @@ void MLPPMatrix::mult(const Ref<MLPPMatrix> &B) {
 
 	ERR_FAIL_COND(_size.x != b_size.y);
 
+	if (B.ptr() == this) {
+		set_from_mlpp_matrix(multn(B));
+		return;
+	}
+
 	Ref<MLPPMatrix> A = duplicate_fast();
 	Size2i a_size = A->size();
 
@@ -851,6 +856,11 @@ void MLPPMatrix::multb(const Ref<MLPPMatrix> &A, const Ref<MLPPMatrix> &B) {
 
 	ERR_FAIL_COND_MSG(a_size.x != b_size.y, "a_size.x != b_size.y: a_size: " + a_size.operator String() + " b_size: " + b_size.operator String());
 
+	if (A.ptr() == this || B.ptr() == this) {
+		set_from_mlpp_matrix(A->multn(B));
+		return;
+	}
+
 	Size2i rs = Size2i(b_size.x, a_size.y);
 
 	if (unlikely(_size != rs)) {
-- 
2.43.0


From cc33294b22dcc05e04676b24626c6bf2d3a512b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 61/82] fix: a matrix's Kronecker product in place wrote past
 its end

---
 core/mlpp_matrix.cpp | 52 ++------------------------------------------
 1 file changed, 2 insertions(+), 50 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index fbeb1fe..83aee4c 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -956,33 +956,8 @@ void MLPPMatrix::kronecker_product(const Ref<MLPPMatrix> &B) {
 	//                   A[0].size() * B[0].size()
 
 	ERR_FAIL_COND(!B.is_valid());
-	Size2i a_size = size();
-	Size2i b_size = B->size();
-
-	Ref<MLPPMatrix> A = duplicate_fast();
-
-	resize(Size2i(b_size.x * a_size.x, b_size.y * a_size.y));
-
-	const real_t *a_ptr = A->ptr();
-
-	Ref<MLPPVector> row_tmp;
-	row_tmp.instance();
-	row_tmp->resize(b_size.x);
 
-	for (int i = 0; i < _size.y; ++i) {
-		for (int j = 0; j < b_size.y; ++j) {
-			B->row_get_into_mlpp_vector(j, row_tmp);
-
-			Vector<Ref<MLPPVector>> row;
-			for (int k = 0; k < _size.x; ++k) {
-				row.push_back(row_tmp->scalar_multiplyn(a_ptr[A->calculate_index(i, k)]));
-			}
-
-			Ref<MLPPVector> flattened_row = row_tmp->flatten_vectorsn(row);
-
-			row_set_mlpp_vector(i * b_size.y + j, flattened_row);
-		}
-	}
+	set_from_mlpp_matrix(kronecker_productn(B));
 }
 Ref<MLPPMatrix> MLPPMatrix::kronecker_productn(const Ref<MLPPMatrix> &B) const {
 	// [1,1,1,1]   [1,2,3,4,5]
@@ -1046,31 +1021,8 @@ void MLPPMatrix::kronecker_productb(const Ref<MLPPMatrix> &A, const Ref<MLPPMatr
 	//                   A[0].size() * B[0].size()
 
 	ERR_FAIL_COND(!A.is_valid() || !B.is_valid());
-	Size2i a_size = A->size();
-	Size2i b_size = B->size();
-
-	resize(Size2i(b_size.x * a_size.x, b_size.y * a_size.y));
 
-	const real_t *a_ptr = A->ptr();
-
-	Ref<MLPPVector> row_tmp;
-	row_tmp.instance();
-	row_tmp->resize(b_size.x);
-
-	for (int i = 0; i < a_size.y; ++i) {
-		for (int j = 0; j < b_size.y; ++j) {
-			B->row_get_into_mlpp_vector(j, row_tmp);
-
-			Vector<Ref<MLPPVector>> row;
-			for (int k = 0; k < a_size.x; ++k) {
-				row.push_back(row_tmp->scalar_multiplyn(a_ptr[A->calculate_index(i, k)]));
-			}
-
-			Ref<MLPPVector> flattened_row = row_tmp->flatten_vectorsn(row);
-
-			row_set_mlpp_vector(i * b_size.y + j, flattened_row);
-		}
-	}
+	set_from_mlpp_matrix(A->kronecker_productn(B));
 }
 
 void MLPPMatrix::division_element_wise(const Ref<MLPPMatrix> &B) {
-- 
2.43.0


From a7828bd6df00d551f562dd81b28ec08241b93cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 62/82] fix: transposing a matrix into itself was wrong

---
 core/mlpp_matrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 83aee4c..1b85b5c 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1112,6 +1112,11 @@ Ref<MLPPMatrix> MLPPMatrix::transposen() const {
 void MLPPMatrix::transposeb(const Ref<MLPPMatrix> &A) {
 	ERR_FAIL_COND(!A.is_valid());
 
+	if (A.ptr() == this) {
+		transpose();
+		return;
+	}
+
 	Size2i a_size = A->size();
 
 	Size2i s = Size2i(a_size.y, a_size.x);
-- 
2.43.0


From c48ed9c760a98b0102e7e3ca162601f07b044845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 63/82] fix: filling a matrix from memory lost what it had
 before

---
 core/mlpp_matrix.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 1b85b5c..0167438 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -592,8 +592,6 @@ void MLPPMatrix::set_from_arrays(const Array &p_from) {
 }
 
 void MLPPMatrix::set_from_ptr(const real_t *p_from, const int p_size_y, const int p_size_x) {
-	_data = NULL;
-
 	ERR_FAIL_COND(!p_from);
 
 	resize(Size2i(p_size_x, p_size_y));
-- 
2.43.0


From 17219db5920e324628cb1ed7e763cef4aad7afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 64/82] fix: the rotation matrices in the plane and around the
 third axis were no rotations

---
 core/mlpp_matrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 0167438..a0dedb8 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1878,7 +1878,7 @@ Ref<MLPPMatrix> MLPPMatrix::create_rotation_matrix(real_t theta, int axis) {
 		rptr[rotation_matrix->calculate_index(0, 0)] = Math::cos(theta);
 		rptr[rotation_matrix->calculate_index(0, 1)] = -Math::sin(theta);
 
-		rptr[rotation_matrix->calculate_index(1, 0)] = Math::cos(theta);
+		rptr[rotation_matrix->calculate_index(1, 0)] = Math::sin(theta);
 		rptr[rotation_matrix->calculate_index(1, 1)] = Math::cos(theta);
 	} else if (axis == 0) {
 		rotation_matrix->resize(Size2(3, 3));
@@ -1923,9 +1923,9 @@ Ref<MLPPMatrix> MLPPMatrix::create_rotation_matrix(real_t theta, int axis) {
 		rptr[rotation_matrix->calculate_index(1, 1)] = Math::cos(theta);
 		rptr[rotation_matrix->calculate_index(1, 2)] = 0;
 
-		rptr[rotation_matrix->calculate_index(2, 0)] = 1;
+		rptr[rotation_matrix->calculate_index(2, 0)] = 0;
 		rptr[rotation_matrix->calculate_index(2, 1)] = 0;
-		rptr[rotation_matrix->calculate_index(2, 2)] = 0;
+		rptr[rotation_matrix->calculate_index(2, 2)] = 1;
 	}
 
 	return rotation_matrix;
-- 
2.43.0


From f718830376ae185e29e87278a5fb28668316714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 65/82] fix: a matrix's pseudo-inverse squared the matrix
 instead of its Gram matrix

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index a0dedb8..210b57b 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1747,12 +1747,12 @@ void MLPPMatrix::inverseo(Ref<MLPPMatrix> out) const {
 }
 
 Ref<MLPPMatrix> MLPPMatrix::pinverse() const {
-	return multn(Ref<MLPPMatrix>(this))->transposen()->inverse()->multn(transposen());
+	return transposen()->multn(Ref<MLPPMatrix>(this))->inverse()->multn(transposen());
 }
 void MLPPMatrix::pinverseo(Ref<MLPPMatrix> out) const {
 	ERR_FAIL_COND(!out.is_valid());
 
-	out->set_from_mlpp_matrix(multn(Ref<MLPPMatrix>(this))->transposen()->inverse()->multn(transposen()));
+	out->set_from_mlpp_matrix(transposen()->multn(Ref<MLPPMatrix>(this))->inverse()->multn(transposen()));
 }
 
 Ref<MLPPMatrix> MLPPMatrix::matn_zero(int n, int m) const {
-- 
2.43.0


From 00b0e8d9a19d2b780a84960a9242e35e6af17f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 66/82] fix: a matrix and vector product into that vector was
 wrong

---
 core/mlpp_matrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 210b57b..fe79c6b 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2702,6 +2702,11 @@ void MLPPMatrix::mult_veco(const Ref<MLPPVector> &b, Ref<MLPPVector> out) {
 
 	ERR_FAIL_COND(_size.x < b->size());
 
+	if (out == b) {
+		out->set_from_mlpp_vector(mult_vec(b));
+		return;
+	}
+
 	if (unlikely(out->size() != _size.y)) {
 		out->resize(_size.y);
 	}
-- 
2.43.0


From fc5e46dac5f90890f7734f659ae2b947f858f0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 67/82] fix: a matrix's adjoint into itself was wrong

---
 core/mlpp_matrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index fe79c6b..2f43663 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1705,6 +1705,11 @@ void MLPPMatrix::adjointo(Ref<MLPPMatrix> out) const {
 
 	ERR_FAIL_COND(_size.x != _size.y);
 
+	if (out.ptr() == this) {
+		out->set_from_mlpp_matrix(adjoint());
+		return;
+	}
+
 	//Resizing the initial adjoint matrix
 
 	if (unlikely(out->size() != _size)) {
-- 
2.43.0


From 2c40cdfe201d6af76f8eab312937e6e4def516d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 68/82] fix: a matrix's covariance went by its width where it
 goes by its rows

---
 core/mlpp_matrix.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 2f43663..3e5fd02 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2149,7 +2149,7 @@ Ref<MLPPMatrix> MLPPMatrix::cov() const {
 	Ref<MLPPMatrix> cov_mat;
 	cov_mat.instance();
 
-	cov_mat->resize(_size);
+	cov_mat->resize(Size2i(_size.y, _size.y));
 
 	Ref<MLPPVector> a_i_row_tmp;
 	a_i_row_tmp.instance();
@@ -2162,7 +2162,7 @@ Ref<MLPPMatrix> MLPPMatrix::cov() const {
 	for (int i = 0; i < _size.y; ++i) {
 		row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < _size.x; ++j) {
+		for (int j = 0; j < _size.y; ++j) {
 			row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			cov_mat->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
@@ -2176,8 +2176,8 @@ void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 
 	MLPPStat stat;
 
-	if (unlikely(out->size() != _size)) {
-		out->resize(_size);
+	if (unlikely(out->size() != Size2i(_size.y, _size.y))) {
+		out->resize(Size2i(_size.y, _size.y));
 	}
 
 	Ref<MLPPVector> a_i_row_tmp;
@@ -2191,7 +2191,7 @@ void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 	for (int i = 0; i < _size.y; ++i) {
 		row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < _size.x; ++j) {
+		for (int j = 0; j < _size.y; ++j) {
 			row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			out->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
-- 
2.43.0


From 1a8ac388001afc44e4cfc949a78cfa7e1aca91bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 69/82] fix: resetting a matrix or tensor without rows or
 slices kept its size

---
 core/mlpp_matrix.h  | 3 ++-
 core/mlpp_tensor3.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.h b/core/mlpp_matrix.h
index 5865b52..bfbe53b 100644
--- a/core/mlpp_matrix.h
+++ b/core/mlpp_matrix.h
@@ -80,8 +80,9 @@ public:
     if (_data) {
       memfree(_data);
       _data = NULL;
-      _size = Vector2i();
     }
+
+    _size = Vector2i();
   }
 
   _FORCE_INLINE_ bool empty() const { return data_size() == 0; }
diff --git a/core/mlpp_tensor3.h b/core/mlpp_tensor3.h
index a0c30f5..26f4712 100644
--- a/core/mlpp_tensor3.h
+++ b/core/mlpp_tensor3.h
@@ -81,8 +81,9 @@ public:
     if (_data) {
       memfree(_data);
       _data = NULL;
-      _size = Size3i();
     }
+
+    _size = Size3i();
   }
 
   _FORCE_INLINE_ bool empty() const { return _size == Size3i(); }
-- 
2.43.0


From adc36d22003e8d9857e8147221a2c4b61c94a8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 70/82] fix: a tensor's row came from its first slice whichever
 was asked for

---
 core/mlpp_tensor3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 87a6e71..fcf0b1a 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -287,7 +287,7 @@ Vector<real_t> MLPPTensor3::row_get_vector(int p_index_z, int p_index_y) const {
 
   ret.resize(_size.x);
 
-  int ind_start = p_index_y * _size.x;
+  int ind_start = p_index_y * _size.x + _size.x * _size.y * p_index_z;
 
   real_t *row_ptr = ret.ptrw();
 
-- 
2.43.0


From 43bbd63b4b47dfb3e13467bbd9e124847e7ce631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 71/82] fix: removing a tensor's slice out of order read past
 its end

---
 core/mlpp_tensor3.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index fcf0b1a..e76be9a 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -222,10 +222,10 @@ void MLPPTensor3::z_slice_remove_unordered(int p_index) {
   }
 
   int start_ind = calculate_z_slice_index(p_index);
-  int end_ind = calculate_z_slice_index(p_index + 1);
+  int fmds = z_slice_data_size();
 
-  for (int i = start_ind; i < end_ind; ++i) {
-    _data[i] = _data[ds + i];
+  for (int i = 0; i < fmds; ++i) {
+    _data[start_ind + i] = _data[ds + i];
   }
 
   _data = (real_t *)memrealloc(_data, data_size() * sizeof(real_t));
-- 
2.43.0


From f8c4cbed9a64756704eec1ea74fd12485050d61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 72/82] fix: a tensor's x and y slices went along another axis
 than asked for

---
 core/mlpp_tensor3.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index e76be9a..e06f4c6 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -634,7 +634,7 @@ void MLPPTensor3::x_slice_get_into(int p_index_x,
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      target->element_set(z, y, element_get(z, p_index_x, y));
+      target->element_set(z, y, element_get(z, y, p_index_x));
     }
   }
 }
@@ -655,7 +655,7 @@ void MLPPTensor3::x_slice_set(int p_index_x, const Ref<MLPPMatrix> &p_mat) {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      element_set(z, p_index_x, y, p_mat->element_get(z, y));
+      element_set(z, y, p_index_x, p_mat->element_get(z, y));
     }
   }
 }
@@ -665,13 +665,13 @@ void MLPPTensor3::y_slice_get_into(int p_index_y,
   ERR_FAIL_INDEX(p_index_y, _size.y);
   ERR_FAIL_COND(!target.is_valid());
 
-  if (unlikely(target->size() != Size2i(_size.y, _size.z))) {
+  if (unlikely(target->size() != Size2i(_size.x, _size.z))) {
     target->resize(Size2i(_size.x, _size.z));
   }
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      target->element_set(z, x, element_get(z, x, p_index_y));
+      target->element_set(z, x, element_get(z, p_index_y, x));
     }
   }
 }
@@ -688,11 +688,11 @@ Ref<MLPPMatrix> MLPPTensor3::y_slice_get(int p_index_y) const {
 void MLPPTensor3::y_slice_set(int p_index_y, const Ref<MLPPMatrix> &p_mat) {
   ERR_FAIL_INDEX(p_index_y, _size.y);
   ERR_FAIL_COND(!p_mat.is_valid());
-  ERR_FAIL_COND(p_mat->size() != Size2i(_size.y, _size.z));
+  ERR_FAIL_COND(p_mat->size() != Size2i(_size.x, _size.z));
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      element_set(z, x, p_index_y, p_mat->element_get(z, x));
+      element_set(z, p_index_y, x, p_mat->element_get(z, x));
     }
   }
 }
-- 
2.43.0


From 99dae9b255657db6f87210c30aebb06d96af6988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 73/82] fix: a tensor's x and y slices came into and out of
 images along another axis

---
 core/mlpp_tensor3.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index e06f4c6..177a3c3 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -1152,7 +1152,7 @@ Ref<Image> MLPPTensor3::x_slice_get_image(const int p_index_x) const {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      wptr[i] = static_cast<uint8_t>(element_get(z, p_index_x, y) * 255.0);
+      wptr[i] = static_cast<uint8_t>(element_get(z, y, p_index_x) * 255.0);
 
       ++i;
     }
@@ -1215,8 +1215,8 @@ void MLPPTensor3::x_slice_get_into_image(Ref<Image> p_target,
 
   p_target->lock();
 
-  for (int y = 0; y < fms.y; ++y) {
-    for (int z = 0; z < fms.x; ++z) {
+  for (int z = 0; z < fms.y; ++z) {
+    for (int y = 0; y < fms.x; ++y) {
       Color c;
 
       float e = element_get(z, y, p_index_x);
@@ -1225,7 +1225,7 @@ void MLPPTensor3::x_slice_get_into_image(Ref<Image> p_target,
         c[channels[i]] = e;
       }
 
-      p_target->set_pixel(z, y, c);
+      p_target->set_pixel(y, z, c);
     }
   }
 
@@ -1257,9 +1257,9 @@ void MLPPTensor3::x_slice_set_image(const Ref<Image> &p_img,
 
   img->lock();
 
-  for (int y = 0; y < fms.y; ++y) {
-    for (int z = 0; z < fms.x; ++z) {
-      Color c = img->get_pixel(z, y);
+  for (int z = 0; z < fms.y; ++z) {
+    for (int y = 0; y < fms.x; ++y) {
+      Color c = img->get_pixel(y, z);
 
       element_set(z, y, p_index_x, c[channel_index]);
     }
@@ -1287,7 +1287,7 @@ Ref<Image> MLPPTensor3::y_slice_get_image(const int p_index_y) const {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      wptr[i] = static_cast<uint8_t>(element_get(z, x, p_index_y) * 255.0);
+      wptr[i] = static_cast<uint8_t>(element_get(z, p_index_y, x) * 255.0);
 
       ++i;
     }
@@ -1350,8 +1350,8 @@ void MLPPTensor3::y_slice_get_into_image(Ref<Image> p_target,
 
   p_target->lock();
 
-  for (int x = 0; x < fms.y; ++x) {
-    for (int z = 0; z < fms.x; ++z) {
+  for (int z = 0; z < fms.y; ++z) {
+    for (int x = 0; x < fms.x; ++x) {
       Color c;
 
       float e = element_get(z, p_index_y, x);
@@ -1360,7 +1360,7 @@ void MLPPTensor3::y_slice_get_into_image(Ref<Image> p_target,
         c[channels[i]] = e;
       }
 
-      p_target->set_pixel(z, x, c);
+      p_target->set_pixel(x, z, c);
     }
   }
 
-- 
2.43.0


From a5ee17c529d671203a909b9efffbd1797b088872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 74/82] fix: adding an image's channels to a tensor made it
 taller and overwrote its slices

---
 core/mlpp_tensor3.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 177a3c3..ddbcdcd 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -729,18 +729,16 @@ void MLPPTensor3::z_slices_add_image(const Ref<Image> &p_img,
   ERR_FAIL_COND(channel_count == 0);
 
   if (unlikely(_size == Size3i())) {
-    resize(Size3i(img_size.x, img_size.y, channel_count));
+    resize(Size3i(img_size.x, img_size.y, 0));
   }
 
   Size2i fms = z_slice_size();
 
   ERR_FAIL_COND(img_size != fms);
 
-  int start_channel = _size.y;
+  int start_channel = _size.z;
 
-  _size.y += channel_count;
-
-  resize(_size);
+  resize(Size3i(_size.x, _size.y, _size.z + channel_count));
 
   Ref<Image> img = p_img;
 
-- 
2.43.0


From cbb321904963769cccd2747eb5dabee74198453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:26 +0000
Subject: [PATCH 75/82] fix: scaling or shifting another tensor into this one
 used its own old contents

---
 core/mlpp_tensor3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index ddbcdcd..fee03ec 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -1677,7 +1677,7 @@ void MLPPTensor3::scalar_multiplyb(const real_t scalar,
   }
 
   int ds = data_size();
-  real_t *an_ptr = ptrw();
+  const real_t *an_ptr = A->ptr();
 
   for (int i = 0; i < ds; ++i) {
     _data[i] = an_ptr[i] * scalar;
@@ -1710,7 +1710,7 @@ void MLPPTensor3::scalar_addb(const real_t scalar, const Ref<MLPPTensor3> &A) {
   }
 
   int ds = data_size();
-  real_t *an_ptr = ptrw();
+  const real_t *an_ptr = A->ptr();
 
   for (int i = 0; i < ds; ++i) {
     _data[i] = an_ptr[i] + scalar;
-- 
2.43.0


From a5b9f0941bd221f08fb9d23e4e282c72778da7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:26 +0000
Subject: [PATCH 76/82] fix: a tensor with no elements but some rows or columns
 said it was not empty

---
 core/mlpp_tensor3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.h b/core/mlpp_tensor3.h
index 26f4712..46a985e 100644
--- a/core/mlpp_tensor3.h
+++ b/core/mlpp_tensor3.h
@@ -86,7 +86,7 @@ public:
     _size = Size3i();
   }
 
-  _FORCE_INLINE_ bool empty() const { return _size == Size3i(); }
+  _FORCE_INLINE_ bool empty() const { return data_size() == 0; }
   _FORCE_INLINE_ int z_slice_data_size() const { return _size.x * _size.y; }
   _FORCE_INLINE_ Size2i z_slice_size() const {
     return Size2i(_size.x, _size.y);
-- 
2.43.0


From b0f521cc958dd904d3095212aee7d42b5104f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:09 +0000
Subject: [PATCH 77/82] fix: making a box or projection value zero wrote over
 its pointer and beyond the value

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 203fb9e..606e86d 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -21411,13 +21411,13 @@ void Variant::zero() {
 			*reinterpret_cast<Quaternion *>(this->_data._mem) = Quaternion();
 			break;
 		case AABB:
-			*reinterpret_cast<::AABB *>(this->_data._mem) = ::AABB();
+			*this->_data._aabb = ::AABB();
 			break;
 		case COLOR:
 			*reinterpret_cast<Color *>(this->_data._mem) = Color();
 			break;
 		case PROJECTION:
-			*reinterpret_cast<Projection *>(this->_data._mem) = Projection();
+			*this->_data._projection = Projection();
 			break;
 		default:
 			this->clear();
-- 
2.43.0


From 19f4ae1e80cb1b41608c87a2eb9d00ff825addd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:09 +0000
Subject: [PATCH 78/82] fix: replacing a list or dictionary value by an element
 it holds read the element after its release

---
 platform/sfw.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 606e86d..e155a22 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -23067,6 +23067,13 @@ void Variant::operator=(const Variant &p_variant) {
 	}
 
 	if (unlikely(type != p_variant.type)) {
+		if (type == ARRAY || type == DICTIONARY) {
+			// The new value may be an element that only this one keeps alive.
+			Variant value(p_variant);
+			reference(value);
+			return;
+		}
+
 		reference(p_variant);
 		return;
 	}
-- 
2.43.0


From c2837443d98a63fd25e6a96a0cf5be5b6e7684f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 79/82] fix: the names that object properties and value members
 are looked up by were never created

---
 platform/sfw.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e155a22..bbb468a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18517,6 +18517,7 @@ void SFWCore::setup() {
 	_initialized = true;
 
 	StringName::setup();
+	CoreStringNames::create();
 	MemoryPool::setup();
 }
 
@@ -18527,6 +18528,7 @@ void SFWCore::cleanup() {
 
 	_initialized = false;
 
+	CoreStringNames::free();
 	StringName::cleanup();
 	MemoryPool::cleanup();
 }
-- 
2.43.0


From 1bcfac0d4fdaadcb7a3b1f3b8724a9352ade9657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:18 +0000
Subject: [PATCH 80/82] fix: setting a component of an integer vector value by
 its name wrote the bits of a real number

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index bbb468a..3c7fc72 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -26446,7 +26446,7 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 			} else if (p_index.get_type() == Variant::STRING) {
 				//scalar name
 				const String *str = reinterpret_cast<const String *>(p_index._data._mem);
-				Vector3 *v = reinterpret_cast<Vector3 *>(_data._mem);
+				Vector3i *v = reinterpret_cast<Vector3i *>(_data._mem);
 				if (*str == "x") {
 					valid = true;
 					v->x = p_value;
@@ -26561,7 +26561,7 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 			} else if (p_index.get_type() == Variant::STRING) {
 				//scalar name
 				const String *str = reinterpret_cast<const String *>(p_index._data._mem);
-				Vector4 *v = reinterpret_cast<Vector4 *>(_data._mem);
+				Vector4i *v = reinterpret_cast<Vector4i *>(_data._mem);
 				if (*str == "x") {
 					valid = true;
 					v->x = p_value;
-- 
2.43.0


From 602b5ee24df35eac14ccc61d6ad7e65bc5a1beb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:18 +0000
Subject: [PATCH 81/82] fix: no column of a 2D transform value could be set by
 index or by name

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3c7fc72..9acc13e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -26896,7 +26896,7 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 
 		} break;
 		case TRANSFORM2D: {
-			if (p_value.type != Variant::VECTOR2 || p_value.get_type() != Variant::VECTOR2I) {
+			if (p_value.type != Variant::VECTOR2 && p_value.type != Variant::VECTOR2I) {
 				return;
 			}
 
-- 
2.43.0


From 0a38446d64a609e2fa6757a88fc02909e4c49e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:18 +0000
Subject: [PATCH 82/82] fix: no component of a color value could be read by a
 name that is a StringName

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 9acc13e..d187764 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -27864,7 +27864,7 @@ Variant Variant::get(const Variant &p_index, bool *r_valid) const {
 					valid = true;
 					return (*v)[idx];
 				}
-			} else if (p_index.get_type() == Variant::STRING) {
+			} else if (p_index.get_type() == Variant::STRING_NAME) {
 				const Color *v = reinterpret_cast<const Color *>(_data._mem);
 				if (p_index == CoreStringNames::singleton->r) {
 					valid = true;
-- 
2.43.0

