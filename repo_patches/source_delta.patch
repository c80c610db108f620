From 313b6312f2e7c219bba372da808d5530c5b7bc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:26 +0000
Subject: [PATCH 01/28] fix: ArrayBuilder::resize() must not count an element
 whose constructor threw

resize() advanced the end pointer before constructing the element, so when the
constructor threw, the builder's destructor destroyed an element that had never
been constructed.
---
 c++/src/kj/array.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c++/src/kj/array.h b/c++/src/kj/array.h
index 1c4d333..1755680 100644
--- a/c++/src/kj/array.h
+++ b/c++/src/kj/array.h
@@ -502,7 +502,10 @@ public:
         pos = const_cast<RemoveConst<T>*>(target);
       } else {
         while (pos < target) {
-          kj::ctor(*pos++);
+          // Don't advance `pos` until construction succeeds, otherwise an exception would leave us
+          // destroying an element that was never constructed.
+          kj::ctor(*pos);
+          ++pos;
         }
       }
     } else {
-- 
2.43.0


From 3a74c018c7cff42b51201de813d37dbe820d407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:26 +0000
Subject: [PATCH 02/28] fix: transfer before disposing in Array and
 ArrayBuilder move assignment

The old contents may own the source of the assignment, as in
`nodes = kj::mv(nodes[0].children)`. Disposing them first made the assignment read
freed memory. Do what Own<T> already does: transfer the pointers, then dispose.
---
 c++/src/kj/array.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/c++/src/kj/array.h b/c++/src/kj/array.h
index 1755680..3f4b0dc 100644
--- a/c++/src/kj/array.h
+++ b/c++/src/kj/array.h
@@ -249,12 +249,19 @@ public:
   }
 
   inline Array& operator=(Array&& other) {
-    dispose();
+    // Careful, our elements might own `other`.  Therefore we have to transfer the pointers first,
+    // then dispose.
+    T* ptrCopy = ptr;
+    size_t sizeCopy = size_;
+    const ArrayDisposer* disposerCopy = disposer;
     ptr = other.ptr;
     size_ = other.size_;
     disposer = other.disposer;
     other.ptr = nullptr;
     other.size_ = 0;
+    if (ptrCopy != nullptr) {
+      disposerCopy->dispose(ptrCopy, sizeCopy, sizeCopy);
+    }
     return *this;
   }
 
@@ -427,7 +434,12 @@ public:
   inline T& back() KJ_LIFETIMEBOUND { return *(pos - 1); }
 
   ArrayBuilder& operator=(ArrayBuilder&& other) {
-    dispose();
+    // Careful, our elements might own `other`.  Therefore we have to transfer the pointers first,
+    // then dispose.
+    T* ptrCopy = ptr;
+    T* posCopy = pos;
+    T* endCopy = endPtr;
+    const ArrayDisposer* disposerCopy = disposer;
     ptr = other.ptr;
     pos = other.pos;
     endPtr = other.endPtr;
@@ -435,6 +447,9 @@ public:
     other.ptr = nullptr;
     other.pos = nullptr;
     other.endPtr = nullptr;
+    if (ptrCopy != nullptr) {
+      disposerCopy->dispose(ptrCopy, posCopy - ptrCopy, endCopy - ptrCopy);
+    }
     return *this;
   }
   ArrayBuilder& operator=(decltype(nullptr)) {
-- 
2.43.0


From 16114fdfe54d5f7570f117d2a1258ae00524c522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:34 +0000
Subject: [PATCH 03/28] fix: initialize the tag when converting an empty OneOf
 to a wider OneOf

---
 c++/src/kj/one-of.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c++/src/kj/one-of.h b/c++/src/kj/one-of.h
index b248f21..79f96de 100644
--- a/c++/src/kj/one-of.h
+++ b/c++/src/kj/one-of.h
@@ -608,6 +608,7 @@ private:
   }
   template <typename... OtherVariants>
   void copyFromSubset(const OneOf<OtherVariants...>& other) {
+    tag = 0;
     doAll(copySubsetVariantFrom<OtherVariants>(other)...);
   }
 
@@ -621,6 +622,7 @@ private:
   }
   template <typename... OtherVariants>
   void copyFromSubset(OneOf<OtherVariants...>& other) {
+    tag = 0;
     doAll(copySubsetVariantFrom<OtherVariants>(other)...);
   }
 
@@ -636,6 +638,7 @@ private:
   template <typename... OtherVariants>
   void moveFromSubset(OneOf<OtherVariants...>& other)
       noexcept((kj::isNoThrowMoveConstructible<OtherVariants>() && ...)) {
+    tag = 0;
     doAll(moveSubsetVariantFrom<OtherVariants>(other)...);
   }
 };
-- 
2.43.0


From 63363dfda66a399994e4979c5af5dfaf3f13c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:34 +0000
Subject: [PATCH 04/28] fix: OneOf assignment must not claim a value whose
 constructor threw

---
 c++/src/kj/one-of.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/c++/src/kj/one-of.h b/c++/src/kj/one-of.h
index 79f96de..d9cc657 100644
--- a/c++/src/kj/one-of.h
+++ b/c++/src/kj/one-of.h
@@ -543,13 +543,14 @@ private:
   inline bool copyVariantFrom(const OneOf& other) {
     if (other.is<T>()) {
       ctor(*reinterpret_cast<T*>(space), other.get<T>());
+      tag = typeIndex<T>();
     }
     return false;
   }
   void copyFrom(const OneOf& other) {
     // Initialize as a copy of `other`.  Expects that `this` starts out uninitialized, so the tag
     // is invalid.
-    tag = other.tag;
+    tag = 0;  // set once the value has been constructed; its constructor may throw
     doAll(copyVariantFrom<Variants>(other)...);
   }
 
@@ -557,13 +558,14 @@ private:
   inline bool copyVariantFrom(OneOf& other) {
     if (other.is<T>()) {
       ctor(*reinterpret_cast<T*>(space), other.get<T>());
+      tag = typeIndex<T>();
     }
     return false;
   }
   void copyFrom(OneOf& other) {
     // Initialize as a copy of `other`.  Expects that `this` starts out uninitialized, so the tag
     // is invalid.
-    tag = other.tag;
+    tag = 0;  // set once the value has been constructed; its constructor may throw
     doAll(copyVariantFrom<Variants>(other)...);
   }
 
@@ -588,21 +590,22 @@ private:
   inline bool moveVariantFrom(OneOf& other) {
     if (other.is<T>()) {
       ctor(*reinterpret_cast<T*>(space), kj::mv(other.get<T>()));
+      tag = typeIndex<T>();
     }
     return false;
   }
   void moveFrom(OneOf& other) noexcept((kj::isNoThrowMoveConstructible<Variants>() && ...)) {
     // Initialize as a copy of `other`.  Expects that `this` starts out uninitialized, so the tag
     // is invalid.
-    tag = other.tag;
+    tag = 0;  // set once the value has been constructed; its constructor may throw
     doAll(moveVariantFrom<Variants>(other)...);
   }
 
   template <typename T, typename... OtherVariants>
   inline bool copySubsetVariantFrom(const OneOf<OtherVariants...>& other) {
     if (other.template is<T>()) {
-      tag = typeIndex<Decay<T>>();
       ctor(*reinterpret_cast<T*>(space), other.template get<T>());
+      tag = typeIndex<Decay<T>>();
     }
     return false;
   }
@@ -615,8 +618,8 @@ private:
   template <typename T, typename... OtherVariants>
   inline bool copySubsetVariantFrom(OneOf<OtherVariants...>& other) {
     if (other.template is<T>()) {
-      tag = typeIndex<Decay<T>>();
       ctor(*reinterpret_cast<T*>(space), other.template get<T>());
+      tag = typeIndex<Decay<T>>();
     }
     return false;
   }
@@ -630,8 +633,8 @@ private:
   inline bool moveSubsetVariantFrom(OneOf<OtherVariants...>& other)
       noexcept(kj::isNoThrowMoveConstructible<T>()) {
     if (other.template is<T>()) {
-      tag = typeIndex<Decay<T>>();
       ctor(*reinterpret_cast<T*>(space), kj::mv(other.template get<T>()));
+      tag = typeIndex<Decay<T>>();
     }
     return false;
   }
-- 
2.43.0


From 91b12d6ae92ed9cf27803b945334a1ad89a926ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:34 +0000
Subject: [PATCH 05/28] fix: don't destroy a moved niche Maybe value twice when
 the source's destructor throws

---
 c++/src/kj/common.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c++/src/kj/common.h b/c++/src/kj/common.h
index 4974f86..7d8716b 100644
--- a/c++/src/kj/common.h
+++ b/c++/src/kj/common.h
@@ -1494,8 +1494,9 @@ public:
   inline NullableValue(T& t): value(t) {}
   inline NullableValue(const T& t): value(t) {}
 
-  inline NullableValue(NullableValue&& other) requires(NoneIsMoveSafe<T>)
-      : value(kj::mv(other.value)) {
+  inline NullableValue(NullableValue&& other) requires(NoneIsMoveSafe<T>) {
+    // Not a member initializer: the compiler would then destroy `value` too if we throw below.
+    ctor(value, kj::mv(other.value));
     if (!isNone(other.value)) {
       try {
         other.destroy();
-- 
2.43.0


From c76ca49695fd3d9afe34e5753ccc5bc4c2cab394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:12 +0000
Subject: [PATCH 06/28] fix: StringPtr/Text::Builder slice(start) must reject
 start one past the terminator

---
 c++/src/capnp/blob.h | 1 +
 c++/src/kj/string.h  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/c++/src/capnp/blob.h b/c++/src/capnp/blob.h
index d049ec7..2a3b149 100644
--- a/c++/src/capnp/blob.h
+++ b/c++/src/capnp/blob.h
@@ -197,6 +197,7 @@ inline kj::ArrayPtr<const char> Text::Builder::slice(size_t start, size_t end) c
 }
 
 inline Text::Builder Text::Builder::slice(size_t start) {
+  KJ_IREQUIRE(start < content.size(), "Out-of-bounds Text::Builder::slice().");
   return Text::Builder(content.slice(start, content.size()));
 }
 inline kj::ArrayPtr<char> Text::Builder::slice(size_t start, size_t end) {
diff --git a/c++/src/kj/string.h b/c++/src/kj/string.h
index afb2f52..f2e0fc5 100644
--- a/c++/src/kj/string.h
+++ b/c++/src/kj/string.h
@@ -725,6 +725,7 @@ inline constexpr bool StringPtr::operator< (const StringPtr& other) const {
 }
 
 inline constexpr StringPtr StringPtr::slice(size_t start) const {
+  KJ_IREQUIRE(start < content.size(), "Out-of-bounds StringPtr::slice().");
   return StringPtr(content.slice(start, content.size()));
 }
 inline constexpr ArrayPtr<const char> StringPtr::slice(size_t start, size_t end) const {
-- 
2.43.0


From 13d9fab60d37de667e905e3c6805d4859abb7404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:24 +0000
Subject: [PATCH 07/28] fix: capnp list iterator operator[] must apply its
 offset

---
 c++/src/capnp/list.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/src/capnp/list.h b/c++/src/capnp/list.h
index 5e48c77..987556f 100644
--- a/c++/src/capnp/list.h
+++ b/c++/src/capnp/list.h
@@ -57,8 +57,8 @@ public:
   inline TemporaryPointer<Element> operator->() const {
     return TemporaryPointer<Element>((*container)[index]);
   }
-  inline Element operator[]( int off) const { return (*container)[index]; }
-  inline Element operator[](uint off) const { return (*container)[index]; }
+  inline Element operator[]( int off) const { return (*container)[index + off]; }
+  inline Element operator[](uint off) const { return (*container)[index + off]; }
 
   inline IndexingIterator& operator++() { ++index; return *this; }
   inline IndexingIterator operator++(int) { IndexingIterator other = *this; ++index; return other; }
-- 
2.43.0


From bffbdf9672d698a54a770d3055b9a6f9ba762d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:24 +0000
Subject: [PATCH 08/28] fix: bounds-check List<primitive>::Builder::set() in
 debug builds like the other accessors

---
 c++/src/capnp/list.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/src/capnp/list.h b/c++/src/capnp/list.h
index 987556f..d37c2be 100644
--- a/c++/src/capnp/list.h
+++ b/c++/src/capnp/list.h
@@ -157,6 +157,7 @@ struct List<T, Kind::PRIMITIVE> {
       // operator=() because it will lead to surprising behavior when using type inference (e.g.
       // calling a template function with inferred argument types, or using "auto" or "decltype").
 
+      KJ_IREQUIRE(index < size());
       builder.template setDataElement<T>(bounded(index) * ELEMENTS, value);
     }
 
-- 
2.43.0


From 0aaf41a3f418cade969745d968a3284a0a9af466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:13 +0000
Subject: [PATCH 09/28] fix: InsertionOrderIndex::clear() must not write to the
 shared EMPTY_LINK

---
 c++/src/kj/table.c++ | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/src/kj/table.c++ b/c++/src/kj/table.c++
index 04fee16..4fa94b3 100644
--- a/c++/src/kj/table.c++
+++ b/c++/src/kj/table.c++
@@ -828,6 +828,8 @@ void InsertionOrderIndex::reserve(size_t size) {
 }
 
 void InsertionOrderIndex::clear() {
+  if (links == &EMPTY_LINK) return;
+
   links[0] = Link { 0, 0 };
 
 #ifdef KJ_DEBUG
-- 
2.43.0


From 640774b19c661be3540cae27abcbbd5da24e5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:13 +0000
Subject: [PATCH 10/28] fix: InsertionOrderIndex move assignment must free the
 links it replaces

---
 c++/src/kj/table.c++ | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/src/kj/table.c++ b/c++/src/kj/table.c++
index 4fa94b3..ab33580 100644
--- a/c++/src/kj/table.c++
+++ b/c++/src/kj/table.c++
@@ -790,6 +790,7 @@ InsertionOrderIndex::InsertionOrderIndex(InsertionOrderIndex&& other)
 }
 InsertionOrderIndex& InsertionOrderIndex::operator=(InsertionOrderIndex&& other) {
   KJ_DASSERT(&other != this);
+  if (links != &EMPTY_LINK) delete[] links;
   capacity = other.capacity;
   links = other.links;
   other.capacity = 0;
-- 
2.43.0


From c279cb3e9a2ba4d97ffcf445ff4777064448369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:57 +0000
Subject: [PATCH 11/28] fix: fillLimited() advanced twice past a StringTree,
 writing past the end of the buffer

---
 c++/src/kj/string-tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/src/kj/string-tree.h b/c++/src/kj/string-tree.h
index 19281bd..1b80525 100644
--- a/c++/src/kj/string-tree.h
+++ b/c++/src/kj/string-tree.h
@@ -129,7 +129,7 @@ char* fillLimited(char* __restrict__ target, char* limit, const StringTree& firs
   // Make str() work with stringifiers that return StringTree by patching fill().
 
   target = first.flattenTo(target, limit);
-  return fillLimited(target + first.size(), limit, kj::fwd<Rest>(rest)...);
+  return fillLimited(target, limit, kj::fwd<Rest>(rest)...);
 }
 
 template <typename T> constexpr bool isStringTree() { return false; }
-- 
2.43.0


From 0899e999d0c62e842d51f6fecfd8bf3a9bac1509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:24 +0000
Subject: [PATCH 12/28] fix: Arena overlapped or overran objects aligned more
 strictly than operator new's memory

---
 c++/src/kj/arena.c++ | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/c++/src/kj/arena.c++ b/c++/src/kj/arena.c++
index 06dc060..44f5fae 100644
--- a/c++/src/kj/arena.c++
+++ b/c++/src/kj/arena.c++
@@ -126,8 +126,11 @@ void* Arena::allocateBytesInternal(size_t amount, uint alignment) {
   // If the alignment is less than that of the chunk header, we'll need to increase it.
   alignment = kj::max(alignment, alignof(ChunkHeader));
 
-  // If the ChunkHeader size does not match the alignment, we'll need to pad it up.
-  amount += alignTo(sizeof(ChunkHeader), alignment);
+  // If the ChunkHeader size does not match the alignment, we'll need to pad it up. Moreover,
+  // `operator new` need not return memory aligned more strictly than a ChunkHeader requires, so
+  // leave room to move forward to the next aligned position.
+  size_t objectSize = amount;
+  amount += alignTo(sizeof(ChunkHeader), alignment) + (alignment - alignof(ChunkHeader));
 
   // Make sure we're going to allocate enough space.
   while (nextChunkSize < amount) {
@@ -140,14 +143,15 @@ void* Arena::allocateBytesInternal(size_t amount, uint alignment) {
   // Set up the ChunkHeader at the beginning of the allocation.
   ChunkHeader* newChunk = reinterpret_cast<ChunkHeader*>(bytes);
   newChunk->next = chunkList;
-  newChunk->pos = bytes + amount;
+  // Move past the ChunkHeader to find the position of the allocated object.
+  byte* result = alignTo(bytes + sizeof(ChunkHeader), alignment);
+  newChunk->pos = result + objectSize;
   newChunk->end = bytes + nextChunkSize;
   currentChunk = newChunk;
   chunkList = newChunk;
   nextChunkSize *= 2;
 
-  // Move past the ChunkHeader to find the position of the allocated object.
-  return alignTo(bytes + sizeof(ChunkHeader), alignment);
+  return result;
 }
 
 StringPtr Arena::copyString(StringPtr content) {
-- 
2.43.0


From de7d67756d3c199f2ac4adcf9b54cfc7b284a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:43 +0000
Subject: [PATCH 13/28] fix: negative 64-bit integers hashed differently from
 equal narrower ones

---
 c++/src/kj/hash.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c++/src/kj/hash.h b/c++/src/kj/hash.h
index d72a818..c9ae7a9 100644
--- a/c++/src/kj/hash.h
+++ b/c++/src/kj/hash.h
@@ -266,7 +266,8 @@ inline uint intHash64(uint64_t i) {
   // It's important that if the actual value is in the 32-bit range, the hash code is consistent
   // with a 32-bit integer. Otherwise, if you have, say, a `HashMap<uint64_t, T>` and you write
   // `map.find(1)` it won't work, because `1` is type `int` and will be hashed as a 32-bit integer.
-  if (i <= UINT32_MAX) {
+  // The same goes for negative values: `HashMap<int64_t, T>` and `map.find(-1)`.
+  if (i <= UINT32_MAX || static_cast<int64_t>(i) == static_cast<int32_t>(i)) {
     return intHash32(i);
   }
 
-- 
2.43.0


From d53d9a6a08dc8375b161e6b8e833110d40e3086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:43 +0000
Subject: [PATCH 14/28] fix: nullptr hashed differently from an equal null
 pointer

---
 c++/src/kj/hash.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c++/src/kj/hash.h b/c++/src/kj/hash.h
index c9ae7a9..99d1569 100644
--- a/c++/src/kj/hash.h
+++ b/c++/src/kj/hash.h
@@ -61,7 +61,10 @@ struct HashCoder {
   inline uint operator*(const StringPtr& s) const { return operator*(s.asBytes()); }
   inline uint operator*(const ConstString& s) const { return operator*(s.asBytes()); }
 
-  inline uint operator*(decltype(nullptr)) const { return 0; }
+  inline uint operator*(decltype(nullptr)) const {
+    // Must match a null pointer, so that `map.find(nullptr)` works when the key is a pointer.
+    return operator*(static_cast<const void*>(nullptr));
+  }
   inline uint operator*(bool b) const { return b; }
   inline uint operator*(char i) const { return intHash32(i); }
   inline uint operator*(signed char i) const { return intHash32(i); }
-- 
2.43.0


From 4a6935474c00064aa37537ea18cf699762d0cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:04 +0000
Subject: [PATCH 15/28] fix: BufferedOutputStreamWrapper took data following
 its full buffer for data inside it

---
 c++/src/kj/io.c++ | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/src/kj/io.c++ b/c++/src/kj/io.c++
index 82b51d9..7cc16e5 100644
--- a/c++/src/kj/io.c++
+++ b/c++/src/kj/io.c++
@@ -210,7 +210,7 @@ ArrayPtr<byte> BufferedOutputStreamWrapper::getWriteBuffer() {
 
 void BufferedOutputStreamWrapper::write(ArrayPtr<const byte> src) {
   auto size = src.size();
-  if (src.begin() == bufferPos) {
+  if (src.begin() == bufferPos && bufferPos != buffer.end()) {
     // Oh goody, the caller wrote directly into our buffer.
     bufferPos += size;
   } else {
-- 
2.43.0


From a990fcccc5b73794e70c71f6fa9572f507e2eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:04 +0000
Subject: [PATCH 16/28] fix: VectorOutputStream with no initial capacity never
 finished growing

---
 c++/src/kj/io.c++ | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/src/kj/io.c++ b/c++/src/kj/io.c++
index 7cc16e5..9ec3487 100644
--- a/c++/src/kj/io.c++
+++ b/c++/src/kj/io.c++
@@ -317,7 +317,7 @@ void VectorOutputStream::write(ArrayPtr<const byte> src) {
 }
 
 void VectorOutputStream::grow(size_t minSize) {
-  size_t newSize = vector.size() * 2;
+  size_t newSize = kj::max(vector.size(), size_t(1)) * 2;
   while (newSize < minSize) newSize *= 2;
   auto newVector = heapArray<byte>(newSize);
   memcpy(newVector.begin(), vector.begin(), fillPos - vector.begin());
-- 
2.43.0


From 8904d2a498dd185858df62631a50a2622302c945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 17/28] fix: List<Interface>::Builder::adopt() could not be
 compiled

---
 c++/src/capnp/capability.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/src/capnp/capability.h b/c++/src/capnp/capability.h
index 9c5ccfd..bdad820 100644
--- a/c++/src/capnp/capability.h
+++ b/c++/src/capnp/capability.h
@@ -1031,7 +1031,7 @@ struct List<T, Kind::INTERFACE> {
     }
     inline void adopt(uint index, Orphan<T>&& value) {
       KJ_IREQUIRE(index < size());
-      builder.getPointerElement(bounded(index) * ELEMENTS).adopt(kj::mv(value));
+      builder.getPointerElement(bounded(index) * ELEMENTS).adopt(kj::mv(value.builder));
     }
     inline Orphan<T> disown(uint index) {
       KJ_IREQUIRE(index < size());
-- 
2.43.0


From 99a5d6af8ed4193e9751d620c9f7e0fa3e4734be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 18/28] fix: Orphan<List<Enum>>::truncate() could not be
 compiled

---
 c++/src/capnp/orphan.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c++/src/capnp/orphan.h b/c++/src/capnp/orphan.h
index 55748f5..a082ab9 100644
--- a/c++/src/capnp/orphan.h
+++ b/c++/src/capnp/orphan.h
@@ -204,6 +204,13 @@ struct OrphanGetImpl<T, Kind::PRIMITIVE> {
   }
 };
 
+template <typename T>
+struct OrphanGetImpl<T, Kind::ENUM> {
+  static inline void truncateListOf(_::OrphanBuilder& builder, ElementCount size) {
+    builder.truncate(size, _::elementSizeForType<T>());
+  }
+};
+
 template <typename T>
 struct OrphanGetImpl<T, Kind::STRUCT> {
   static inline typename T::Builder apply(_::OrphanBuilder& builder) {
-- 
2.43.0


From 83c78c70d111cd6f11efab34af01ad0a3354a3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 19/28] fix: empty List<Interface> readers and builders could
 not be compiled

---
 c++/src/capnp/capability.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/src/capnp/capability.h b/c++/src/capnp/capability.h
index bdad820..87a2933 100644
--- a/c++/src/capnp/capability.h
+++ b/c++/src/capnp/capability.h
@@ -979,7 +979,7 @@ struct List<T, Kind::INTERFACE> {
   public:
     typedef List<T> Reads;
 
-    Reader() = default;
+    inline Reader(): reader(ElementSize::POINTER) {}
     inline explicit Reader(_::ListReader reader): reader(reader) {}
 
     inline uint size() const { return unbound(reader.size() / ELEMENTS); }
@@ -1013,7 +1013,7 @@ struct List<T, Kind::INTERFACE> {
     typedef List<T> Builds;
 
     Builder() = delete;
-    inline Builder(decltype(nullptr)) {}
+    inline Builder(decltype(nullptr)): builder(ElementSize::POINTER) {}
     inline explicit Builder(_::ListBuilder builder): builder(builder) {}
 
     inline operator Reader() const { return Reader(builder.asReader()); }
-- 
2.43.0


From eb412fc569a185a36884b63ebac49080f1879249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 20/28] fix: assigning over a RevocableServer did not revoke
 the server it referenced

---
 c++/src/capnp/capability.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/c++/src/capnp/capability.h b/c++/src/capnp/capability.h
index 87a2933..abdb5df 100644
--- a/c++/src/capnp/capability.h
+++ b/c++/src/capnp/capability.h
@@ -593,7 +593,7 @@ class RevocableServer {
 public:
   RevocableServer(typename T::Server& server);
   RevocableServer(RevocableServer&&) = default;
-  RevocableServer& operator=(RevocableServer&&) = default;
+  RevocableServer& operator=(RevocableServer&& other);
   ~RevocableServer() noexcept(false);
   KJ_DISALLOW_COPY(RevocableServer);
 
@@ -1250,6 +1250,16 @@ RevocableServer<T>::~RevocableServer() noexcept(false) {
   }
 }
 
+template <typename T>
+RevocableServer<T>& RevocableServer<T>::operator=(RevocableServer&& other) {
+  // The server previously referenced must be revoked, as in the destructor.
+  RevocableServer moved(kj::mv(other));
+  auto old = kj::mv(hook);
+  hook = kj::mv(moved.hook);
+  moved.hook = kj::mv(old);
+  return *this;
+}
+
 template <typename T>
 typename T::Client RevocableServer<T>::getClient() {
   return typename T::Client(hook->addRef());
-- 
2.43.0


From 990893c6fc3e73cd98b103d485a1624ac83378b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 21/28] fix: CharGroup_::orChar never added characters 192 and
 up

---
 c++/src/kj/parse/char.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/src/kj/parse/char.h b/c++/src/kj/parse/char.h
index a6ae54d..29b511c 100644
--- a/c++/src/kj/parse/char.h
+++ b/c++/src/kj/parse/char.h
@@ -90,7 +90,7 @@ public:
     return CharGroup_(bits[0] | bit(c),
                       bits[1] | bit(c - 64),
                       bits[2] | bit(c - 128),
-                      bits[3] | bit(c - 256));
+                      bits[3] | bit(c - 192));
   }
 
   constexpr inline CharGroup_ orGroup(CharGroup_ other) const {
-- 
2.43.0


From b64e9074bb1702925c9a35f1aa2c56e4b0ddb7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 22/28] fix: CharGroup_::orRange overflowed a signed shift at
 ranges bounded by bit 63

---
 c++/src/kj/parse/char.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/src/kj/parse/char.h b/c++/src/kj/parse/char.h
index 29b511c..24c842b 100644
--- a/c++/src/kj/parse/char.h
+++ b/c++/src/kj/parse/char.h
@@ -134,7 +134,7 @@ private:
   Bits64 bits[4];
 
   static constexpr inline Bits64 oneBits(int count) {
-    return count <= 0 ? 0ll : count >= 64 ? -1ll : ((1ll << count) - 1);
+    return count <= 0 ? 0ll : count >= 64 ? -1ll : ((1ull << count) - 1);
   }
   static constexpr inline Bits64 bit(int index) {
     return index < 0 ? 0 : index >= 64 ? 0 : (1ll << index);
-- 
2.43.0


From ce730e443e02ea4fb9f53c0824a63d3926807cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 23/28] fix: BoundedConst * Bounded claimed the sum of the
 bounds

---
 c++/src/kj/units.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/src/kj/units.h b/c++/src/kj/units.h
index 0283e25..33206f0 100644
--- a/c++/src/kj/units.h
+++ b/c++/src/kj/units.h
@@ -904,7 +904,7 @@ OP(+, (boundedAdd<maxN, cvalue>()))
 REVERSE_OP(+, (boundedAdd<maxN, cvalue>()))
 
 OP(*, (boundedMul<maxN, cvalue>()))
-REVERSE_OP(*, (boundedAdd<maxN, cvalue>()))
+REVERSE_OP(*, (boundedMul<maxN, cvalue>()))
 
 OP(/, maxN / cvalue)
 REVERSE_OP(/, cvalue)  // denominator could be 1
-- 
2.43.0


From 0a358bbf391c2bb36f7f1e157e9fccc1286e3c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 24/28] fix: BoundedConst >> Bounded claimed the smallest
 result as its bound

---
 c++/src/kj/units.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/src/kj/units.h b/c++/src/kj/units.h
index 33206f0..f8d960b 100644
--- a/c++/src/kj/units.h
+++ b/c++/src/kj/units.h
@@ -916,7 +916,7 @@ OP(<<, (boundedLShift<maxN, cvalue>()))
 REVERSE_OP(<<, (boundedLShift<cvalue, maxN>()))
 
 OP(>>, maxN >> cvalue)
-REVERSE_OP(>>, cvalue >> maxN)
+REVERSE_OP(>>, cvalue)  // the shift could be by zero
 
 OP(&, maxValueForBits<bitCount<maxN>()>() & cvalue)
 REVERSE_OP(&, maxValueForBits<bitCount<maxN>()>() & cvalue)
-- 
2.43.0


From 499261ebb5aba39739252647023f56669f721dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 25/28] fix: Bounded | BoundedConst claimed a bound smaller
 values can exceed

---
 c++/src/kj/units.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/src/kj/units.h b/c++/src/kj/units.h
index f8d960b..3a34e8f 100644
--- a/c++/src/kj/units.h
+++ b/c++/src/kj/units.h
@@ -921,8 +921,8 @@ REVERSE_OP(>>, cvalue)  // the shift could be by zero
 OP(&, maxValueForBits<bitCount<maxN>()>() & cvalue)
 REVERSE_OP(&, maxValueForBits<bitCount<maxN>()>() & cvalue)
 
-OP(|, maxN | cvalue)
-REVERSE_OP(|, maxN | cvalue)
+OP(|, maxValueForBits<bitCount<maxN>()>() | cvalue)
+REVERSE_OP(|, maxValueForBits<bitCount<maxN>()>() | cvalue)
 
 COMPARE_OP(==)
 COMPARE_OP(< )
-- 
2.43.0


From d2b3694f3de177e98aa6162fa12afe03e167434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 26/28] fix: left shifts of bounded numbers missed overflows
 that leave a larger number

---
 c++/src/kj/units.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/src/kj/units.h b/c++/src/kj/units.h
index 3a34e8f..2c5b6d3 100644
--- a/c++/src/kj/units.h
+++ b/c++/src/kj/units.h
@@ -511,7 +511,7 @@ public:
   OP(*, value * other / other == value)
   OP(/, true)   // div by zero already errors out; no other division ever overflows
   OP(%, true)   // mod by zero already errors out; no other modulus ever overflows
-  OP(<<, value << other >= value)
+  OP(<<, (value << other) >> other == value)
   OP(>>, true)  // right shift can't overflow
   OP(&, true)   // bitwise ops can't overflow
   OP(|, true)   // bitwise ops can't overflow
@@ -557,7 +557,7 @@ static constexpr uint64_t boundedMul() {
 }
 template <uint64_t a, uint64_t b>
 static constexpr uint64_t boundedLShift() {
-  static_assert(a << b >= a, "possible overflow detected");
+  static_assert((a << b) >> b == a, "possible overflow detected");
   return a << b;
 }
 
-- 
2.43.0


From 342b11de2387a4614429f22ffbe7334a35100ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 27/28] fix: Quantity /= number did not compile

---
 c++/src/kj/units.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/src/kj/units.h b/c++/src/kj/units.h
index 2c5b6d3..e4d7048 100644
--- a/c++/src/kj/units.h
+++ b/c++/src/kj/units.h
@@ -344,7 +344,7 @@ public:
   }
   template <typename OtherNumber>
   inline Quantity& operator/=(OtherNumber other) {
-    value /= other.value;
+    value /= other;
     return *this;
   }
 
-- 
2.43.0


From 9c64d6222235790754ee56b35252f4af2d085912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 28/28] fix: Id's ordering operators were defined as deleted

---
 c++/src/kj/units.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/src/kj/units.h b/c++/src/kj/units.h
index e4d7048..87b5729 100644
--- a/c++/src/kj/units.h
+++ b/c++/src/kj/units.h
@@ -55,10 +55,10 @@ struct Id {
   inline constexpr explicit Id(int value): value(value) {}
 
   inline constexpr bool operator==(const Id& other) const = default;
-  inline constexpr bool operator<=(const Id& other) const = default;
-  inline constexpr bool operator>=(const Id& other) const = default;
-  inline constexpr bool operator< (const Id& other) const = default;
-  inline constexpr bool operator> (const Id& other) const = default;
+  inline constexpr bool operator<=(const Id& other) const { return value <= other.value; }
+  inline constexpr bool operator>=(const Id& other) const { return value >= other.value; }
+  inline constexpr bool operator< (const Id& other) const { return value <  other.value; }
+  inline constexpr bool operator> (const Id& other) const { return value >  other.value; }
 };
 
 // =======================================================================================
-- 
2.43.0

