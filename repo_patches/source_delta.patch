From 0d67912e4610d6385f5ff11e8268337d2d0847ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:37 +0000
Subject: [PATCH 01/63] fix: Queue::clone copies every element, including the
 last

---
 rpp/queue.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index d036f02..c645dd3 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -77,16 +77,14 @@ struct Queue {
         if constexpr(Trivially_Copyable<T>) {
             Libc::memcpy(ret.data_, data_, capacity_ * sizeof(T));
         } else if constexpr(Clone<T>) {
-            u64 start = start_idx();
-            u64 end = end_idx();
-            for(u64 i = start; i != end; i = i == capacity_ - 1 ? 0 : i + 1) {
+            u64 i = start_idx();
+            for(u64 n = 0; n < length_; n++, i = i == capacity_ - 1 ? 0 : i + 1) {
                 new(&ret.data_[i]) T{data_[i].clone()};
             }
         } else {
             static_assert(Copy_Constructable<T>);
-            u64 start = start_idx();
-            u64 end = end_idx();
-            for(u64 i = start; i != end; i = i == capacity_ - 1 ? 0 : i + 1) {
+            u64 i = start_idx();
+            for(u64 n = 0; n < length_; n++, i = i == capacity_ - 1 ? 0 : i + 1) {
                 new(&ret.data_[i]) T{data_[i]};
             }
         }
-- 
2.43.0


From bb250e44a522c09cb0a81a8eb6946aa5d7d48af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:37 +0000
Subject: [PATCH 02/63] fix: Queue::erase_first closes the gap instead of
 overwriting later elements

---
 rpp/queue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index c645dd3..2b73b7b 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -243,12 +243,13 @@ struct Queue {
         u64 consumed = 0;
         while(consumed < length_) {
             u64 next = idx == capacity_ - 1 ? 0 : idx + 1;
+            u64 prev = idx == 0 ? capacity_ - 1 : idx - 1;
             if(found) {
                 if constexpr(Trivially_Movable<T>) {
-                    Libc::memcpy(&data_[next], &data_[idx], sizeof(T));
+                    Libc::memcpy(&data_[prev], &data_[idx], sizeof(T));
                 } else {
                     static_assert(Move_Constructable<T>);
-                    new(&data_[next]) T{rpp::move(data_[idx])};
+                    new(&data_[prev]) T{rpp::move(data_[idx])};
                 }
             } else if(data_[idx] == value) {
                 if constexpr(Must_Destruct<T>) {
-- 
2.43.0


From b6fbf26c78c5077685fdeb5cc58a23fa3c832a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:46 +0000
Subject: [PATCH 03/63] fix: Map::get_or_insert(K&&) compiles

---
 rpp/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/map.h b/rpp/map.h
index d3ddf09..4b1e39d 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -330,7 +330,7 @@ struct Map {
         requires Default_Constructable<V>
     {
         Opt<Ref<V>> entry = try_get(key);
-        if(entry) {
+        if(entry.ok()) {
             return **entry;
         }
         return insert(rpp::move(key), V{});
-- 
2.43.0


From e69c9a78581ead771d4240d89939faeb9ff8d2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:04 +0000
Subject: [PATCH 04/63] fix: Map counts an inserted key only when it is new

---
 rpp/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index 4b1e39d..cd58de4 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -164,6 +164,7 @@ struct Map {
         usable_ = (capacity_ / 4) * 3;
         shift_ = Math::ctlz(capacity_) + 1;
 
+        length_ = 0;
         for(u64 i = 0; i < old_capacity; i++) {
             if(old_data[i].hash != Slot::EMPTY)
                 static_cast<void>(insert_slot(rpp::move(old_data[i])));
@@ -219,7 +220,6 @@ struct Map {
         if(full()) grow();
         Slot slot{rpp::move(key), rpp::move(value)};
         Slot& placed = insert_slot(rpp::move(slot));
-        length_ += 1;
         return placed.data->second;
     }
 
@@ -229,7 +229,6 @@ struct Map {
         if(full()) grow();
         Slot slot{rpp::move(key), V{rpp::forward<Args>(args)...}};
         Slot& placed = insert_slot(rpp::move(slot));
-        length_ += 1;
         return placed.data->second;
     }
 
@@ -412,6 +411,7 @@ private:
             u64 hash = data_[idx].hash;
             if(hash == Slot::EMPTY) {
                 data_[idx] = rpp::move(slot);
+                length_ += 1;
                 return placement ? *placement : data_[idx];
             }
             if(hash == slot.hash && data_[idx].data->first == slot.data->first) {
-- 
2.43.0


From a12733bdb4ece9899537b3893463e59470fa0dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 05/63] fix: Map capacities are powers of two with room for an
 element

---
 rpp/map.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rpp/map.h b/rpp/map.h
index cd58de4..9b699fb 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -78,7 +78,7 @@ struct Map {
     Map() noexcept = default;
 
     explicit Map(u64 capacity) noexcept {
-        capacity_ = Math::next_pow2(capacity);
+        capacity_ = slots(capacity);
         shift_ = Math::ctlz(capacity_) + 1;
         usable_ = (capacity_ / 4) * 3;
         length_ = 0;
@@ -153,6 +153,7 @@ struct Map {
     }
 
     void reserve(u64 new_capacity) noexcept {
+        new_capacity = slots(new_capacity);
         if(new_capacity <= capacity_) return;
 
         Slot* old_data = data_;
@@ -403,6 +404,12 @@ struct Map {
     }
 
 private:
+    // Slots are indexed by the high bits of the hash, and a quarter of them must stay empty.
+    [[nodiscard]] static u64 slots(u64 capacity) noexcept {
+        if(capacity == 0) return 0;
+        return capacity < 4 ? 4 : Math::next_pow2(capacity);
+    }
+
     [[nodiscard]] Slot& insert_slot(Slot&& slot) noexcept {
         u64 idx = slot.hash >> shift_;
         Slot* placement = null;
-- 
2.43.0


From f36f4e490a5702cebf56e7de97248b962dff3051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 06/63] fix: Map::get of a view in an empty map reports the
 missing key

---
 rpp/map.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index 9b699fb..797227f 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -290,9 +290,7 @@ struct Map {
     [[nodiscard]] V& get(String_View key) noexcept
         requires(Any_String<K>)
     {
-        if(auto idx = try_get_<String_View>(key); idx.ok()) {
-            return data_[*idx].data->second;
-        }
+        if(auto value = try_get(key); value.ok()) return **value;
         die("Failed to find key %!", key);
     }
 
-- 
2.43.0


From 08a76ac9211a3f4bdac815de31deb0b8b6301467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:00 +0000
Subject: [PATCH 07/63] fix: Region allocations are aligned to 16 bytes

---
 rpp/impl/alloc.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rpp/impl/alloc.cpp b/rpp/impl/alloc.cpp
index e5efca6..9ccae80 100644
--- a/rpp/impl/alloc.cpp
+++ b/rpp/impl/alloc.cpp
@@ -10,12 +10,15 @@ static Thread::Atomic g_net_allocs;
 
 using Regions = Mallocator<"Regions", false>;
 
-struct Chunk {
+// Region allocations are aligned like those of malloc.
+constexpr u64 REGION_ALIGN = 16;
+
+struct alignas(REGION_ALIGN) Chunk {
     Chunk* up = null;
     u64 size = 0;
     u64 used = 0;
 };
-static_assert(sizeof(Chunk) == 24);
+static_assert(sizeof(Chunk) == 32);
 
 constexpr u64 FIRST_CHUNK_SIZE = Math::KB(1);
 constexpr u64 MAX_REGION_DEPTH = 128;
@@ -49,6 +52,7 @@ static void assert_brand(Region brand) noexcept {
 
 [[nodiscard]] void* Region_Allocator::alloc(Region brand, u64 size) noexcept {
     assert_brand(brand);
+    size = Math::align(size, REGION_ALIGN);
     if(chunks->size - chunks->used < size) {
         new_chunk(size);
     }
-- 
2.43.0


From c1850d9c3086d9a20b6d1b3a9e147a7c44624e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 08/63] fix: Moving a Range_Allocator keeps its mutex

---
 rpp/range_allocator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index d65b490..852a84b 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -30,7 +30,10 @@ struct Range_Allocator {
         *this = rpp::move(src);
     }
     Range_Allocator& operator=(Range_Allocator&& src) noexcept {
-        this->~Range_Allocator();
+        {
+            Thread::Lock lock(mutex);
+            reset();
+        }
 
         Thread::Lock lock(src.mutex);
 
-- 
2.43.0


From 72de964592427dca0f00228b630dcc5b23bd6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 09/63] fix: Range_Allocator::allocate does not overflow on
 huge requests

---
 rpp/range_allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index 852a84b..18bcfba 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -93,7 +93,7 @@ struct Range_Allocator {
         u64 padding = 0;
         while(block) {
             padding = Math::align(block->start, alignment) - block->start;
-            if(block->size >= size + padding) {
+            if(block->size >= padding && block->size - padding >= size) {
                 break;
             }
             block = block->next_free;
-- 
2.43.0


From 120b32dcb5a64b707b4f2fc26f09328dab7c2598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 10/63] fix: Mpool supports object sizes that are not powers of
 two

---
 rpp/alloc1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/alloc1.h b/rpp/alloc1.h
index 2f89c61..4868ef2 100644
--- a/rpp/alloc1.h
+++ b/rpp/alloc1.h
@@ -57,7 +57,7 @@ private:
     using Backing = Mallocator<name>;
 
     struct Block {
-        alignas(Math::min<u64>(N, 16)) u8 data[N];
+        alignas(N < 16 ? N & (~N + 1) : 16) u8 data[N];
     };
 
     struct Finalizer {
-- 
2.43.0


From 15eef854969cb83f71e321d3fcac0178af8d7c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 11/63] fix: Owning pointers may be assigned from inside the
 object they release

---
 rpp/box.h |  6 ++++--
 rpp/rc.h  | 34 +++++++++++++++++++++-------------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/rpp/box.h b/rpp/box.h
index c8c2c2d..3e428d3 100644
--- a/rpp/box.h
+++ b/rpp/box.h
@@ -40,9 +40,11 @@ struct Box {
         src.data_ = null;
     }
     Box& operator=(Box&& src) noexcept {
-        this->~Box();
-        data_ = src.data_;
+        // src may live inside the object we are about to release
+        T* data = src.data_;
         src.data_ = null;
+        this->~Box();
+        data_ = data;
         return *this;
     }
 
diff --git a/rpp/rc.h b/rpp/rc.h
index 1012d2c..71715d6 100644
--- a/rpp/rc.h
+++ b/rpp/rc.h
@@ -81,9 +81,11 @@ struct Rc {
         src.data_ = null;
     }
     Rc& operator=(Rc&& src) noexcept {
-        drop();
-        data_ = src.data_;
+        // src may live inside the object we are about to release
+        Data* data = src.data_;
         src.data_ = null;
+        drop();
+        data_ = data;
         return *this;
     }
 
@@ -117,12 +119,14 @@ struct Rc {
 private:
     void drop() noexcept {
         if(!data_) return;
-        data_->references--;
-        if(data_->references == 0) {
-            data_->value.destruct();
-            A::template destroy<Data>(data_);
-        }
+        // *this may live inside the object it owns
+        Data* data = data_;
         data_ = null;
+        data->references--;
+        if(data->references == 0) {
+            data->value.destruct();
+            A::template destroy<Data>(data);
+        }
     }
 
     Data* data_ = null;
@@ -184,9 +188,11 @@ struct Arc {
         src.data_ = null;
     }
     Arc& operator=(Arc&& src) noexcept {
-        drop();
-        data_ = src.data_;
+        // src may live inside the object we are about to release
+        Data* data = src.data_;
         src.data_ = null;
+        drop();
+        data_ = data;
         return *this;
     }
 
@@ -220,11 +226,13 @@ struct Arc {
 private:
     void drop() noexcept {
         if(!data_) return;
-        if(data_->references.decr() == 0) {
-            data_->value.destruct();
-            A::template destroy<Data>(data_);
-        }
+        // *this may live inside the object it owns
+        Data* data = data_;
         data_ = null;
+        if(data->references.decr() == 0) {
+            data->value.destruct();
+            A::template destroy<Data>(data);
+        }
     }
 
     Data* data_ = null;
-- 
2.43.0


From 1241badb2ee51f49437c1a1337afd155e320ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 12/63] fix: String equality compares bytes after an embedded
 NUL

---
 rpp/string0.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rpp/string0.h b/rpp/string0.h
index d692e42..d0679b9 100644
--- a/rpp/string0.h
+++ b/rpp/string0.h
@@ -198,8 +198,7 @@ template<Allocator A>
 
 [[nodiscard]] constexpr bool operator==(String_View l, String_View r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 [[nodiscard]] constexpr bool operator<(String_View l, String_View r) noexcept {
@@ -214,22 +213,19 @@ template<Allocator A>
 template<Allocator A>
 [[nodiscard]] bool operator==(const String<A>& l, String_View r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator B>
 [[nodiscard]] bool operator==(String_View l, const String<B>& r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator A, Allocator B>
 [[nodiscard]] bool operator==(const String<A>& l, const String<B>& r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator A, Allocator B>
-- 
2.43.0


From 83e507680e2b4236de0c7b16ad8bc45337a863b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 13/63] fix: String::write bounds check does not overflow

---
 rpp/string1.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/string1.h b/rpp/string1.h
index bdf9b9c..71ebbb8 100644
--- a/rpp/string1.h
+++ b/rpp/string1.h
@@ -120,14 +120,14 @@ template<Allocator A>
 template<Allocator A>
 template<Allocator B>
 [[nodiscard]] u64 String<A>::write(u64 i, const String<B>& text) noexcept {
-    assert(i + text.length() <= length_);
+    assert(i <= length_ && text.length() <= length_ - i);
     Libc::memcpy(data_ + i, text.data(), text.length());
     return i + text.length();
 }
 
 template<Allocator A>
 [[nodiscard]] u64 String<A>::write(u64 i, String_View text) noexcept {
-    assert(i + text.length() <= length_);
+    assert(i <= length_ && text.length() <= length_ - i);
     Libc::memcpy(data_ + i, text.data(), text.length());
     return i + text.length();
 }
-- 
2.43.0


From bd5ee7e78f9734f7d6110b2cfc13c2f513ea0e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 14/63] fix: Path helpers see a separator or dot at the first
 character

---
 rpp/string1.h | 41 +++++++++++++----------------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/rpp/string1.h b/rpp/string1.h
index 71ebbb8..6ee1cbf 100644
--- a/rpp/string1.h
+++ b/rpp/string1.h
@@ -66,48 +66,33 @@ template<Allocator RA>
 
     if(length_ == 0) return String_View{};
 
-    u64 i = length_ - 1;
-    u64 offset = 0;
-
-    for(; i != 0; i--) {
-        if(data_[i] == '\\' || data_[i] == '/') {
-            offset = 1;
-            break;
-        }
-    }
-    return String_View{data_ + i + offset, length_ - i - offset};
+    u64 i = length_;
+
+    while(i != 0 && data_[i - 1] != '\\' && data_[i - 1] != '/') i--;
+
+    return String_View{data_ + i, length_ - i};
 }
 
 [[nodiscard]] constexpr String_View String_View::file_extension() const noexcept {
 
     if(length_ == 0) return String_View{};
 
-    u64 i = length_ - 1;
-    u64 offset = 0;
+    u64 i = length_;
 
-    for(; i != 0; i--) {
-        if(data_[i] == '.' || data_[i] == '\\' || data_[i] == '/') {
-            offset = 1;
-            break;
-        }
-    }
-    return String_View{data_ + i + offset, length_ - i - offset};
+    while(i != 0 && data_[i - 1] != '.' && data_[i - 1] != '\\' && data_[i - 1] != '/') i--;
+
+    return String_View{data_ + i, length_ - i};
 }
 
 [[nodiscard]] constexpr String_View String_View::remove_file_suffix() const noexcept {
 
     if(length_ == 0) return String_View{};
 
-    bool found = 0;
-    u64 i = length_ - 1;
+    u64 i = length_;
 
-    for(; i != 0; i--) {
-        if(data_[i] == '\\' || data_[i] == '/') {
-            found = 1;
-            break;
-        }
-    }
-    return String_View{data_, i + found};
+    while(i != 0 && data_[i - 1] != '\\' && data_[i - 1] != '/') i--;
+
+    return String_View{data_, i};
 }
 
 template<Allocator A>
-- 
2.43.0


From 12a4d4312286c902795bbfcb5879c0f48e5b1d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 15/63] fix: parse_string ends a word at trailing whitespace
 and accepts one letter

---
 rpp/format1.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rpp/format1.h b/rpp/format1.h
index 3b8215f..5b8e41b 100644
--- a/rpp/format1.h
+++ b/rpp/format1.h
@@ -60,14 +60,15 @@ template<Enum E>
         start++;
     }
     for(u64 i = start; i < s.length(); i++) {
-        if((i + 1 == s.length() && start < i)) {
-            return Opt<Pair<String_View, String_View>>{Pair{s.sub(start, i + 1), String_View{}}};
-        }
         if(ascii::is_whitespace(s[i])) {
             return Opt<Pair<String_View, String_View>>{
                 Pair{s.sub(start, i), s.sub(i + 1, s.length())}};
         }
     }
+    if(start < s.length()) {
+        return Opt<Pair<String_View, String_View>>{
+            Pair{s.sub(start, s.length()), String_View{}}};
+    }
     return {};
 }
 
-- 
2.43.0


From bf4d4542149ccbd9b7252a7cf6b943e37034dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 16/63] fix: Reflection of Kind lists char_

---
 rpp/reflect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/reflect.h b/rpp/reflect.h
index 7b8ea33..ba854dd 100644
--- a/rpp/reflect.h
+++ b/rpp/reflect.h
@@ -496,7 +496,7 @@ struct Refl<Kind> {
     constexpr static Literal name = "Kind";
     constexpr static Kind kind = Kind::enum_;
     constexpr static Kind default_ = Kind::void_;
-    using members = List<RPP_CASE(void_), RPP_CASE(i8_), RPP_CASE(i16_), RPP_CASE(i32_),
+    using members = List<RPP_CASE(void_), RPP_CASE(char_), RPP_CASE(i8_), RPP_CASE(i16_), RPP_CASE(i32_),
                          RPP_CASE(i64_), RPP_CASE(u8_), RPP_CASE(u16_), RPP_CASE(u32_),
                          RPP_CASE(u64_), RPP_CASE(f32_), RPP_CASE(f64_), RPP_CASE(bool_),
                          RPP_CASE(array_), RPP_CASE(pointer_), RPP_CASE(enum_), RPP_CASE(record_)>;
-- 
2.43.0


From 6cfd2a9f1ba892cfeb2637e34c759987e6f25d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 17/63] fix: Formatting a const element type uses its own
 formatter

---
 rpp/format.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rpp/format.h b/rpp/format.h
index b505300..04b6a50 100644
--- a/rpp/format.h
+++ b/rpp/format.h
@@ -190,6 +190,12 @@ struct Write {
     }
 };
 
+template<Reflectable T>
+struct Measure<const T> : Measure<T> {};
+
+template<Allocator A, Reflectable T>
+struct Write<A, const T> : Write<A, T> {};
+
 template<Allocator A, typename... Ts>
     requires(Reflectable<Ts> && ...)
 [[nodiscard]] u64 write(String_View fmt, u64 fmt_idx, String<A>& output, u64 output_idx,
-- 
2.43.0


From ad43c9749f29cef3e0f737fad44a9e5d5f3f24e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 18/63] fix: RNG::Stream::unit scales by powers of two

---
 rpp/rng.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 7a3a5f1..00324f0 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -29,11 +29,11 @@ struct Stream {
     [[nodiscard]] constexpr F unit() noexcept {
         if constexpr(Same<F, f32>) {
             u64 r = operator()() >> 40;
-            return r * 1e-24f;
+            return r * 0x1p-24f;
         } else {
             static_assert(Same<F, f64>);
             u64 r = operator()() >> 11;
-            return r * 1e-53;
+            return r * 0x1p-53;
         }
     }
 
-- 
2.43.0


From 0f9f5e4c7a992f5b24373054180bb26e1a83ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 19/63] fix: RNG::Stream::range stays in range for signed types

---
 rpp/rng.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 00324f0..8967b76 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -57,8 +57,8 @@ struct Stream {
 
     template<Int I>
     [[nodiscard]] constexpr I range(I min, I max) noexcept {
-        I r = max - min;
-        return min + static_cast<I>(operator()()) % r;
+        u64 r = static_cast<u64>(max) - static_cast<u64>(min);
+        return static_cast<I>(static_cast<u64>(min) + operator()() % r);
     }
 
 private:
-- 
2.43.0


From 9350c952b4928580a1c1cd8d760415775e2bfe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 20/63] fix: RNG::Stream::shuffle accepts an empty vector

---
 rpp/rng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 8967b76..a2d7d3a 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -44,7 +44,7 @@ struct Stream {
 
     template<Allocator A, Move_Constructable T>
     constexpr void shuffle(Vec<T, A>& vec) noexcept {
-        for(u64 i = 0; i < vec.length() - 1; i++) {
+        for(u64 i = 0; i + 1 < vec.length(); i++) {
             u64 j = range(i, vec.length());
             swap(vec[i], vec[j]);
         }
-- 
2.43.0


From 1977c871f40a601d83cbe036188893b3784acec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 21/63] fix: Zero and negative zero hash equally

---
 rpp/hash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/hash.h b/rpp/hash.h
index 206eba5..f54ddea 100644
--- a/rpp/hash.h
+++ b/rpp/hash.h
@@ -54,6 +54,7 @@ struct Hash<char> {
 template<>
 struct Hash<f32> {
     [[nodiscard]] static u64 hash(f32 key) noexcept {
+        if(key == 0.0f) key = 0.0f; // -0 equals 0
         return squirrel5(static_cast<u64>(*reinterpret_cast<u32*>(&key)));
     }
 };
@@ -61,6 +62,7 @@ struct Hash<f32> {
 template<>
 struct Hash<f64> {
     [[nodiscard]] static u64 hash(f64 key) noexcept {
+        if(key == 0.0) key = 0.0; // -0 equals 0
         return squirrel5(*reinterpret_cast<u64*>(&key));
     }
 };
-- 
2.43.0


From 3504d172c9cdff7953e3c677d67466a8b73cc9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 22/63] fix: Negating a Vect leaves the operand unchanged

---
 rpp/vmath.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index e3d5f3e..c2462be 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -242,14 +242,15 @@ struct Vect : Vect_Base<T, N> {
             for(u64 i = 0; i < N; i++) r.data[i] = Math::abs(this->data[i]);
         return r;
     }
-    constexpr Vect operator-() noexcept
+    constexpr Vect operator-() const noexcept
         requires is_float || Signed_Int<T>
     {
+        Vect r;
         if constexpr(is_simd)
-            this->pack = F32x4::sub(F32x4::zero(), this->pack);
+            r.pack = F32x4::sub(F32x4::zero(), this->pack);
         else
-            for(u64 i = 0; i < N; i++) this->data[i] = -this->data[i];
-        return *this;
+            for(u64 i = 0; i < N; i++) r.data[i] = -this->data[i];
+        return r;
     }
 
     constexpr Vect normalize() noexcept
-- 
2.43.0


From 422e1f8ee5c1b4c12d523fe1bf15c461a80c1449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 23/63] fix: Scalar minus Vec4 and scalar over Vec4 keep their
 operand order

---
 rpp/vmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index c2462be..ab02ef1 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -901,7 +901,7 @@ constexpr Math::Vect<T, N> operator+(T s, Math::Vect<T, N> v) noexcept {
 template<typename T, u64 N>
 constexpr Math::Vect<T, N> operator-(T s, Math::Vect<T, N> v) noexcept {
     if constexpr(Math::Vect<T, N>::is_simd)
-        return Math::Vect<T, N>{SIMD::F32x4::sub(v.pack, SIMD::F32x4::set1(s))};
+        return Math::Vect<T, N>{SIMD::F32x4::sub(SIMD::F32x4::set1(s), v.pack)};
     else {
         Math::Vect<T, N> r;
         for(u64 i = 0; i < N; i++) r.data[i] = s - v.data[i];
@@ -923,7 +923,7 @@ constexpr Math::Vect<T, N> operator*(T s, Math::Vect<T, N> v) noexcept {
 template<typename T, u64 N>
 constexpr Math::Vect<T, N> operator/(T s, Math::Vect<T, N> v) noexcept {
     if constexpr(Math::Vect<T, N>::is_simd)
-        return Math::Vect<T, N>{SIMD::F32x4::div(v.pack, SIMD::F32x4::set1(s))};
+        return Math::Vect<T, N>{SIMD::F32x4::div(SIMD::F32x4::set1(s), v.pack)};
     else {
         Math::Vect<T, N> r;
         for(u64 i = 0; i < N; i++) r.data[i] = s / v.data[i];
-- 
2.43.0


From dca51b64e2dc27774c83d72c4bb544f54922babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 24/63] fix: Quat::euler of half a turn around x rotates around
 x

---
 rpp/vmath.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index ab02ef1..e2bcfe4 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -672,8 +672,7 @@ struct Quat : detail::Vect_Base<f32, 4> {
         return Quat(x, y, z, w).unit();
     }
     static Quat euler(Vec3 angles) noexcept {
-        if(angles == Vec3{0.0f, 0.0f, 180.0f} || angles == Vec3{180.0f, 0.0f, 0.0f})
-            return Quat{0.0f, 0.0f, -1.0f, 0.0f};
+        if(angles == Vec3{0.0f, 0.0f, 180.0f}) return Quat{0.0f, 0.0f, -1.0f, 0.0f};
         f32 c1 = Math::cos(Math::radians(angles[2] * 0.5f));
         f32 c2 = Math::cos(Math::radians(angles[1] * 0.5f));
         f32 c3 = Math::cos(Math::radians(angles[0] * 0.5f));
-- 
2.43.0


From 0912beeb9a8dc46817335c32ae287dbb42e060b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 25/63] fix: Quat::inverse of a quaternion that is not of unit
 length

---
 rpp/vmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index e2bcfe4..fa844a2 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -697,7 +697,7 @@ struct Quat : detail::Vect_Base<f32, 4> {
         return Quat(-x, -y, -z, w);
     }
     Quat inverse() const noexcept {
-        return conjugate().unit();
+        return conjugate() * (1.0f / norm2());
     }
     constexpr Vec3 complex() const noexcept {
         return Vec3(x, y, z);
-- 
2.43.0


From 83f80032bd09065991f6648ba2450251c896b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 26/63] fix: BBox::project divides by w

---
 rpp/vmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index fa844a2..66aa61f 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -843,7 +843,7 @@ struct BBox {
 
         bool partially_behind = false, all_behind = true;
         for(auto& v : c) {
-            Vec3 p = proj * v;
+            Vec3 p = (proj * Vec4{v, 1.0f}).proj();
             if(p.z < 0.0f) {
                 partially_behind = true;
             } else {
-- 
2.43.0


From 77999fac1d7a64fb729c5ba1f49b6549c62cee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 27/63] fix: Transforming an empty BBox leaves it empty

---
 rpp/vmath.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index 66aa61f..42535c2 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -815,6 +815,7 @@ struct BBox {
     }
 
     constexpr void transform(const Mat4& T) noexcept {
+        if(empty()) return;
         Vec3 amin = min, amax = max;
         min = max = Vec3{T[3].x, T[3].y, T[3].z};
         for(u64 i = 0; i < 3; i++) {
-- 
2.43.0


From 2ffb91176f92d0593f0ad894f819deffd2d342f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 28/63] fix: Mat4::rotate_y_to of the downward direction is a
 rotation

---
 rpp/impl/vmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/impl/vmath.cpp b/rpp/impl/vmath.cpp
index 585bceb..debfc28 100644
--- a/rpp/impl/vmath.cpp
+++ b/rpp/impl/vmath.cpp
@@ -255,7 +255,7 @@ Mat4 Mat4::rotate_y_to(Vec3 dir) noexcept {
         return Mat4::I;
     else if(Math::abs(dir.y + 1.0f) < Math::EPS_F)
         return Mat4{Vec4{1.0f, 0.0f, 0.0f, 0.0f}, Vec4{0.0f, -1.0f, 0.0f, 0.0f},
-                    Vec4{0.0f, 0.0f, 1.0f, 0.0f}, Vec4{0.0f, 0.0f, 0.0f, 1.0f}};
+                    Vec4{0.0f, 0.0f, -1.0f, 0.0f}, Vec4{0.0f, 0.0f, 0.0f, 1.0f}};
     else {
         Vec3 x = cross(dir, Vec3{0.0f, 1.0f, 0.0f}).unit();
         Vec3 z = cross(x, dir).unit();
-- 
2.43.0


From 4ea34bdfd55f1488379ed49b1a3790828aea161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:52 +0000
Subject: [PATCH 29/63] fix: Assigning to a Lock releases the mutex it held

---
 rpp/thread0.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/thread0.h b/rpp/thread0.h
index efe4e20..2254dec 100644
--- a/rpp/thread0.h
+++ b/rpp/thread0.h
@@ -64,7 +64,11 @@ struct Lock {
     Lock& operator=(const Lock&) noexcept = delete;
 
     Lock(Lock&& src) noexcept = default;
-    Lock& operator=(Lock&& src) noexcept = default;
+    Lock& operator=(Lock&& src) noexcept {
+        if(mutex_.ok()) mutex_->unlock();
+        mutex_ = rpp::move(src.mutex_);
+        return *this;
+    }
 
 private:
     Ref<Mutex> mutex_;
-- 
2.43.0


From bf27e8fe0d03b9a28040f211b15acee8f2efacf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 30/63] fix: A wait for a Flag survives an interrupting signal

---
 rpp/pos/thread_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/thread_pos.cpp b/rpp/pos/thread_pos.cpp
index 949ec4a..bee9967 100644
--- a/rpp/pos/thread_pos.cpp
+++ b/rpp/pos/thread_pos.cpp
@@ -161,7 +161,7 @@ void Flag::block() noexcept {
 #ifdef RPP_OS_LINUX
     while(__atomic_load_n(&value_, __ATOMIC_SEQ_CST) == 0) {
         int ret = syscall(SYS_futex, &value_, FUTEX_WAIT, 0, NULL, NULL, 0);
-        if(ret == -1 && errno != EAGAIN) {
+        if(ret == -1 && errno != EAGAIN && errno != EINTR) {
             die("Failed to wait on futex: %", error(errno));
         }
     }
-- 
2.43.0


From 4ae6e327c22b679af5420202aec75b80d85a549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:14 +0000
Subject: [PATCH 31/63] fix: Event::wait_any survives an interrupting signal

---
 rpp/pos/async_pos.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index 7877f47..b878caf 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -1,6 +1,7 @@
 
 #include "../async.h"
 
+#include <errno.h>
 #include <sys/epoll.h>
 #include <sys/eventfd.h>
 #include <unistd.h>
@@ -83,7 +84,10 @@ void Event::reset() const noexcept {
     }
 
     epoll_event ev;
-    int ret = epoll_wait(epfd, &ev, 1, -1);
+    int ret = 0;
+    do {
+        ret = epoll_wait(epfd, &ev, 1, -1);
+    } while(ret == -1 && errno == EINTR);
 
     if(ret == -1) {
         die("Failed to wait on events: %", Log::sys_error());
-- 
2.43.0


From 27998743f2c2757c40e82479e99d2cf38a723732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:14 +0000
Subject: [PATCH 32/63] fix: Resetting an Event that is not signalled has no
 effect

---
 rpp/pos/async_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index b878caf..4960fbb 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -57,7 +57,7 @@ void Event::signal() const noexcept {
 void Event::reset() const noexcept {
     u64 value = 0;
     int ret = read(fd, &value, sizeof(value));
-    if(ret == -1) {
+    if(ret == -1 && errno != EAGAIN) {
         die("Failed to reset event: %", Log::sys_error());
     }
 }
-- 
2.43.0


From e2cfb891ff0464a1153c14bf5e9fe77c64b2a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:14 +0000
Subject: [PATCH 33/63] fix: Event::try_wait reports a signalled event

---
 rpp/pos/async_pos.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index 4960fbb..63609f4 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -2,6 +2,7 @@
 #include "../async.h"
 
 #include <errno.h>
+#include <poll.h>
 #include <sys/epoll.h>
 #include <sys/eventfd.h>
 #include <unistd.h>
@@ -63,7 +64,17 @@ void Event::reset() const noexcept {
 }
 
 [[nodiscard]] bool Event::try_wait() const noexcept {
-    return false;
+    pollfd event = {};
+    event.fd = fd;
+    event.events = static_cast<short>(mask);
+    int ret = 0;
+    do {
+        ret = poll(&event, 1, 0);
+    } while(ret == -1 && errno == EINTR);
+    if(ret == -1) {
+        die("Failed to poll event: %", Log::sys_error());
+    }
+    return ret > 0;
 }
 
 [[nodiscard]] u64 Event::wait_any(Slice<Event> events) noexcept {
-- 
2.43.0


From 0d4cf2865c455299e3f4e7f7e0d0b8ef46cbc2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:14 +0000
Subject: [PATCH 34/63] fix: Waiting for zero milliseconds finishes

---
 rpp/pos/asyncio_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 8748b85..4cc1508 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -74,6 +74,7 @@ namespace rpp::Async {
     itimerspec spec = {};
     spec.it_value.tv_sec = ms / 1000;
     spec.it_value.tv_nsec = (ms % 1000) * 1000000;
+    if(ms == 0) spec.it_value.tv_nsec = 1; // Zero would disarm the timer
 
     if(timerfd_settime(fd, 0, &spec, null) == -1) {
         die("Failed to set timerfd: %", Log::sys_error());
-- 
2.43.0


From 0a832fa76ad858501bca855f194a25eb69a3f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:14 +0000
Subject: [PATCH 35/63] fix: A Pool on a single-core machine has a thread

---
 rpp/pool.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpp/pool.h b/rpp/pool.h
index eaad301..3e249be 100644
--- a/rpp/pool.h
+++ b/rpp/pool.h
@@ -52,7 +52,7 @@ template<Allocator A = Alloc>
 struct Pool {
 
     explicit Pool() noexcept
-        : thread_states{Vec<Thread_State, A>::make(Thread::hardware_threads() - 1)} {
+        : thread_states{Vec<Thread_State, A>::make(Math::max(Thread::hardware_threads() - 1, u64{1}))} {
 
         u64 h_threads = Thread::hardware_threads();
         u64 n_threads = thread_states.length();
@@ -60,7 +60,8 @@ struct Pool {
 
         for(u64 i = 0; i < n_threads; i++) {
             threads.push(Thread::Thread([this, i, h_threads] {
-                u64 j = i < h_threads / 2 ? i * 2 : (i - h_threads / 2) * 2 + 1;
+                u64 evens = (h_threads + 1) / 2;
+                u64 j = i < evens ? i * 2 : (i - evens) * 2 + 1;
                 Thread::set_affinity(j);
                 do_work(i);
             }));
-- 
2.43.0


From 072de0a06a4b2086e8fd5f35e6e25f0536eb3768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:14 +0000
Subject: [PATCH 36/63] fix: Task<void>::then can be called

---
 rpp/async.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rpp/async.h b/rpp/async.h
index 8fb0f15..8b2d591 100644
--- a/rpp/async.h
+++ b/rpp/async.h
@@ -213,14 +213,15 @@ struct Task {
     }
 
     template<typename F>
-        requires Invocable<F, R> && Is_Task<Invoke_Result<F, R>>
+        requires(!Same<R, void>) && Invocable<F, R> && Is_Task<Invoke_Result<F, R>>
     [[nodiscard]] auto then(F&& f) noexcept -> Invoke_Result<F, R> {
-        if constexpr(Same<R, void>) {
-            co_await *this;
-            co_return (co_await f());
-        } else {
-            co_return (co_await f(co_await *this));
-        }
+        co_return (co_await f(co_await *this));
+    }
+    template<typename F>
+        requires Same<R, void> && Invocable<F> && Is_Task<Invoke_Result<F>>
+    [[nodiscard]] auto then(F&& f) noexcept -> Invoke_Result<F> {
+        co_await *this;
+        co_return (co_await f());
     }
 
 private:
-- 
2.43.0


From 278a519ff73e4777e94ebebe3fdc7d63dfebacb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:16 +0000
Subject: [PATCH 37/63] fix: A Pool can use another allocator

---
 rpp/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/pool.h b/rpp/pool.h
index 3e249be..db91367 100644
--- a/rpp/pool.h
+++ b/rpp/pool.h
@@ -59,7 +59,7 @@ struct Pool {
         assert(n_threads <= h_threads && n_threads <= 64);
 
         for(u64 i = 0; i < n_threads; i++) {
-            threads.push(Thread::Thread([this, i, h_threads] {
+            threads.push(Thread::Thread<A>([this, i, h_threads] {
                 u64 evens = (h_threads + 1) / 2;
                 u64 j = i < evens ? i * 2 : (i - evens) * 2 + 1;
                 Thread::set_affinity(j);
@@ -67,7 +67,7 @@ struct Pool {
             }));
         }
         pending_events.push(Event{});
-        event_thread = Thread::Thread([this] { do_events(); });
+        event_thread = Thread::Thread<A>([this] { do_events(); });
     }
     ~Pool() noexcept {
         shutdown.exchange(true);
-- 
2.43.0


From 02574b8b210c7c9dfbc083a23f40f872688d3cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 38/63] fix: Files::write opens its file for writing

---
 rpp/pos/files_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 1a9af7f..b9144a3 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -42,7 +42,7 @@ namespace rpp::Files {
     int fd = -1;
     Region(R) {
         auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_RDONLY);
+        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC, 0666);
     }
 
     if(fd == -1) {
-- 
2.43.0


From 3593780d729c29e0c55e77421d7bded5ad5cdd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 39/63] fix: Async::write gives a created file a defined mode

---
 rpp/pos/asyncio_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 4cc1508..b229284 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -47,7 +47,7 @@ namespace rpp::Async {
     int fd = -1;
     Region(R) {
         auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC);
+        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC, 0666);
     }
 
     if(fd == -1) {
-- 
2.43.0


From 766ba26890140b4d307fd0645d72c0b3b4c39da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 40/63] fix: Failed file operations close their descriptor

---
 rpp/pos/asyncio_pos.cpp | 2 ++
 rpp/pos/files_pos.cpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index b229284..f18f94c 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -35,6 +35,7 @@ namespace rpp::Async {
 
     if(::read(fd, data.data(), full_size) == -1) {
         warn("Failed to read file %: %", path_, Log::sys_error());
+        close(fd);
         co_return {};
     }
 
@@ -57,6 +58,7 @@ namespace rpp::Async {
 
     if(::write(fd, data.data(), data.length()) == -1) {
         warn("Failed to write file %: %", path_, Log::sys_error());
+        close(fd);
         co_return false;
     }
 
diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index b9144a3..8e9018d 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -30,6 +30,7 @@ namespace rpp::Files {
 
     if(::read(fd, data.data(), full_size) == -1) {
         warn("Failed to read file %: %", path_, Log::sys_error());
+        close(fd);
         return {};
     }
 
@@ -52,6 +53,7 @@ namespace rpp::Files {
 
     if(::write(fd, data.data(), data.length()) == -1) {
         warn("Failed to write file %: %", path_, Log::sys_error());
+        close(fd);
         return false;
     }
 
-- 
2.43.0


From 4f42f4b5353ddcd49e3ed0228bce540f2455cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 41/63] fix: Reading a directory or a pipe reports failure

---
 rpp/pos/asyncio_pos.cpp | 6 ++++++
 rpp/pos/files_pos.cpp   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index f18f94c..34c1d42 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -25,7 +25,13 @@ namespace rpp::Async {
         co_return {};
     }
 
+    struct stat info;
     off_t full_size = lseek(fd, 0, SEEK_END);
+    if(full_size == -1 || fstat(fd, &info) || S_ISDIR(info.st_mode)) {
+        warn("Failed to size file %: %", path_, Log::sys_error());
+        close(fd);
+        co_return {};
+    }
     lseek(fd, 0, SEEK_SET);
 
     assert(full_size <= UINT32_MAX);
diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 8e9018d..9a0b993 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -20,7 +20,13 @@ namespace rpp::Files {
         return {};
     }
 
+    struct stat info;
     off_t full_size = lseek(fd, 0, SEEK_END);
+    if(full_size == -1 || fstat(fd, &info) || S_ISDIR(info.st_mode)) {
+        warn("Failed to size file %: %", path_, Log::sys_error());
+        close(fd);
+        return {};
+    }
     lseek(fd, 0, SEEK_SET);
 
     assert(full_size <= RPP_UINT32_MAX);
-- 
2.43.0


From f5c8f3af9b85a5b2379b1c4e2669738c425db622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 42/63] fix: File operations complete partial transfers

---
 rpp/pos/asyncio_pos.cpp | 32 ++++++++++++++++++++++++--------
 rpp/pos/files_pos.cpp   | 32 ++++++++++++++++++++++++--------
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 34c1d42..ddeeb6d 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -2,6 +2,7 @@
 #include "../asyncio.h"
 #include "../files.h"
 
+#include <errno.h>
 #include <fcntl.h>
 #include <sys/epoll.h>
 #include <sys/stat.h>
@@ -39,11 +40,20 @@ namespace rpp::Async {
     Vec<u8, Files::Alloc> data(static_cast<u64>(full_size));
     data.resize(static_cast<u64>(full_size));
 
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
-        close(fd);
-        co_return {};
+    // One call may transfer only part of the data
+    u64 done = 0;
+    while(done < data.length()) {
+        ssize_t n = ::read(fd, data.data() + done, data.length() - done);
+        if(n == -1 && errno == EINTR) continue;
+        if(n == -1) {
+            warn("Failed to read file %: %", path_, Log::sys_error());
+            close(fd);
+            co_return {};
+        }
+        if(n == 0) break;
+        done += static_cast<u64>(n);
     }
+    data.resize(done);
 
     close(fd);
     co_return Opt{rpp::move(data)};
@@ -62,10 +72,16 @@ namespace rpp::Async {
         co_return false;
     }
 
-    if(::write(fd, data.data(), data.length()) == -1) {
-        warn("Failed to write file %: %", path_, Log::sys_error());
-        close(fd);
-        co_return false;
+    u64 done = 0;
+    while(done < data.length()) {
+        ssize_t n = ::write(fd, data.data() + done, data.length() - done);
+        if(n == -1 && errno == EINTR) continue;
+        if(n == -1) {
+            warn("Failed to write file %: %", path_, Log::sys_error());
+            close(fd);
+            co_return false;
+        }
+        done += static_cast<u64>(n);
     }
 
     close(fd);
diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 9a0b993..ff78db0 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -1,6 +1,7 @@
 
 #include "../files.h"
 
+#include <errno.h>
 #include <fcntl.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -34,11 +35,20 @@ namespace rpp::Files {
     Vec<u8, Alloc> data(static_cast<u64>(full_size));
     data.resize(static_cast<u64>(full_size));
 
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
-        close(fd);
-        return {};
+    // One call may transfer only part of the data
+    u64 done = 0;
+    while(done < data.length()) {
+        ssize_t n = ::read(fd, data.data() + done, data.length() - done);
+        if(n == -1 && errno == EINTR) continue;
+        if(n == -1) {
+            warn("Failed to read file %: %", path_, Log::sys_error());
+            close(fd);
+            return {};
+        }
+        if(n == 0) break;
+        done += static_cast<u64>(n);
     }
+    data.resize(done);
 
     close(fd);
     return Opt{rpp::move(data)};
@@ -57,10 +67,16 @@ namespace rpp::Files {
         return false;
     }
 
-    if(::write(fd, data.data(), data.length()) == -1) {
-        warn("Failed to write file %: %", path_, Log::sys_error());
-        close(fd);
-        return false;
+    u64 done = 0;
+    while(done < data.length()) {
+        ssize_t n = ::write(fd, data.data() + done, data.length() - done);
+        if(n == -1 && errno == EINTR) continue;
+        if(n == -1) {
+            warn("Failed to write file %: %", path_, Log::sys_error());
+            close(fd);
+            return false;
+        }
+        done += static_cast<u64>(n);
     }
 
     close(fd);
-- 
2.43.0


From 1efcd35f2b3b0409631cc8ae09ab97118ef2cd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 43/63] fix: Write times distinguish writes within one second

---
 rpp/pos/files_pos.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index ff78db0..391b818 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -92,7 +92,13 @@ namespace rpp::Files {
             warn("Failed to stat file %: %", path_, Log::sys_error());
             return {};
         }
-        return Opt{static_cast<File_Time>(info.st_mtime)};
+#ifdef RPP_OS_MACOS
+        timespec time = info.st_mtimespec;
+#else
+        timespec time = info.st_mtim;
+#endif
+        return Opt{static_cast<File_Time>(time.tv_sec) * 1000000000 +
+                   static_cast<File_Time>(time.tv_nsec)};
     }
 }
 
-- 
2.43.0


From 22df249b9088fb454f827cc07526aadf5f6448dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 44/63] fix: Assigning to a Udp closes its socket

---
 rpp/pos/net_pos.cpp | 1 +
 rpp/w32/net_w32.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 5da2d9b..72420b3 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -44,6 +44,7 @@ Udp::Udp(Udp&& src) noexcept {
 }
 
 Udp& Udp::operator=(Udp&& src) noexcept {
+    this->~Udp();
     fd = src.fd;
     src.fd = -1;
     return *this;
diff --git a/rpp/w32/net_w32.cpp b/rpp/w32/net_w32.cpp
index 17178f5..713d959 100644
--- a/rpp/w32/net_w32.cpp
+++ b/rpp/w32/net_w32.cpp
@@ -102,6 +102,7 @@ Udp::Udp(Udp&& src) noexcept {
 }
 
 Udp& Udp::operator=(Udp&& src) noexcept {
+    this->~Udp();
     socket = src.socket;
     src.socket = INVALID_SOCKET;
     return *this;
-- 
2.43.0


From a5a1da2255557bf0c1737e1660abeeea2adefbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 45/63] fix: An Address is parsed from exactly its text

---
 rpp/pos/net_pos.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 72420b3..506016e 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -12,9 +12,12 @@ Address::Address(String_View address, u16 port) noexcept {
     sockaddr_.sin_family = AF_INET;
     sockaddr_.sin_port = htons(port);
 
-    if(inet_pton(AF_INET, reinterpret_cast<const char*>(address.data()),
-                 &sockaddr_.sin_addr.s_addr) != 1) {
-        die("Failed to create address: %", Log::sys_error());
+    Region(R) {
+        auto text = address.terminate<Mregion<R>>();
+        if(inet_pton(AF_INET, reinterpret_cast<const char*>(text.data()),
+                     &sockaddr_.sin_addr.s_addr) != 1) {
+            die("Failed to create address: %", Log::sys_error());
+        }
     }
 }
 
-- 
2.43.0


From 933653204e8f6bc80f0831aa2507d3297ba199db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 46/63] fix: A failed Udp::recv does not report a datagram

---
 rpp/pos/net_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 506016e..4b89a8d 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -67,7 +67,7 @@ void Udp::bind(Address address) noexcept {
     i64 ret = ::recvfrom(fd, in.begin(), in.capacity, MSG_DONTWAIT | MSG_TRUNC,
                          reinterpret_cast<sockaddr*>(&src.sockaddr_), &src_len);
 
-    if(ret == -1 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+    if(ret == -1) {
         return Opt<Data>{};
     }
 
-- 
2.43.0


From 588cdb1283f01b46cf5a0286318265103b6fb5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 47/63] fix: Udp::send does not read past its packet

---
 rpp/pos/net_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 4b89a8d..60cb788 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -76,6 +76,7 @@ void Udp::bind(Address address) noexcept {
 
 [[nodiscard]] u64 Udp::send(Address address, const Packet& out, u64 length) noexcept {
 
+    assert(length <= out.capacity);
     i64 ret = ::sendto(fd, out.data(), length, 0,
                        reinterpret_cast<const sockaddr*>(&address.sockaddr_), sizeof(sockaddr_in));
     if(ret == -1) {
-- 
2.43.0


From 4094ad5030f099ebb4eb58950dfee08e63cdaf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:57 +0000
Subject: [PATCH 48/63] fix: Unsubscribing an unknown log callback is fatal
 instead of blocking

---
 rpp/impl/log.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rpp/impl/log.cpp b/rpp/impl/log.cpp
index 11dc892..dcc93f9 100644
--- a/rpp/impl/log.cpp
+++ b/rpp/impl/log.cpp
@@ -185,11 +185,16 @@ subscribe(Function<void(Level, Thread::Id, Time, Location, String_View)> f) noex
 }
 
 void unsubscribe(Token token) noexcept {
-    Thread::Lock lock(g_log_data.lock);
-    g_log_data.callbacks.erase(token);
-    if(g_log_data.callbacks.empty()) {
-        g_log_data.callbacks.~Map();
+    bool found = false;
+    {
+        Thread::Lock lock(g_log_data.lock);
+        found = g_log_data.callbacks.try_erase(token);
+        if(g_log_data.callbacks.empty()) {
+            g_log_data.callbacks.~Map();
+        }
     }
+    // Failing logs, which takes the lock
+    if(!found) die("Failed to unsubscribe log callback %!", token);
 }
 
 } // namespace Log
-- 
2.43.0


From 9d5ac5b9e06ae2067298c8f64d1f1378cff1c25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:10 +0000
Subject: [PATCH 49/63] fix: Entering a profile scope again counts for that
 scope

---
 rpp/impl/profile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index f1b40a3..6ae6fe3 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -134,8 +134,9 @@ void Profile::Frame_Profile::enter(Log::Location loc) noexcept {
         nodes.push(Timing_Node::make(rpp::move(loc), current_node));
         current_node = child_idx;
     } else {
-        node.begin = timestamp();
-        node.calls++;
+        Timing_Node& child = nodes[current_node];
+        child.begin = timestamp();
+        child.calls++;
     }
 }
 
-- 
2.43.0


From 3bc4dcd143b19b27fdaeb1d985db4c7d738bc121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:10 +0000
Subject: [PATCH 50/63] fix: A profiled thread can end during a frame or while
 timings are read

---
 rpp/profile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/profile.h b/rpp/profile.h
index 62d2369..dc26bd1 100644
--- a/rpp/profile.h
+++ b/rpp/profile.h
@@ -141,9 +141,9 @@ private:
         }
 
         void finalize() noexcept {
-            frames = {};
             if(during_frame) Profile::end_frame();
             if(registered) Profile::unregister_thread();
+            frames = {};
         }
 
         bool ready() noexcept {
-- 
2.43.0


From 4dfb5fef292a0637c97923fa1615e3cb4f78a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:39 +0000
Subject: [PATCH 51/63] fix: decay types that are both const and volatile

---
 rpp/utility.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rpp/utility.h b/rpp/utility.h
index cd1d5ce..ad0c95b 100644
--- a/rpp/utility.h
+++ b/rpp/utility.h
@@ -249,6 +249,11 @@ struct Decay<volatile T> {
     using type = typename Decay<T>::type;
 };
 
+template<typename T>
+struct Decay<const volatile T> {
+    using type = typename Decay<T>::type;
+};
+
 template<typename T>
 struct Decay<T&> {
     using type = typename Decay<T>::type;
-- 
2.43.0


From 5bb268037f27a7e72207a2cff6ae0911004550b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:39 +0000
Subject: [PATCH 52/63] fix: do not take enumerations for records

---
 rpp/reflect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/reflect.h b/rpp/reflect.h
index ba854dd..970ea96 100644
--- a/rpp/reflect.h
+++ b/rpp/reflect.h
@@ -288,14 +288,14 @@ concept Enum = requires() {
     Reflectable<typename Refl<E>::underlying>;
     All<Is_Enum_Case, typename Refl<E>::members>;
     Same<E, decltype(Refl<E>::default_)>;
-    Refl<E>::kind == Kind::enum_;
+    requires Refl<E>::kind == Kind::enum_;
 };
 
 template<typename R>
 concept Record = requires() {
     Reflectable<R>;
     All<Is_Record_Field, typename Refl<R>::members>;
-    Refl<R>::kind == Kind::record_;
+    requires Refl<R>::kind == Kind::record_;
 };
 
 template<typename F>
-- 
2.43.0


From be49c7e4b26efd680c81fb4d28e6c49fe9397edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 53/63] fix: the top of an empty heap is not an element

---
 rpp/heap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/heap.h b/rpp/heap.h
index dc65cae..fe6ab72 100644
--- a/rpp/heap.h
+++ b/rpp/heap.h
@@ -174,9 +174,11 @@ struct Heap {
     }
 
     [[nodiscard]] T& top() noexcept {
+        assert(length_ > 0);
         return data_[0];
     }
     [[nodiscard]] const T& top() const noexcept {
+        assert(length_ > 0);
         return data_[0];
     }
 
-- 
2.43.0


From 915d05dfe444292e63eaf1cbfd18bcb329e40583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 54/63] fix: do not let the bounds of a subslice wrap around

---
 rpp/slice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/slice.h b/rpp/slice.h
index f2f2058..ff1c062 100644
--- a/rpp/slice.h
+++ b/rpp/slice.h
@@ -114,7 +114,7 @@ struct Slice {
     }
 
     [[nodiscard]] constexpr Slice sub(u64 start, u64 length) const noexcept {
-        assert(start + length <= length_);
+        assert(start <= length_ && length <= length_ - start);
         return Slice{data_ + start, length};
     }
 
-- 
2.43.0


From 9e70121495d237bf4cf0b6323ba97d902ea6a68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 55/63] fix: check the index of a vector or quaternion
 component, as Mat4 does

---
 rpp/vmath.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index 42535c2..2f5e09c 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -75,9 +75,11 @@ struct Vect : Vect_Base<T, N> {
     constexpr Vect& operator=(Vect&&) noexcept = default;
 
     constexpr T& operator[](u64 idx) noexcept {
+        assert(idx < N);
         return this->data[idx];
     }
     constexpr const T& operator[](u64 idx) const noexcept {
+        assert(idx < N);
         return this->data[idx];
     }
 
@@ -687,9 +689,11 @@ struct Quat : detail::Vect_Base<f32, 4> {
     }
 
     constexpr f32& operator[](int idx) noexcept {
+        assert(idx >= 0 && idx < 4);
         return data[idx];
     }
     constexpr f32 operator[](int idx) const noexcept {
+        assert(idx >= 0 && idx < 4);
         return data[idx];
     }
 
-- 
2.43.0


From b8208fdef6d5e04cb622ef0e98f663b7b1b894d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:41 +0000
Subject: [PATCH 56/63] fix: report too many nested regions instead of
 overflowing the stack

---
 rpp/impl/alloc.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/impl/alloc.cpp b/rpp/impl/alloc.cpp
index 9ccae80..d5fc549 100644
--- a/rpp/impl/alloc.cpp
+++ b/rpp/impl/alloc.cpp
@@ -67,8 +67,12 @@ void Region_Allocator::free(Region brand, void*) noexcept {
 }
 
 void Region_Allocator::begin(Region brand) noexcept {
+    if(current_region + 1 >= MAX_REGION_DEPTH) {
+        // Logging the failure opens regions itself.
+        current_region = 0;
+        die("Region depth exceeded!");
+    }
     current_region++;
-    assert(current_region < MAX_REGION_DEPTH);
     region_offsets[current_region] = region_offsets[current_region - 1];
     region_brands[current_region] = brand;
 }
-- 
2.43.0


From 33592a1b9876f4179788f37a97a18d3e2051e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:52 +0000
Subject: [PATCH 57/63] fix: Range_Allocator::statistics reads under the lock

---
 rpp/range_allocator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index 18bcfba..d3c3a5f 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -216,6 +216,7 @@ struct Range_Allocator {
     };
 
     [[nodiscard]] Stats statistics() noexcept {
+        Thread::Lock lock(mutex);
         return stats;
     }
 
-- 
2.43.0


From 27fbdfdd8bcbddb87fa96d6f335ecc94afd9b77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:52 +0000
Subject: [PATCH 58/63] fix: absurd region allocations die instead of wrapping
 around

---
 rpp/impl/alloc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/impl/alloc.cpp b/rpp/impl/alloc.cpp
index d5fc549..fb07d76 100644
--- a/rpp/impl/alloc.cpp
+++ b/rpp/impl/alloc.cpp
@@ -52,6 +52,8 @@ static void assert_brand(Region brand) noexcept {
 
 [[nodiscard]] void* Region_Allocator::alloc(Region brand, u64 size) noexcept {
     assert_brand(brand);
+    // Rounding and adding the chunk header must not wrap around.
+    assert(size <= Limits<u64>::max() / 2);
     size = Math::align(size, REGION_ALIGN);
     if(chunks->size - chunks->used < size) {
         new_chunk(size);
-- 
2.43.0


From 07780648029aad5c201ee0b25b054b932476ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:38 +0000
Subject: [PATCH 59/63] fix: long sleeps wrapped around, interrupted ones ended
 early

---
 rpp/pos/thread_pos.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/thread_pos.cpp b/rpp/pos/thread_pos.cpp
index bee9967..ec27545 100644
--- a/rpp/pos/thread_pos.cpp
+++ b/rpp/pos/thread_pos.cpp
@@ -17,6 +17,7 @@
 #include <errno.h>
 #include <string.h>
 #include <sys/syscall.h>
+#include <time.h>
 #include <unistd.h>
 
 namespace rpp::Thread {
@@ -35,7 +36,10 @@ namespace rpp::Thread {
 static_assert(sizeof(Id) == sizeof(pthread_t), "Id != pthread_t");
 
 void sleep(u64 ms) noexcept {
-    usleep(ms * 1000);
+    struct timespec left;
+    left.tv_sec = static_cast<time_t>(ms / 1000);
+    left.tv_nsec = static_cast<long>(ms % 1000) * 1000000;
+    while(nanosleep(&left, &left) == -1 && errno == EINTR);
 }
 
 [[nodiscard]] u64 id_len() noexcept {
-- 
2.43.0


From 1567625006e3f7967956348df38b535f610230c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:38 +0000
Subject: [PATCH 60/63] fix: signalling a flag its waiter disposes of at once
 is not fatal

---
 rpp/pos/thread_pos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/thread_pos.cpp b/rpp/pos/thread_pos.cpp
index ec27545..0e6a631 100644
--- a/rpp/pos/thread_pos.cpp
+++ b/rpp/pos/thread_pos.cpp
@@ -179,7 +179,8 @@ void Flag::signal() noexcept {
 #ifdef RPP_OS_LINUX
     __atomic_exchange_n(&value_, 1, __ATOMIC_SEQ_CST);
     int ret = syscall(SYS_futex, &value_, FUTEX_WAKE, RPP_INT32_MAX, NULL, NULL, 0);
-    if(ret == -1) {
+    // A waiter may already have seen the signal and disposed of the flag.
+    if(ret == -1 && errno != EFAULT) {
         die("Failed to wake futex: %", error(errno));
     }
 #else
-- 
2.43.0


From 8d2f487417f0a1a25b8b8837cdc4836a09cf1318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:38 +0000
Subject: [PATCH 61/63] fix: logging in static constructors and destructors was
 lost or fatal

---
 rpp/impl/log.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/rpp/impl/log.cpp b/rpp/impl/log.cpp
index dcc93f9..dbdb5f8 100644
--- a/rpp/impl/log.cpp
+++ b/rpp/impl/log.cpp
@@ -34,13 +34,18 @@ struct Static_Data {
         file = fopen("debug.log", "w");
 #endif
     }
-    ~Static_Data() noexcept {
-        if(file) fclose(file);
-        file = null;
-    }
+    ~Static_Data() noexcept = delete;
 };
 
-static Static_Data g_log_data;
+// Constructed on first use, which may be in another file's static initialization, and never
+// destroyed, as static destructors may log too.
+[[nodiscard]] static Static_Data& log_data() noexcept {
+    alignas(Static_Data) static u8 storage[sizeof(Static_Data)];
+    static Static_Data* data = new(storage) Static_Data{};
+    return *data;
+}
+[[maybe_unused]] static Static_Data& g_log_init = log_data();
+
 static thread_local u64 g_log_indent = 0;
 
 #ifdef RPP_OS_WINDOWS
@@ -144,6 +149,7 @@ void output(Level level, const Location& loc, String_View msg) noexcept {
     default: RPP_UNREACHABLE;
     }
 
+    Static_Data& g_log_data = log_data();
     Thread::Id thread = Thread::this_id();
     ::time_t timer = ::time(null);
 
@@ -178,6 +184,7 @@ Scope::~Scope() noexcept {
 
 [[nodiscard]] Token
 subscribe(Function<void(Level, Thread::Id, Time, Location, String_View)> f) noexcept {
+    Static_Data& g_log_data = log_data();
     Thread::Lock lock(g_log_data.lock);
     Token t = g_log_data.next++;
     g_log_data.callbacks.insert(t, rpp::move(f));
@@ -185,6 +192,7 @@ subscribe(Function<void(Level, Thread::Id, Time, Location, String_View)> f) noex
 }
 
 void unsubscribe(Token token) noexcept {
+    Static_Data& g_log_data = log_data();
     bool found = false;
     {
         Thread::Lock lock(g_log_data.lock);
-- 
2.43.0


From 079bcef5ef296673c679d6799bbf5a66c2f66dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:51 +0000
Subject: [PATCH 62/63] fix: containers released by static destructors were
 fatal

---
 rpp/impl/profile.cpp | 2 +-
 rpp/profile.h        | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index 6ae6fe3..402850b 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -190,7 +190,7 @@ void Profile::alloc(Alloc a) noexcept {
                 }
             }
         }
-        {
+        if(!thread_ended) {
             Thread::Lock lock(this_thread.frames_lock);
             if(this_thread.during_frame) {
                 this_thread.frames.back().allocations.push(rpp::move(a));
diff --git a/rpp/profile.h b/rpp/profile.h
index dc26bd1..4910979 100644
--- a/rpp/profile.h
+++ b/rpp/profile.h
@@ -138,6 +138,7 @@ private:
         }
         ~Thread_Profile() noexcept {
             finalize();
+            thread_ended = true;
         }
 
         void finalize() noexcept {
@@ -147,6 +148,7 @@ private:
         }
 
         bool ready() noexcept {
+            if(thread_ended) return false;
             if(!registered) Profile::register_thread();
             return during_frame;
         }
@@ -160,6 +162,8 @@ private:
     static inline Thread::Mutex threads_lock;
     static inline Thread::Mutex allocs_lock;
     static inline Thread::Mutex finalizers_lock;
+    // Static and thread-local destructors may still allocate once this_thread is gone.
+    static inline thread_local bool thread_ended = false;
     static inline thread_local Thread_Profile this_thread;
     static inline Map<Thread::Id, Ref<Thread_Profile>, Mhidden> threads;
     static inline Map<String_View, Alloc_Profile, Mhidden> allocs;
-- 
2.43.0


From 8cb4d063cb3038a3d4c2ad60ffb97d1e7c591bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:33 +0000
Subject: [PATCH 63/63] fix: Function prints its whole return type, like its
 parameters'

---
 rpp/function.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rpp/function.h b/rpp/function.h
index e4e506b..4213dd0 100644
--- a/rpp/function.h
+++ b/rpp/function.h
@@ -121,9 +121,9 @@ struct Measure<Function<R(Args...)>> {
     using Fn = R(Args...);
     [[nodiscard]] static u64 measure(const Function<Fn>&) noexcept {
         u64 length = 10;
-        length += String_View{Reflect::Refl<R>::name}.length();
         length += 2;
         Region(Rg) {
+            length += format_typename<R, Mregion<Rg>>().length();
             if constexpr(sizeof...(Args) > 0)
                 length += (format_typename<Args, Mregion<Rg>>().length() + ...);
         }
@@ -154,7 +154,9 @@ struct Write<O, Function<R(Args...)>> {
     constexpr static u64 N = sizeof...(Args);
     [[nodiscard]] static u64 write(String<O>& output, u64 idx, const Function<Fn>&) noexcept {
         idx = output.write(idx, "Function{"_v);
-        idx = output.write(idx, String_View{Reflect::Refl<R>::name});
+        Region(Rg) {
+            idx = output.write(idx, format_typename<R, Mregion<Rg>>());
+        }
         idx = output.write(idx, '(');
         Write_Type<O, N> iterator{0, idx, output};
         Reflect::Iter<Write_Type<O, N>, List<Args...>>::apply(iterator);
-- 
2.43.0

