From b743f4d297a86de2df28f9d2a17b390a9627494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 01/52] fix: bip buffer peek/poll must refuse more bytes than
 region A holds

---
 src/estd/ext/willemt/bipbuffer/bipbuffer.c | 4 ++--
 src/estd/internal/impl/streambuf/bipbuf.h  | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/estd/ext/willemt/bipbuffer/bipbuffer.c b/src/estd/ext/willemt/bipbuffer/bipbuffer.c
index fdcc2eb..6b2a543 100644
--- a/src/estd/ext/willemt/bipbuffer/bipbuffer.c
+++ b/src/estd/ext/willemt/bipbuffer/bipbuffer.c
@@ -97,7 +97,7 @@ int bipbuf_offer(bipbuf_t* me, const unsigned char *data, const int size)
 unsigned char *bipbuf_peek(const bipbuf_t* me, const unsigned int size)
 {
     /* make sure we can actually peek at this data */
-    if (me->size < me->a_start + size)
+    if (me->a_end - me->a_start < size)
         return NULL;
 
     if (bipbuf_is_empty(me))
@@ -112,7 +112,7 @@ unsigned char *bipbuf_poll(bipbuf_t* me, const unsigned int size)
         return NULL;
 
     /* make sure we can actually poll this data */
-    if (me->size < me->a_start + size)
+    if (me->a_end - me->a_start < size)
         return NULL;
 
     void *end = me->data + me->a_start;
diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 3187c62..60807bd 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -53,7 +53,9 @@ protected:
     int sync()
     {
         // DEBT: A lot of tuning opportunity here
-        const unsigned sz = buf_.used();
+        // used() also counts the wrapped region, which is not contiguous with the first one
+        const bipbuf_t* const native = buf_.native();
+        const unsigned sz = native->a_end - native->a_start;
         auto b = (char_type*)buf_.peek(sz);
         unsigned written = base_type::rdbuf().sputn(b, sz);
         if(written == 0) return -1;
-- 
2.43.0


From c59506d39800857c0ddc690fc2c832d647da5db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 02/52] fix: align layer1::bipbuf storage for the bipbuf_t
 placed in it

---
 src/estd/internal/bip/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/bip/buffer.h b/src/estd/internal/bip/buffer.h
index 1c699c2..85226d4 100644
--- a/src/estd/internal/bip/buffer.h
+++ b/src/estd/internal/bip/buffer.h
@@ -77,7 +77,7 @@ class bipbuf
     // https://stackoverflow.com/questions/11373203/accessing-inactive-union-member-and-undefined-behavior
     // NOTE: Above comment N/A we have left union behind
 
-    byte backing_buffer_[sizeof(bipbuf_t) + N];
+    alignas(bipbuf_t) byte backing_buffer_[sizeof(bipbuf_t) + N];
 
     // Can't do union here
     // https://github.com/malachi-iot/estdlib/issues/30
-- 
2.43.0


From 5e24005767c09e66fc7f7a262a61eb5503341819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 03/52] fix: array::back() returns the last element

---
 src/estd/internal/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/array.h b/src/estd/internal/array.h
index ac95c54..fe3967f 100644
--- a/src/estd/internal/array.h
+++ b/src/estd/internal/array.h
@@ -151,8 +151,8 @@ struct array : Impl
     reference front() { return *begin(); }
     constexpr const_reference front() const { return *begin(); }
 
-    reference back() { return *base_type::end(); }
-    constexpr const_reference back() const { return *base_type::end(); }
+    reference back() { return *(end() - 1); }
+    constexpr const_reference back() const { return *(end() - 1); }
 
     reference operator[](size_type pos) { return *base_type::get_at(pos); }
     constexpr const_reference operator[](size_type pos) const
-- 
2.43.0


From ea69a9fd330f4eca9635fbf9424fc6ee0056d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 04/52] fix: starts_with accepts a prefix equal to the whole
 sequence

---
 src/estd/internal/container/starts_with.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/container/starts_with.h b/src/estd/internal/container/starts_with.h
index dae9c13..1d87036 100644
--- a/src/estd/internal/container/starts_with.h
+++ b/src/estd/internal/container/starts_with.h
@@ -12,14 +12,16 @@ inline ESTD_CPP_CONSTEXPR(14) bool starts_with_n(It1 lhs, It2 rhs, int count_lhs
 {
     // DEBT: Using signed int here is fiddly, since incoming count likely won't be signed
 
-    while(count_lhs-- && count_rhs--)
+    // if compare_to is longer than we are, then it's also a fail
+    if(count_rhs > count_lhs) return false;
+
+    while(count_rhs--)
         if(*lhs++ != *rhs++)
         {
             return false;
         }
 
-    // if compare_to is longer than we are, then it's also a fail
-    return count_lhs != -1;
+    return true;
 }
 
 
-- 
2.43.0


From cd018088ca521b8a3224327cd053afda7fb4f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 05/52] fix: null terminator counts towards required capacity;
 _erase moves whole elements

---
 src/estd/internal/dynamic_array.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 0e83625..fab6bb1 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -131,10 +131,13 @@ protected:
 
     bool ensure_total_capacity(size_type new_size, size_type pad = 0)
     {
-        if(new_size > capacity())
+        // terminator, if any, needs room too
+        const size_t required = size_t(new_size) + (impl_type::uses_termination() ? 1 : 0);
+
+        if(required > capacity())
         {
             // TODO: Do an assert here, or return true/false to indicate success
-            if(!reserve(new_size + pad)) return false;
+            if(!reserve(required + pad)) return false;
         }
 
         return true;
@@ -500,7 +503,7 @@ public:
         else
             impl().size(prev_size - count);
 
-        memmove(raw, raw + count, prev_size - (index + count));
+        memmove(raw, raw + count, (prev_size - (index + count)) * sizeof(value_type));
 
         unlock();
     }
-- 
2.43.0


From 0ace93aa534256aa72874dba108233acfe05965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 06/52] fix: empty() of capacity-sized arrays was inverted

---
 src/estd/internal/impl/dynamic_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/impl/dynamic_array.h b/src/estd/internal/impl/dynamic_array.h
index c855988..a55b874 100644
--- a/src/estd/internal/impl/dynamic_array.h
+++ b/src/estd/internal/impl/dynamic_array.h
@@ -226,7 +226,7 @@ public:
 
     ESTD_CPP_CONSTEXPR_RET bool empty(const handle_descriptor& hd) const
     {
-        return hd.size() > 0;
+        return hd.size() == 0;
     }
 
     ESTD_CPP_CONSTEXPR_RET size_type size(const handle_descriptor& hd) const
-- 
2.43.0


From 9371353f6e18862c329bec797a27bef1d62dc1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 07/52] fix: find/rfind/find_*_of stay within the searched
 array and report absolute positions

---
 src/estd/internal/runtime_array.h | 44 +++++++++++++++----------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index a189959..59be44b 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -153,6 +153,8 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool starts_with(const_reference ch) const
     {
+        if(size() == 0) return false;
+
         const bool r = *clock(0, 1) == ch;
 
         cunlock();
@@ -170,6 +172,8 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool ends_with(const_reference ch) const
     {
+        if(size() == 0) return false;
+
         const bool r = *clock(size() - 1, 1) == ch;
 
         cunlock();
@@ -398,14 +402,16 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
-        const_pointer data = clock();
-        const_pointer end = data + size();
+        const size_type sz = size();
 
-        data += pos;
+        if(pos > sz || count > sz - pos) return npos;
 
-        for(const_pointer i = data; i != end; ++i)
+        const_pointer data = clock();
+        const_pointer last = data + (sz - count);
+
+        for(const_pointer i = data + pos; i <= last; ++i)
         {
-            if(memcmp(s, i, count) == 0)
+            if(memcmp(s, i, count * sizeof(value_type)) == 0)
             {
                 cunlock();
                 return i - data;
@@ -428,24 +434,11 @@ public:
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
         const size_type sz = size();
-        if(pos >= sz) pos = sz - 1;
 
-        unsigned remainder = sz - pos;
+        if(count > sz) return npos;
 
-        // if remaining characters including & after pos wouldn't fit 's'
-        // i.e. "Hello" finding "llo" at pos 4 ("o" = remainder 1, count 3)
-        if(remainder < count)
-        {
-            // Make sure there's enough room to move backwards for a useful
-            // comparison
-            // i.e. "Hello" finding "llo" at pos 4 (can we move back 2 to pos=2 reach a new remainder of 3?)
-            if(pos < count - remainder) return npos;
-
-            // skip over compares that can't succeed where pos is too close
-            // to end
-            // i.e. "Hello" finding "llo" at pos 4 ("o") moves back 2
-            pos -= count - remainder;
-        }
+        // Last position at which 's' still fits
+        if(pos > sz - count) pos = sz - count;
 
         const_pointer data = clock();
         const_pointer rend = data - 1;
@@ -454,7 +447,7 @@ public:
 
         for(; data != rend; --pos, --data)
         {
-            if(memcmp(s, data, count) == 0)
+            if(memcmp(s, data, count * sizeof(value_type)) == 0)
             {
                 cunlock();
                 return pos;
@@ -469,6 +462,8 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
+        if(pos >= size()) return npos;
+
         const_pointer data = clock();
         const_pointer end = data + size();
 
@@ -482,7 +477,10 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
-        if(pos == npos) pos = size() - 1;   // DEBT: I think this line should go back up to string
+        const size_type sz = size();
+
+        if(sz == 0) return npos;
+        if(pos >= sz) pos = sz - 1;     // DEBT: I think this line should go back up to string
 
         const_pointer data = clock();
         const_pointer rend = data - 1;
-- 
2.43.0


From 3fcff7b8c1288cf39984cb537e505353179764f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 08/52] fix: string compare is lexicographical

---
 src/estd/internal/string.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/string.h b/src/estd/internal/string.h
index 62974c3..03fc078 100644
--- a/src/estd/internal/string.h
+++ b/src/estd/internal/string.h
@@ -62,11 +62,12 @@ protected:
     {
         size_type raw_size = base_type::size();
 
-        if(raw_size < s_size) return -1;
-        if(raw_size > s_size) return 1;
+        const int result = helper::compare(*this, s, raw_size < s_size ? raw_size : s_size);
 
-        // gets here if size matches
-        return helper::compare(*this, s, s_size);
+        if(result != 0) return result < 0 ? -1 : 1;
+
+        // gets here if common portion matches
+        return raw_size < s_size ? -1 : raw_size > s_size;
     }
 
     // +++ non-locking helpers, protected so only conforming child classes expose them
-- 
2.43.0


From 53d8a860d9c0137cfcbd720c06bf34c4ab12077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 09/52] fix: span::subspan default count is the remainder

---
 src/estd/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/span.h b/src/estd/span.h
index 83fe184..697de4f 100644
--- a/src/estd/span.h
+++ b/src/estd/span.h
@@ -200,7 +200,7 @@ public:
 
     span<element_type> subspan(size_type offset, size_type count = detail::dynamic_extent())
     {
-        if(count == detail::dynamic_extent::value) count = base_type::size();
+        if(count == detail::dynamic_extent::value) count = base_type::size() - offset;
 
         pointer data = base_type::data();
 
-- 
2.43.0


From bbea8136e3d5266518c9fa724a4a1932b14cfb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 10/52] fix: string_view::substr clamps count to what is
 available

---
 src/estd/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/string_view.h b/src/estd/string_view.h
index 2ed3669..a5bff94 100644
--- a/src/estd/string_view.h
+++ b/src/estd/string_view.h
@@ -112,7 +112,7 @@ public:
         basic_string_view copy(*this);
 
         copy.remove_prefix(pos);
-        if(count != base_type::npos)
+        if(count < copy.size())
         {
             allocator_type& a = copy.get_allocator();
 
-- 
2.43.0


From d206f9041645e591984ef67670ea6cb2ea6a8529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 11/52] fix: unbounded (N=0) fixed allocators use size_t
 instead of an 8-bit size_type

---
 src/estd/allocators/fixed.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/allocators/fixed.h b/src/estd/allocators/fixed.h
index bc3e8fd..fd673fc 100644
--- a/src/estd/allocators/fixed.h
+++ b/src/estd/allocators/fixed.h
@@ -199,7 +199,9 @@ public:
 // NOTE: uninitialized_array is handy to use for TBuffer to avoid value-init of all the elements
 template <
         class T, size_t len, class Buffer = T[len],
-        class Size = typename internal::deduce_fixed_size_t<len>::size_type>
+        // unbounded mode has no length to deduce a narrower size from
+        class Size = typename conditional<len == 0, size_t,
+            typename internal::deduce_fixed_size_t<len>::size_type>::type>
 struct single_fixedbuf_allocator : public
         single_allocator_base<T, Buffer, Size>
 {
-- 
2.43.0


From bdf09332aa0694b89b1b0d318a74a0849f73fcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 12/52] fix: string_view::empty() did not compile

---
 src/estd/internal/impl/allocated_array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/impl/allocated_array.h b/src/estd/internal/impl/allocated_array.h
index 53dfcf5..a2b1016 100644
--- a/src/estd/internal/impl/allocated_array.h
+++ b/src/estd/internal/impl/allocated_array.h
@@ -14,6 +14,8 @@ struct allocated_array : estd::handle_descriptor<Allocator>
 
     ESTD_CPP_DEFAULT_CTOR(allocated_array)
     ESTD_CPP_FORWARDING_CTOR(allocated_array)
+
+    constexpr bool empty() const { return base_type::size() == 0; }
 };
 
 
-- 
2.43.0


From 9302c9e964c545c2b27efd5c883ca63f2342974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:13 +0000
Subject: [PATCH 13/52] fix: span::first<N>() did not compile

---
 src/estd/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/span.h b/src/estd/span.h
index 697de4f..a0ee13b 100644
--- a/src/estd/span.h
+++ b/src/estd/span.h
@@ -43,7 +43,7 @@ public:
     template <estd::size_t count>
     constexpr span<T, count> first() const
     {
-        return data_;
+        return span<T, count>(data_);
     }
 
     constexpr span<T> first(size_type count) const
-- 
2.43.0


From 6437fab9167fcb1fabd718775446e02ab65f43eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 14/52] fix: dynamic_array::insert of an lvalue did not compile

---
 src/estd/internal/dynamic_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index fab6bb1..c4a6455 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -338,7 +338,7 @@ protected:
         // to_insert_pos to to_insert_pos + 1
         copy_assist(data + to_insert_pos, data + sz, data + sz + 1);
 
-        new (data + to_insert_pos) value_type(to_insert_value);
+        new (data + to_insert_pos) value_type(*to_insert_value);
 
         unlock();
     }
-- 
2.43.0


From 5888249ee2eceffebd3fd6759ab86317f3234ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:03 +0000
Subject: [PATCH 15/52] fix: inserting, erasing and shrinking non-trivial
 elements of dynamic arrays constructs and destroys them

---
 src/estd/internal/dynamic_array.h | 67 ++++++++++++++++++++++++++++---
 1 file changed, 62 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index c4a6455..2293be9 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -197,7 +197,8 @@ protected:
     // to constructors
 #ifdef __cpp_rvalue_references
     template <class T2 = value_type>
-    typename enable_if<is_move_assignable<T2>::value>::type
+    typename enable_if<is_move_assignable<T2>::value &&
+        is_trivially_copyable<T2>::value>::type
     move_assist(pointer first, pointer last, pointer d_last)
     {
         move_backward(first, last, d_last);
@@ -207,7 +208,8 @@ protected:
     template <class T2 = value_type>
     typename enable_if<
         is_move_constructible<T2>::value &&
-        !is_move_assignable<T2>::value>::type
+        !is_move_assignable<T2>::value &&
+        is_trivially_copyable<T2>::value>::type
     // Copies from first to last, in reverse order, using move constructor
     move_assist(pointer first, pointer last, pointer d_last)
     {
@@ -215,6 +217,44 @@ protected:
             new (--d_last) T2(std::move(*--last));
     }
 #endif
+
+    // Destination begins where no element lives yet, so non-trivial elements are
+    // relocated (move constructed, source destroyed) in reverse order.  Leaves
+    // [first, first + (d_last - last)) without elements
+    template <class T2 = value_type>
+    typename enable_if<!is_trivially_copyable<T2>::value>::type
+    move_assist(pointer first, pointer last, pointer d_last)
+    {
+        while (first != last)
+        {
+            new (--d_last) T2(std::move(*--last));
+            last->~T2();
+        }
+    }
+
+    void erase_assist(pointer raw, pointer last, size_type count, true_type)
+    {
+        memmove(raw, raw + count, (last - raw - count) * sizeof(value_type));
+    }
+
+    void erase_assist(pointer raw, pointer last, size_type count, false_type)
+    {
+        for(size_type i = 0; i < count; ++i) raw[i].~value_type();
+
+        for(pointer src = raw + count; src != last; ++raw, ++src)
+        {
+            new (raw) value_type(std::move(*src));
+            src->~value_type();
+        }
+    }
+
+    void destroy_assist(size_type, size_type, true_type) {}
+
+    // runs destructors of elements [first, last)
+    void destroy_assist(size_type first, size_type last, false_type)
+    {
+        for(; first != last; ++first) impl().destroy(first);
+    }
 #endif
 
     template <class T2 = value_type>
@@ -314,11 +354,12 @@ protected:
 
         // Backwards copy, effectively moving content over starting at
         // to_insert_pos to to_insert_pos + 1
-        copy_assist(data + to_insert_pos,
+        move_assist(data + to_insert_pos,
             data + sz,
             data + sz + input_sz);
 
-        estd::copy(first, last, data + to_insert_pos);
+        for(data += to_insert_pos; first != last; ++first, ++data)
+            new (data) value_type(*first);
 
         unlock();
         return true;
@@ -385,6 +426,11 @@ public:
 
     ESTD_CPP_CONSTEXPR(14) bool resize(size_type count)
     {
+        const size_type sz = size();
+
+        if(count < sz)
+            destroy_assist(count, sz, bool_constant<is_trivially_copyable<value_type>::value>());
+
         return ensure_total_size(count);
     }
 
@@ -503,7 +549,7 @@ public:
         else
             impl().size(prev_size - count);
 
-        memmove(raw, raw + count, (prev_size - (index + count)) * sizeof(value_type));
+        erase_assist(raw, raw + (prev_size - index), count, bool_constant<is_trivially_copyable<value_type>::value>());
 
         unlock();
     }
@@ -607,7 +653,13 @@ public:
 
     append_result push_back(const value_type& value)
     {
+#ifdef __cpp_rvalue_references
+        // Element slot is not constructed yet, so 'append' may not assign to it.  Copying first
+        // also keeps 'value' valid should it refer to one of our own elements
+        return push_back(value_type(value));
+#else
         return append(&value, 1);
+#endif
     }
 
 #ifdef __cpp_rvalue_references
@@ -687,7 +739,12 @@ public:
     // const_iterator here
     iterator insert(iterator pos, const_reference value)
     {
+#if __cpp_rvalue_references
+        // as with push_back
+        raw_insert(pos - cbegin(), value_type(value));
+#else
         raw_insert(pos - cbegin(), &value);
+#endif
 
         return pos;
     }
-- 
2.43.0


From 9f4801fbfcec8156007436857ddb78cd3682ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:03 +0000
Subject: [PATCH 16/52] fix: layer1::vector copies, moves and destroys its
 elements

---
 src/estd/vector.h | 48 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/estd/vector.h b/src/estd/vector.h
index 5baa4f6..6d16f25 100644
--- a/src/estd/vector.h
+++ b/src/estd/vector.h
@@ -22,6 +22,20 @@ class vector : public estd::vector<T, estd::layer1::allocator<T, N>>
 {
     using base_type = estd::vector<T, estd::layer1::allocator<T, N>>;
 
+    void copy_in(const vector& v)
+    {
+        for(size_t i = 0; i < v.size(); ++i) base_type::push_back(v.data()[i]);
+    }
+
+#ifdef __cpp_rvalue_references
+    void move_in(vector& v)
+    {
+        for(size_t i = 0; i < v.size(); ++i) base_type::push_back(std::move(v.data()[i]));
+
+        v.clear();
+    }
+#endif
+
 public:
     typedef typename base_type::reference reference;
     typedef typename base_type::const_reference const_reference;
@@ -29,9 +43,41 @@ public:
     ESTD_CPP_DEFAULT_CTOR(vector)
 
 #ifdef FEATURE_CPP_INITIALIZER_LIST
-    vector(std::initializer_list<T> initlist) : base_type(initlist) {}
+    vector(std::initializer_list<T> initlist)
+    {
+        for(const T& value : initlist) base_type::push_back(value);
+    }
 #endif
 
+    // Elements live inside of us, so it is on us to copy, move and destroy them
+    vector(const vector& copy_from) : base_type() { copy_in(copy_from); }
+
+    vector& operator=(const vector& copy_from)
+    {
+        if(this != &copy_from)
+        {
+            base_type::clear();
+            copy_in(copy_from);
+        }
+        return *this;
+    }
+
+#ifdef __cpp_rvalue_references
+    vector(vector&& move_from) : base_type() { move_in(move_from); }
+
+    vector& operator=(vector&& move_from)
+    {
+        if(this != &move_from)
+        {
+            base_type::clear();
+            move_in(move_from);
+        }
+        return *this;
+    }
+#endif
+
+    ~vector() { base_type::clear(); }
+
     // Because layer1 is *always* a simple fixed buffer, enable data() call here
     // Also, for that same reason, lock/clock are no-ops, so we can call them without
     // a corresponding free operation
-- 
2.43.0


From e2e0083aaab7c4c426594da55e655dd4b2966d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 17/52] fix: uninitialized_array storage is aligned for its
 element type

---
 src/estd/internal/array.h | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/estd/internal/array.h b/src/estd/internal/array.h
index fe3967f..970775a 100644
--- a/src/estd/internal/array.h
+++ b/src/estd/internal/array.h
@@ -9,7 +9,6 @@
 namespace estd { namespace internal {
 
 // Guidance from https://www.open-std.org/jtc1/sc22/wg21/docs/papers/2021/p1413r3.pdf and pggcc-29
-// Turns out alignment isn't a critical issue here
 
 namespace impl {
 
@@ -35,14 +34,8 @@ struct uninitialized_array : array_base_size<N>
 
     struct container
     {
-        // as per pggcc-29, looks like arrays don't have to worry much about alignment
-#if UNUSED
 #ifdef FEATURE_CPP_ALIGN
         alignas(T)
-#elif defined(__GNUC__)
-        // FIX: This gets mad for odd sizes
-        __attribute__((aligned(sizeof(T))))
-#endif
 #endif
         estd::byte data[sizeof(T)];
     };
-- 
2.43.0


From a56d34192c1662dd7ef6d06b4c8c38af9624abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:13 +0000
Subject: [PATCH 18/52] fix: dynamic_array::assign(first, last) did not compile

---
 src/estd/internal/dynamic_array.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 2293be9..2cf7bb8 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -453,9 +453,8 @@ public:
     template <class InputIt>
     void assign(InputIt first, InputIt last)
     {
-        ensure_total_size(last - first, 0, true);
-
-        helper::copy(*this, 0, first, last);
+        clear();
+        raw_insert(0, first, last);
     }
 
 //protected:
-- 
2.43.0


From e91ee1509d5dcc52a86ee68a248ac4283cf83fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:13 +0000
Subject: [PATCH 19/52] fix: handle_descriptor construct/destroy did not
 compile for stateless allocators

---
 src/estd/internal/impl/handle_desc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/impl/handle_desc.h b/src/estd/internal/impl/handle_desc.h
index a31f7c7..88b7f84 100644
--- a/src/estd/internal/impl/handle_desc.h
+++ b/src/estd/internal/impl/handle_desc.h
@@ -231,7 +231,7 @@ public:
     template <class ...TArgs>
     void construct(size_type pos, TArgs&&...args)
     {
-        allocator_type& a = base_t::get_allocator();
+        typename allocator_traits::allocator_valref a = base_t::get_allocator();
         allocator_traits::construct(a, &lock(pos, 1), std::forward<TArgs>(args)...);
         unlock();
     }
@@ -239,7 +239,7 @@ public:
 
     void destroy(size_type pos)
     {
-        allocator_type& a = base_t::get_allocator();
+        typename allocator_traits::allocator_valref a = base_t::get_allocator();
         allocator_traits::destroy(a, &lock(pos, 1));
         unlock();
     }
-- 
2.43.0


From 4f56ec28b31296b4ace5324a4026523a397d9230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 20/52] fix: inserting an empty range moved non-trivial
 elements onto themselves

---
 src/estd/internal/dynamic_array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 2cf7bb8..9538a1b 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -225,6 +225,8 @@ protected:
     typename enable_if<!is_trivially_copyable<T2>::value>::type
     move_assist(pointer first, pointer last, pointer d_last)
     {
+        if (last == d_last) return;
+
         while (first != last)
         {
             new (--d_last) T2(std::move(*--last));
-- 
2.43.0


From 01e6f7a19f35e094612b60ba216c03a754d64c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:11 +0000
Subject: [PATCH 21/52] fix: layer1::deque constructs and destroys each element
 once, iterates when full, emplaces at the front

---
 src/estd/queue.h | 50 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 353d0b0..da61966 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -48,7 +48,8 @@ struct normal_array_policy
     template <class T, size_t N>
     struct Array
     {
-        typedef array<T, N> container_type;
+        // slots hold no element until one is pushed to them
+        typedef internal::uninitialized_array<T, N> container_type;
 
         // TODO: Make special iterator for dequeue which does the rollover/rollunder
         // and checks that you only move back and forth within one 'session' of
@@ -189,18 +190,24 @@ public:
     }
 
 #ifdef FEATURE_CPP_MOVESEMANTIC
-    constexpr deque(deque&& move_from) :
-        m_array(std::move(move_from.m_array)),
-        m_front(std::move(move_from.m_front)),
-        m_back(std::move(move_from.m_back)),
-        m_empty(std::move(move_from.m_empty))
-    {}
+    deque(deque&& move_from) :
+        m_front(m_array.begin()),
+        m_back(m_array.begin()),
+        m_empty(true)
+    {
+        // Our own iterators refer to our own array, so items are moved over one by one
+        while(!move_from.empty())
+        {
+            emplace_back(std::move(move_from.front()));
+            move_from.pop_front();
+        }
+    }
 #endif
     
 
     ~deque()
     {
-        // TODO: destruct all remaining items
+        while(!m_empty) pop_front();
     }
 
     typedef T value_type;
@@ -215,24 +222,32 @@ public:
     {
         const deque& parent;
         array_iterator current;
+        // whether 'current' is past the rollover point.  Without it begin and end of a full
+        // deque are indistinguishable
+        bool rolled;
 
         // DEBT: Do we need a copy constructor here?
 
-        ESTD_CPP_CONSTEXPR_RET forward_iterator(const deque& parent, array_iterator current)
+        ESTD_CPP_CONSTEXPR_RET forward_iterator(const deque& parent, array_iterator current, bool rolled = false)
             : parent(parent),
-              current(current)
+              current(current),
+              rolled(rolled)
         {}
 
         forward_iterator& operator++()
         {
+            const array_iterator prior = current;
             parent.increment(&current);
+            if(current <= prior) rolled = true;
             return *this;
         }
 
         // FIX: perhaps we can do reverse iteration easily here after all
         forward_iterator& operator--()
         {
-            parent.decrement(&current);
+            const array_iterator prior = current;
+            parent.decrement((const_array_iterator*)&current);
+            if(current >= prior) rolled = false;
             return *this;
         }
 
@@ -250,12 +265,12 @@ public:
 
         bool operator==(const forward_iterator& compare_to) const
         {
-            return compare_to.current == current;
+            return compare_to.current == current && compare_to.rolled == rolled;
         }
 
         bool operator!=(const forward_iterator& compare_to) const
         {
-            return compare_to.current != current;
+            return !operator==(compare_to);
         }
     };
 
@@ -264,7 +279,7 @@ public:
 
     iterator begin() { return iterator(*this, m_front); }
 
-    iterator end() { return iterator(*this, m_back); }
+    iterator end() { return iterator(*this, m_back, !m_empty && m_back <= m_front); }
 
     bool empty() const { return m_empty; }
 
@@ -283,7 +298,7 @@ public:
 
     bool push_back(const_reference value)
     {
-        *m_back++ = value;
+        new (m_back++) value_type(value);
         m_empty = false;
 
         evaluate_rollover((const_array_iterator*)&m_back);
@@ -306,7 +321,7 @@ public:
         evaluate_rollunder((const_array_iterator*)&m_front);
         m_front--; // due to the non-before-begin approach. confusing
 
-        *m_front = value;
+        new (m_front) value_type(value);
 
         m_empty = false;
 
@@ -379,11 +394,12 @@ public:
     template <class ...TArgs>
     reference emplace_front(TArgs&&...args)
     {
+        decrement(&m_front);
+
         value_type& retval = *m_front;
 
         new (&retval) value_type(std::forward<TArgs>(args)...);
 
-        decrement(&m_front);
         m_empty = false;
 
         return retval;
-- 
2.43.0


From 0fe9d40d3fa1eabee4a415a9ef770b7f99e5df38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 22/52] fix: layer1::deque iterators can be decremented

---
 src/estd/queue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index da61966..779756e 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -151,7 +151,7 @@ class deque : protected TPolicy
             --(*i);
     }
 
-    void decrement(array_iterator* i)
+    void decrement(array_iterator* i) const
     {
         decrement((const_array_iterator*)i);
     }
@@ -246,7 +246,7 @@ public:
         forward_iterator& operator--()
         {
             const array_iterator prior = current;
-            parent.decrement((const_array_iterator*)&current);
+            parent.decrement(&current);
             if(current >= prior) rolled = false;
             return *this;
         }
-- 
2.43.0


From 5e58a727e751f99b457c39346a1ff5d56cabb0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:07 +0000
Subject: [PATCH 23/52] fix: heaps: empty and one element ranges, positions
 beyond the iterator's range; swap of self; priority_queue assignment takes
 the comparator along

---
 src/estd/internal/algorithm/heap.h | 14 +++++++++-----
 src/estd/internal/priority_queue.h |  2 ++
 src/estd/utility.h                 | 12 ++++++++++--
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/estd/internal/algorithm/heap.h b/src/estd/internal/algorithm/heap.h
index 790770a..edfd029 100644
--- a/src/estd/internal/algorithm/heap.h
+++ b/src/estd/internal/algorithm/heap.h
@@ -95,18 +95,20 @@ struct heap
 
     void restore_down(iterator_type current)
     {
+        // Compare positions rather than iterators, the latter may not be able to
+        // represent anything past last_
+        const int count = size();
+
         for(;;)
         {
             int current_idx = current - first_;
             int first_child_idx = (current_idx * k) + 1;
-            iterator_type first_child = first_ + first_child_idx;
 
             // past the end of the leaf
-            if(first_child >= last_) break;
+            if(first_child_idx >= count) break;
 
-            // theoretical iterator one past last child - it may actually be even
-            // further past the end.
-            iterator_type last_child = estd::min(first_child + k, last_);
+            iterator_type first_child = first_ + first_child_idx;
+            iterator_type last_child = first_child + estd::min(k, count - first_child_idx);
 
             iterator_type chosen_child = estd::max_element(first_child, last_child, comp);
 
@@ -162,6 +164,8 @@ struct heap
 
     void make()
     {
+        if(empty()) return;
+
         int last_nonleaf_idx = (size() - 1) / k;
         // FIX: this is not sufficient, because restore_up doesn't evaluate all children
         //while(!restore_up());
diff --git a/src/estd/internal/priority_queue.h b/src/estd/internal/priority_queue.h
index 74f9139..c5b066e 100644
--- a/src/estd/internal/priority_queue.h
+++ b/src/estd/internal/priority_queue.h
@@ -111,6 +111,7 @@ public:
 
     priority_queue& operator =(priority_queue&& move_from) noexcept
     {
+        compare_provider_type::operator =(move_from);
         c = std::move(move_from.c);
         return *this;
     }
@@ -118,6 +119,7 @@ public:
 
     priority_queue& operator =(const priority_queue& copy_from)
     {
+        compare_provider_type::operator =(copy_from);
         c = copy_from.c;
         return *this;
     }
diff --git a/src/estd/utility.h b/src/estd/utility.h
index 18090e2..68efef3 100644
--- a/src/estd/utility.h
+++ b/src/estd/utility.h
@@ -182,12 +182,17 @@ T exchange(T& obj, U&& new_value)
 template <class T>
 ESTD_CPP_CONSTEXPR(14) void swap(T& a, T& b)
 {
-    // NOTE: perhaps we should use move/forward here...?  so that
-    // objects with underlying self-referencing pointers can be managed?
+#ifdef __cpp_rvalue_references
+    T temp(std::move(a));
+
+    a = std::move(b);
+    b = std::move(temp);
+#else
     const T temp = a;
 
     a = b;
     b = temp;
+#endif
 }
 
 namespace internal {
@@ -195,6 +200,9 @@ namespace internal {
 template <class T>
 inline void xor_swap(T& a, T& b)
 {
+    // otherwise a would wipe itself out
+    if(&a == &b) return;
+
     a ^= b;
     b ^= a;
     a ^= b;
-- 
2.43.0


From 848f7be5d8009a67ddc725dd4cfd590e53e2c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:44 +0000
Subject: [PATCH 24/52] fix: back_insert_iterator is an output iterator,
 ostreambuf_iterator reports failure, clamp and reverse compile on their own

---
 src/estd/algorithm.h                     |  4 +++-
 src/estd/internal/iterator/back_insert.h | 12 ++++++++++++
 src/estd/iterator.h                      | 12 +++++++-----
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/estd/algorithm.h b/src/estd/algorithm.h
index 33c510e..d54985a 100644
--- a/src/estd/algorithm.h
+++ b/src/estd/algorithm.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <assert.h>
+
 #include "internal/platform.h"
 #include "internal/heap.h"
 #include "internal/functional.h"
@@ -207,7 +209,7 @@ constexpr
 void reverse(BidirIt first, BidirIt last)
 {
     while ((first != last) && (first != --last))
-        iter_swap(first++, last);
+        estd::iter_swap(first++, last);
 }
 
 
diff --git a/src/estd/internal/iterator/back_insert.h b/src/estd/internal/iterator/back_insert.h
index 4b7cf1c..9f503ad 100644
--- a/src/estd/internal/iterator/back_insert.h
+++ b/src/estd/internal/iterator/back_insert.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "../iosfwd.h"
+#include "../utility.h"
 #include "../container/fwd.h"
 
 namespace estd {
@@ -23,7 +24,18 @@ public:
     back_insert_iterator& operator=(const cvalue_type& value)
     {
         container->push_back(value);
+        return *this;
     }
+
+    back_insert_iterator& operator=(cvalue_type&& value)
+    {
+        container->push_back(std::move(value));
+        return *this;
+    }
+
+    back_insert_iterator& operator*() { return *this; }
+    back_insert_iterator& operator++() { return *this; }
+    back_insert_iterator operator++(int) { return *this; }
 };
 
 }
\ No newline at end of file
diff --git a/src/estd/iterator.h b/src/estd/iterator.h
index fcac627..5201db7 100644
--- a/src/estd/iterator.h
+++ b/src/estd/iterator.h
@@ -80,27 +80,29 @@ public:
 
     ostreambuf_iterator() :
         rdbuf(NULLPTR),
-        last_written(traits_type::eof())
+        last_written(0)
     {
 
     }
 
     ostreambuf_iterator(streambuf_type* rdbuf) :
-        rdbuf(rdbuf)
+        rdbuf(rdbuf),
+        last_written(0)
     {
 
     }
 
     template <class TBase>
     ostreambuf_iterator(estd::detail::basic_ostream<TStreambuf, TBase>& stream) :
-        rdbuf(stream.rdbuf())
+        rdbuf(stream.rdbuf()),
+        last_written(0)
     {
 
     }
 
     ostreambuf_iterator& operator=(char_type c)
     {
-        if(rdbuf)
+        if(rdbuf && !failed())
             last_written = rdbuf->sputc(c);
 
         return *this;
@@ -121,7 +123,7 @@ public:
 
     bool failed() const
     {
-        return last_written != traits_type::eof();
+        return last_written == traits_type::eof();
     }
 };
 
-- 
2.43.0


From 81b7a384fb9000d1db0b849043de973c5851bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:00 +0000
Subject: [PATCH 25/52] fix: unordered map/set lost, duplicated or leaked
 entries around sparse spots, past the end and in tables over 64 slots

---
 src/estd/internal/container/unordered/base.h  | 73 ++++++++++++-------
 .../internal/container/unordered/traits.h     | 22 ++++--
 src/estd/internal/container/unordered_map.h   | 37 ++++++----
 3 files changed, 84 insertions(+), 48 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 9be2a91..1c24da5 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -93,7 +93,7 @@ protected:
     template <class It, class It2>
     static ESTD_CPP_CONSTEXPR(14) It skip_empty(It it, It2 end)
     {
-        for(; traits::is_empty(*it) && it != end; ++it)   {}
+        for(; it != end && traits::is_empty(*it); ++it)   {}
 
         return it;
     }
@@ -107,7 +107,7 @@ protected:
     template <class Control>
     ESTD_CPP_CONSTEXPR(14) Control skip_sparse(Control p, unsigned n) const
     {
-        for(; traits::is_sparse(*p, n) && p != container_.cend(); ++p)    {}
+        for(; p != container_.cend() && traits::is_sparse(*p, n); ++p)    {}
 
         return p;
     }
@@ -216,15 +216,23 @@ protected:
         // linear probing
 
         control_pointer it = &container_[n];
+        // first sparse spot of our own bucket, free to be reused
+        control_pointer reuse = nullptr;
 
-        // Move over occupied spots.  Sparse does NOT count as occupied
+        // Move over occupied and sparse spots of this bucket.  A duplicate may follow a sparse spot, so
+        // that alone doesn't end the search
         // DEBT: optimize is_null/is_sparse together
-        for(;traits::is_empty(*it) == false; ++it)
+        for(; it != container_.cend(); ++it)
         {
-            // if we get to the complete end, that's a fail
-            // if we've moved to the next bucket, that's also a fail
-            if(it == container_.cend() || index(base_type::key(*it)) != n)
-                return { nullptr, false };
+            if(traits::is_empty(*it))
+            {
+                if(!traits::is_sparse(*it, n))  break;
+
+                if(reuse == nullptr)    reuse = it;
+            }
+            // if we've moved to the next bucket, nothing more to see
+            else if(index(base_type::key(*it)) != n)
+                break;
             else if(!permit_duplicates)
             {
                 if(key_eq_c(key, *it))
@@ -237,6 +245,14 @@ protected:
             // but iterating through a bucket you can get to all of them (and more, likely)
         }
 
+        if(reuse != nullptr)    return { reuse, true };
+
+        // if we got to the complete end, that's a fail
+        // if we've moved to the next bucket (its sparse spots included - reusing those would cut that
+        // bucket in two), that's also a fail
+        if(it == container_.cend() || !traits::is_null_not_sparse(*it))
+            return { nullptr, false };
+
         // Success, but someone else still needs to initialize 'it'
         return { it, true };
     }
@@ -389,7 +405,7 @@ protected:
 
             // skip over any sparse entries belonging to this bucket.  They are invisible
             // null entries for this iterator
-            for(; traits::is_sparse(*it_, n_) && it_ != parent_->container_.cend(); ++it_)   {}
+            for(; it_ != parent_->container_.cend() && traits::is_sparse(*it_, n_); ++it_)   {}
 
             return *this;
         }
@@ -448,25 +464,29 @@ protected:
     // deviates from std in that other iterators part of this bucket could be invalidated
     void erase_and_gc_ll(control_pointer pos)
     {
-        auto start = pos;
+        const auto start = pos;
+        auto last = pos;
+        const size_type n = index(traits::key(*pos));
 
-        destruct(pos);
-
-        ++pos;
+        // Find last active one in bucket, which may have sparse ones before and after it
+        for(++pos; pos != container_.cend(); ++pos)
+        {
+            if(traits::is_empty(*pos))
+            {
+                if(!traits::is_sparse(*pos, n)) break;
+            }
+            else if(index(traits::key(*pos)) != n)
+                break;
+            else
+                last = pos;
+        }
 
-        // No housekeeping if next guy is null (sparse is OK, but
-        // not yet accounted for here)
-        if (base_type::is_empty(*pos))
-            return;
+        destruct(start);
 
-        // Quick-deduce our bucket#
-        size_type n = start - container_.cbegin();
-        // Find last one in bucket
-        for(;n == index(traits::key(*pos)) && pos < container_.cend(); ++pos) {}
-        // Decrement to position on actual last one in bucket
-        --pos;
+        if(last != start)   traits::relocate(*last, *start);
 
-        traits::swap(*pos, *start);
+        // Nothing active follows 'last' in this bucket anymore
+        for(; last != pos; ++last)  base_type::set_null(last);
     }
 
 public:
@@ -576,9 +596,10 @@ ESTD_CPP_CONSTEXPR(14) bool operator==(const unordered_base<Container, Traits>&
     // DEBT: Not optimal, since we have to iterate inside size() to make this determination
     if(lhs.size() != rhs.size())    return false;
 
-    for(it l = lhs.begin(), r = rhs.begin(); l != lhs.cend(); ++l, ++r)
+    // position of keys depends on the order they were inserted
+    for(it l = lhs.begin(); l != lhs.cend(); ++l)
     {
-        if(traits::key(*l) != traits::key(*r)) return false;
+        if(!rhs.contains(traits::key(*l))) return false;
     }
 
     return true;
diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 7603817..a1a7ee3 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -89,7 +89,7 @@ struct unordered_map_traits_control
             // aka "sparse" - exists specifically to mark as deleted, but physically unmoved
             uint16_t marked_for_gc : 1;
             // which bucket this empty slot *used to* belong to
-            uint16_t bucket : 6;
+            uint16_t bucket : 15;
         };
 
         uint16_t raw;
@@ -104,11 +104,12 @@ struct unordered_map_traits_control
     using control_type = pair<key_type, meta>;
 
     // DEBT: Couldn't dial in specialization, so doing this as a method
-    static ESTD_CPP_CONSTEXPR(14) void swap(control_type& lhs, control_type& rhs)
+    /// @brief Moves active 'from' into empty 'to'.  Afterwards 'from' has a key but no mapped value
+    static ESTD_CPP_CONSTEXPR(14) void relocate(control_type& from, control_type& to)
     {
-        estd::swap(lhs.first, rhs.first);
-        // DEBT: We'll be swapping destructed ones too.  Perhaps that would be better suited as a std::move?
-        estd::swap(lhs.second.mapped(), rhs.second.mapped());
+        to.first = std::move(from.first);
+        new (&to.second.mapped()) mapped_type(std::move(from.second.mapped()));
+        from.second.mapped().~mapped_type();
     }
 };
 
@@ -181,6 +182,8 @@ struct unordered_map_traits :
     static ESTD_CPP_CONSTEXPR(14) void set_null(control_type* v)
     {
         nullable{}.set(&v->first);
+        // not sparse either
+        v->second.raw = 0;
     }
 
 private:
@@ -231,6 +234,11 @@ struct unordered_set_traits : unordered_traits<Key, Key, Hash, KeyEqual ESTD_UNO
         return nullable{}.is_null(v);
     }
 
+    static constexpr bool is_null_not_sparse(const value_type& v)
+    {
+        return is_empty(v);
+    }
+
     static constexpr bool is_sparse(const value_type&) { return false; }
     static constexpr bool is_sparse(const value_type&, unsigned) { return false; }
 
@@ -239,9 +247,9 @@ struct unordered_set_traits : unordered_traits<Key, Key, Hash, KeyEqual ESTD_UNO
     static constexpr const mapped_type& mapped(const control_type& v) { return v; }
 
     // DEBT: I tried to specialize this guy but failed, so we have this shim here instead
-    static ESTD_CPP_CONSTEXPR(14) void swap(control_type& lhs, control_type& rhs)
+    static ESTD_CPP_CONSTEXPR(14) void relocate(control_type& from, control_type& to)
     {
-        estd::swap(lhs, rhs);
+        to = std::move(from);
     }
 };
 
diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index a9bda66..96203aa 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -105,8 +105,7 @@ private:
     /// @returns potentially moved 'pos'
     control_pointer gc_active_ll(control_pointer pos)
     {
-        const key_type& key = pos->first;
-        const size_type n = index(key);
+        const size_type n = index(pos->first);
 
         // look through other items in this bucket.  Not using local_iterator because he's
         // designed to skip over nulls, while we specifically are looking for those guys.
@@ -128,8 +127,11 @@ private:
                     if(control->second.bucket != n) return pos;
                 }
 
-                //it->swap(*pos);
-                traits::swap(*it, *pos);
+                traits::relocate(*pos, *it);
+                // others in this bucket may follow
+                set_null(pos);
+                pos->second.marked_for_gc = 1;
+                pos->second.bucket = n;
                 return it;
             }
         }
@@ -149,10 +151,8 @@ public:
     ///
     void prune_sparse_ll(control_pointer start, control_pointer pos, size_type n)
     {
-        --start;
-
-        for(; is_sparse(*pos, n) && pos != start; --pos)
-            gc_sparse_ll(pos);
+        for(++pos; pos != start && is_sparse(*(pos - 1), n);)
+            gc_sparse_ll(--pos);
     }
 
     // for every trailing marked_for_gc (doesn't have an active slot after him) turn to null
@@ -164,7 +164,7 @@ public:
 
         // get to end of identified bucket, skipping past sparse and active bucket items
         // DEBT: Be careful of index(0)
-        for(;(is_sparse(*pos, n) || index(pos->first) == n) && pos != container_.cend(); ++pos)
+        for(;pos != container_.cend() && (is_sparse(*pos, n) || index(pos->first) == n); ++pos)
         {
         }
 
@@ -181,7 +181,13 @@ public:
 
     ESTD_CPP_CONSTEXPR(14) void clear()
     {
-        for(control_type& v : container_)   destruct(&v);
+        for(control_type& v : container_)
+        {
+            if(is_empty(v))
+                set_null(&v);       // no longer sparse
+            else
+                destruct(&v);
+        }
     }
 
     mapped_type& operator[](const key_type& key)
@@ -234,10 +240,11 @@ public:
         // we can brute force the key assignment
         if(ret.second)
         {
-            // NOTE: Deviation from spec in that spec implies ->second gets value initialized,
-            // where we do not do that.  Not 100% sure if that's what spec calls for though
             ESTD_CPP_IF_CONSTEXPR(sizeof...(Args) == 0)
+            {
                 ret.first->first = key;
+                new (&ret.first->second.mapped()) mapped_type();
+            }
             else
                 new (ret.first) value_type(piecewise_construct_t{},
                     estd::forward_as_tuple(key),
@@ -281,9 +288,9 @@ public:
         if(found.second != npos())
         {
             control_pointer cp = found.first;
-            mapped_type& p = cp->second.mapped();
-            new (&p) mapped_type(std::forward<M>(obj));
-            return { { this, cast(cp) }, true };
+            cp->second.mapped() = std::forward<M>(obj);
+            // "true if the insertion took place and false if the assignment took place"
+            return { { this, cast(cp) }, false };
         }
         else
         {
-- 
2.43.0


From 66fbe8860e0b10812b8c57be10af331cbae500f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:09 +0000
Subject: [PATCH 26/52] fix: optional, variant and expected: exception safety,
 self assignment, missing copy/move members, explicit constructors, wrong
 visitation

---
 src/estd/expected.h                 | 37 +++++++++++++++++++++++++----
 src/estd/internal/expected.h        | 18 ++++++++++++++
 src/estd/internal/optional.h        |  2 ++
 src/estd/internal/variant.h         | 29 ++++++++++++++--------
 src/estd/internal/variant/core.h    |  2 +-
 src/estd/internal/variant/storage.h | 27 ++++++++++++++-------
 src/estd/optional.h                 | 28 ++++++++++++++++++----
 src/estd/variant.h                  |  4 ++--
 8 files changed, 117 insertions(+), 30 deletions(-)

diff --git a/src/estd/expected.h b/src/estd/expected.h
index b0b7fb6..afe7c33 100644
--- a/src/estd/expected.h
+++ b/src/estd/expected.h
@@ -40,7 +40,7 @@ public:
     // DEBT: needs more filters to be not same as unexpected, in_place_t, etc
     template <class Err = E, class =
         enable_if_t<
-            is_same<remove_cvref<Err>, unexpected>::value == false>
+            is_same<remove_cvref_t<Err>, unexpected>::value == false>
         >
     constexpr explicit unexpected(Err&& e) : base_type(std::forward<Err>(e)) {}
 
@@ -71,7 +71,7 @@ class expected : public internal::expected<T, E>
             base_type::destroy_error();
     }
 
-    void assert_has_value()
+    void assert_has_value() const
     {
         if(!has_value_)
 #if __cpp_exceptions
@@ -209,6 +209,35 @@ public:
         return *this;
     }
 
+    // Not generated by compiler, since we have our own destructor and move constructor
+    expected& operator=(const expected& copy_from)
+    {
+        if(this == &copy_from)  return *this;
+
+        if(copy_from.has_value_)
+            base_type::assign_value(has_value_, copy_from.base_type::value());
+        else
+            base_type::assign_error(!has_value_, copy_from.base_type::error());
+
+        has_value_ = copy_from.has_value_;
+        return *this;
+    }
+
+#if __cpp_rvalue_references
+    expected& operator=(expected&& move_from)
+    {
+        if(this == &move_from)  return *this;
+
+        if(move_from.has_value_)
+            base_type::assign_value(has_value_, std::move(move_from.base_type::value()));
+        else
+            base_type::assign_error(!has_value_, std::move(move_from.base_type::error()));
+
+        has_value_ = move_from.has_value_;
+        return *this;
+    }
+#endif
+
     // DEBT: Spec doesn't mention whether a move where neither a value or error is present
     // but I have a feeling we'll need to address that
     ~expected()
@@ -256,12 +285,12 @@ public:
 #if __cpp_rvalue_references
     nonvoid_value_type&& operator*() &&
     {
-        return base_type::value();
+        return std::move(base_type::value());
     }
 
     const nonvoid_value_type&& operator*() const&&
     {
-        return base_type::value();
+        return std::move(base_type::value());
     }
 #endif
 
diff --git a/src/estd/internal/expected.h b/src/estd/internal/expected.h
index 66055cd..5989794 100644
--- a/src/estd/internal/expected.h
+++ b/src/estd/internal/expected.h
@@ -120,6 +120,16 @@ protected:
     {
     }
 
+#if __cpp_rvalue_references
+    ESTD_CPP_CONSTEXPR(14) expected(expected&& move_from, bool has_value)
+    {
+        if(has_value)
+            storage.template move<VALUE>(std::move(move_from.storage));
+        else
+            storage.template move<ERROR>(std::move(move_from.storage));
+    }
+#endif
+
     ESTD_CPP_CONSTEXPR_RET expected() :
         storage(in_place_index_t<0>()) {}
 
@@ -179,11 +189,19 @@ protected:
     }
 #endif
 
+#if __cpp_rvalue_references
+    template <class G>
+    void assign_error(bool has_error, G&& v)
+    {
+        storage.template assign_or_init<1, 0>(has_error, std::forward<G>(v));
+    }
+#else
     template <class G>
     void assign_error(bool has_error, const G& v)
     {
         storage.template assign_or_init<1, 0>(has_error, v);
     }
+#endif
 
 public:
     nonvoid_value_type& value() { return get<VALUE>(storage); }
diff --git a/src/estd/internal/optional.h b/src/estd/internal/optional.h
index 2f8a73a..468be07 100644
--- a/src/estd/internal/optional.h
+++ b/src/estd/internal/optional.h
@@ -343,7 +343,9 @@ protected:
         has_value_(copy_from.has_value_)
     {}
 
+    // value_ gets copied even when has_value_ is false
     ESTD_CPP_CONSTEXPR_RET optional_base() :
+        value_(T()),
         has_value_(false)
     {}
 
diff --git a/src/estd/internal/variant.h b/src/estd/internal/variant.h
index 6e98476..87804a5 100644
--- a/src/estd/internal/variant.h
+++ b/src/estd/internal/variant.h
@@ -93,8 +93,7 @@ class variant : protected variant_storage<Types...>
             enable_if_t<is_copy_assignable<remove_const_t<T_i>>::value, bool> = true>
         bool operator()(variadic::visitor_instance<I, T_i> vi, variant& v, const variant& assign_from)
         {
-            size_type index = v.index();
-            v.template assign_or_init<I>(&index, vi.value);
+            v.template assign_or_init<I>(&v.index_, vi.value);
             return true;
         }
 
@@ -103,8 +102,7 @@ class variant : protected variant_storage<Types...>
             enable_if_t<is_move_assignable<remove_const_t<T_i>>::value, bool> = true>
         bool operator()(variadic::visitor_instance<I, T_i> vi, variant& v, variant&& assign_from)
         {
-            size_type index = v.index();
-            v.template assign_or_init<I>(&index, std::move(vi.value));
+            v.template assign_or_init<I>(&v.index_, std::move(vi.value));
             return true;
         }
 
@@ -116,6 +114,7 @@ class variant : protected variant_storage<Types...>
             // directly and not abort when index is found - however, that
             // breaks our burgeoning paradigm, so holding off
             v.destroy_if_valid();
+            v.index_ = variant_npos();
 
             v.template copy<I>(copy_from);
 
@@ -129,6 +128,7 @@ class variant : protected variant_storage<Types...>
         bool operator()(variadic::v1::visitor_index<I, T_i>, variant& v, variant&& move_from, bool = true)
         {
             v.destroy_if_valid();
+            v.index_ = variant_npos();
 
             v.template move<I>(std::move(move_from));
 
@@ -190,13 +190,11 @@ public:
     template <class T>
     using select_type = typename estd::internal::select_type<T, Types...>::first;
 
+    // Only the alternative held is visited
     template <class F, class ...TArgs>
     size_type visit(F&& f, TArgs&&...args)
     {
-        int selected = base_type::visit_instance(
-            std::forward<F>(f),
-            std::forward<TArgs>(args)...);
-        return selected == -1 ? variant_npos() : selected;
+        return visit_index(std::forward<F>(f), std::forward<TArgs>(args)...);
     }
 
     constexpr variant() :
@@ -310,6 +308,8 @@ public:
     // DEBT: Needs more work, but coming along
     variant& operator=(const variant& rhs)
     {
+        if(this == &rhs)    return *this;
+
         if(rhs.valueless_by_exception())
         {
             destroy_if_valid();
@@ -329,6 +329,8 @@ public:
 
     variant& operator=(variant&& rhs)
     {
+        if(this == &rhs)    return *this;
+
         if(rhs.valueless_by_exception())
         {
             destroy_if_valid();
@@ -363,9 +365,16 @@ public:
     template <unsigned I, class... TArgs>
     variant_alternative_t<I>& emplace(TArgs&&...args)
     {
-        typedef variant_alternative_t<I> T_i;
+        destroy_if_valid();
 
-        return emplace<T_i>(std::forward<TArgs>(args)...);
+        index_ = variant_npos();
+
+        variant_alternative_t<I>* const v = base_type::template emplace<I>(std::forward<TArgs>(args)...);
+
+        // Not going by type, which may appear more than once
+        index_ = I;
+
+        return *v;
     }
 };
 
diff --git a/src/estd/internal/variant/core.h b/src/estd/internal/variant/core.h
index 38e8005..6b0d99e 100644
--- a/src/estd/internal/variant/core.h
+++ b/src/estd/internal/variant/core.h
@@ -16,7 +16,7 @@
 namespace estd {
 
 #if __cpp_exceptions
-class bad_variant_access : std::exception
+class bad_variant_access : public std::exception
 {
 public:
 };
diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index 1fea032..cc7a28c 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -39,7 +39,14 @@ inline static monostate construct_at(void* placement, TArgs&&...args)
 template <class ...T>
 union variant_union<false, T...>
 {
-    estd::byte raw[sizeof(typename largest_type<T...>::type)];
+    alignas(T...) estd::byte raw[sizeof(typename largest_type<T...>::type)];
+};
+
+// All trivial, but more alternatives than specialized for below
+template <bool trivial, class ...T>
+union variant_union
+{
+    alignas(T...) estd::byte raw[sizeof(typename largest_type<T...>::type)];
 };
 
 template <>
@@ -386,7 +393,7 @@ public:
 
     template <size_t I, class T_i, class T,
         enable_if_t<
-            !is_convertible<T, T_i>::value, bool> = true>
+            !is_constructible<T_i, T>::value, bool> = true>
     void assignment_emplace_helper(T&&, long = 0)
     {
 #if FEATURE_ESTD_VARIANT_STRICT_CONVERSION
@@ -399,7 +406,7 @@ public:
     // Not sure yet if that's "proper behavior" as indicated by variant docs, but seems to be
     template <size_t I, class T_i, class T,
         enable_if_t<
-            is_convertible<T, T_i>::value &&
+            is_constructible<T_i, T>::value &&
             (is_nothrow_constructible<T_i, T>::value ||
             !is_nothrow_move_constructible<T_i>::value), bool> = true>
     void assignment_emplace_helper(T&& t, bool = true)
@@ -409,7 +416,7 @@ public:
 
     template <size_t I, class T_i, class T,
         enable_if_t<
-            is_convertible<T, T_i>::value &&
+            is_constructible<T_i, T>::value &&
             !(is_nothrow_constructible<T_i, T>::value ||
             !is_nothrow_move_constructible<T_i>::value), bool> = true>
     void assignment_emplace_helper(T&& t)
@@ -437,21 +444,21 @@ public:
 
     template <size_t I, class T_i, class T,
         enable_if_t<
-            is_convertible<T, T_i>::value &&
+            is_constructible<T_i, T>::value &&
             estd::is_trivial<T_i>::value, bool> = true>
     void direct_init_helper(T&& t)
     {
-        *get<I>() = std::forward<T>(t);
+        emplace<I>(std::forward<T>(t));
     }
 
     template <size_t I, class T_i, class T,
         enable_if_t<
             estd::is_trivial<T_i>::value &&
-            !is_convertible<T, T_i>::value, bool> = true>
+            !is_constructible<T_i, T>::value, bool> = true>
     void direct_init_helper(T&& t, long = 0)
     {
         //*get<I>() = std::forward<T>(t);
-        //static_assert(is_convertible<T, T_i>::value, "ERR");
+        //static_assert(is_constructible<T_i, T>::value, "ERR");
 #if FEATURE_ESTD_VARIANT_STRICT_CONVERSION
         std::abort();
 #endif
@@ -459,7 +466,7 @@ public:
 
     template <size_t I, class T_i, class T,
         enable_if_t<
-            is_convertible<T, T_i>::value &&
+            is_constructible<T_i, T>::value &&
             !estd::is_trivial<T_i>::value, bool> = true>
     void direct_init_helper(T&& t, bool = true)
     {
@@ -514,6 +521,8 @@ public:
             // ... if not, destroy what we're tracking (if any) and
             // do a direct initialization
             destroy(*index);
+            // Unset index just in case exception is thrown during initialization
+            *index = variant_npos();
             direct_init_helper<I, T_j>(std::forward<U>(u));
             *index = I;
         }
diff --git a/src/estd/optional.h b/src/estd/optional.h
index 6a54c65..6ccf174 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -177,6 +177,8 @@ public:
 
     optional& operator=(const optional& assign_from)
     {
+        if(this == &assign_from)    return *this;
+
         if(assign_from.has_value())
             assign_value(assign_from.value());
         else
@@ -231,7 +233,8 @@ public:
     template<class... TArgs>
     T& emplace(TArgs&&... args)
     {
-        base_type::destroy();
+        // Disengage too, in case an exception is thrown during construction
+        base_type::reset();
 
         T& v = base_type::emplace(std::forward<TArgs>(args)...);
 
@@ -420,6 +423,12 @@ ESTD_CPP_CONSTEXPR_RET bool operator!=(const optional<T, TBase>& opt, const U& v
     return opt.has_value() ? *opt != value : true;
 }
 
+template <class T, class T2, class Base, class Base2>
+ESTD_CPP_CONSTEXPR_RET bool operator!=(const optional<T, Base>& lhs, const optional<T2, Base2>& rhs)
+{
+    return !(lhs == rhs);
+}
+
 
 template <class T, class U, class TBase>
 ESTD_CPP_CONSTEXPR_RET bool operator>(const optional<T, TBase>& opt, const U& value)
@@ -449,11 +458,22 @@ ESTD_CPP_CONSTEXPR_RET bool operator>=(const optional<T, TBase>& opt, const U& v
 template <class T, class Base>
 struct hash<optional<T, Base>>
 {
-    constexpr size_t operator()(const optional<T, Base>& v) const
+private:
+    using underlying = hash<estd::remove_const_t<T>>;
+
+    // layer1 has a special value to indicate null, others have no value to speak of
+    template <class T2, T2 null_value>
+    static constexpr size_t null_hash(const internal::layer1::optional_base<T2, 0, null_value>*)
     {
-        using underlying = hash<estd::remove_const_t<T>>;
+        return underlying{}(null_value);
+    }
+
+    static constexpr size_t null_hash(const void*) { return 0; }
 
-        return underlying{}(*v);
+public:
+    constexpr size_t operator()(const optional<T, Base>& v) const
+    {
+        return v.has_value() ? underlying{}(*v) : null_hash(&v);
     }
 };
 
diff --git a/src/estd/variant.h b/src/estd/variant.h
index fe6ffda..544eb98 100644
--- a/src/estd/variant.h
+++ b/src/estd/variant.h
@@ -59,7 +59,7 @@ internal::type_at_index<index, Types...>&& get(variant<Types...>&& v)
 {
     internal::assert_index_matches<index>(v);
 
-    return * internal::get_ll<index>(v);
+    return std::move(* internal::get_ll<index>(v));
 }
 
 
@@ -78,7 +78,7 @@ constexpr const T& get(const variant<Types...>& v)
 template <class T, class ...Types>
 T&& get(variant<Types...>&& v)
 {
-    return get<internal::select_type<T, Types...>::first::index>(v);
+    return get<internal::select_type<T, Types...>::first::index>(std::move(v));
 }
 
 
-- 
2.43.0


From a6659c9543214eb25674738c9aa4c4892f42ea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:40 +0000
Subject: [PATCH 27/52] fix: tuple and pair: visit returned bool, rvalue get
 dangled or did not compile, apply of const tuples, pair copied its rvalues;
 values::contains missed repeated values

---
 src/estd/internal/fwd/tuple-shared.h          |  3 +++
 src/estd/internal/tuple.h                     |  8 ++++---
 src/estd/internal/tuple/get.h                 | 22 ++++++++++++++-----
 src/estd/internal/tuple/sparse.h              |  4 ++++
 src/estd/internal/variadic/integer_sequence.h |  2 +-
 src/estd/tuple.h                              |  2 ++
 src/estd/utility.h                            |  6 +++--
 7 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/estd/internal/fwd/tuple-shared.h b/src/estd/internal/fwd/tuple-shared.h
index 27ef5d8..65fdb2c 100644
--- a/src/estd/internal/fwd/tuple-shared.h
+++ b/src/estd/internal/fwd/tuple-shared.h
@@ -15,6 +15,9 @@ class tuple_storage;
 template <class T>
 struct tuple_size;
 
+template <class T>
+struct tuple_size<const T> : tuple_size<T> {};
+
 template<std::size_t I, class T>
 struct tuple_element;
 
diff --git a/src/estd/internal/tuple.h b/src/estd/internal/tuple.h
index 204b43a..9bd3594 100644
--- a/src/estd/internal/tuple.h
+++ b/src/estd/internal/tuple.h
@@ -24,7 +24,7 @@ class tuple<sparse>
 public:
     //static CONSTEXPR int index = 0;
     template <class F, class ...Args>
-    constexpr bool visit(F&&, Args&&...) const { return {}; }
+    constexpr int visit(F&&, Args&&...) const { return -1; }
 };
 
 
@@ -55,6 +55,8 @@ public:
     using storage_type::first;
     using typename storage_type::valref_type;
     using typename storage_type::const_valref_type;
+    using typename storage_type::rvalref_type;
+    using typename storage_type::const_rvalref_type;
 
     explicit tuple() = default;
 
@@ -64,14 +66,14 @@ public:
 
     // EXPERIMENTAL, though I think I'm wanting to keep it
     template <class F, class ...Args2>
-    bool visit(F&& f, Args2&&...args)
+    int visit(F&& f, Args2&&...args)
     {
         return types::visitor::visit(internal::visit_tuple_functor{}, *this, f,
             std::forward<Args2>(args)...);
     }
 
     template <class F, class ...Args2>
-    constexpr bool visit(F&& f, Args2&&...args) const
+    constexpr int visit(F&& f, Args2&&...args) const
     {
         return types::visitor::visit(internal::visit_tuple_functor{}, *this, f,
             std::forward<Args2>(args)...);
diff --git a/src/estd/internal/tuple/get.h b/src/estd/internal/tuple/get.h
index f9b017c..b716432 100644
--- a/src/estd/internal/tuple/get.h
+++ b/src/estd/internal/tuple/get.h
@@ -37,6 +37,9 @@ struct GetImpl<sparse, 0, First, Rest...>
     using target = tuple_storage<sparse, First>;
     using valref_type = typename target::valref_type;
     using const_valref_type = typename target::const_valref_type;
+    // By value for sparse (empty) elements, since there is nothing to refer to
+    using rvalref_type = typename target::rvalref_type;
+    using const_rvalref_type = typename target::const_rvalref_type;
 
     static constexpr const_valref_type value(const tuple<sparse, First, Rest...>& t)
     {
@@ -48,9 +51,14 @@ struct GetImpl<sparse, 0, First, Rest...>
         return t.first();
     }
 
-    static First&& value(tuple<sparse, First, Rest...>&& t)
+    static rvalref_type value(tuple<sparse, First, Rest...>&& t)
     {
-        return std::forward<First>(t.first());
+        return static_cast<rvalref_type>(t.first());
+    }
+
+    static constexpr const_rvalref_type value(const tuple<sparse, First, Rest...>&& t)
+    {
+        return static_cast<const_rvalref_type>(t.first());
     }
 };
 
@@ -72,14 +80,16 @@ ESTD_CPP_CONSTEXPR(20) typename tuple_element<index, tuple<Types...> >::valref_t
 }
 
 template<int index, bool sparse, typename... Types>
-ESTD_CPP_CONSTEXPR(20) tuple_element_t<index, tuple<Types...> >&& get(internal::tuple<sparse, Types...>&& t)
+ESTD_CPP_CONSTEXPR(20) typename tuple_element<index, tuple<Types...> >::rvalref_type get(
+    internal::tuple<sparse, Types...>&& t)
 {
     return internal::GetImpl<sparse, index, Types...>::value(
         std::forward<internal::tuple<sparse, Types...>>(t));
 }
 
 template<int index, bool sparse, typename... Types>
-constexpr tuple_element_t<index, tuple<Types...> >&& get(const internal::tuple<sparse, Types...>&& t)
+constexpr typename tuple_element<index, tuple<Types...> >::const_rvalref_type get(
+    const internal::tuple<sparse, Types...>&& t)
 {
     return internal::GetImpl<sparse, index, Types...>::value(
         std::forward<const internal::tuple<sparse, Types...>>(t));
@@ -95,7 +105,7 @@ ESTD_CPP_CONSTEXPR(14) T& get(internal::tuple<sparse, Types...>& t)
 template <class T, bool sparse, typename... Types>
 ESTD_CPP_CONSTEXPR(14) T&& get(internal::tuple<sparse, Types...>&& t)
 {
-    return get<internal::single_index_of_type<T, Types...>::index>(t);
+    return get<internal::single_index_of_type<T, Types...>::index>(std::move(t));
 }
 
 template <class T, bool sparse, typename... Types>
@@ -107,7 +117,7 @@ constexpr const T& get(const internal::tuple<sparse, Types...>& t)
 template <class T, bool sparse, typename... Types>
 constexpr const T&& get(const internal::tuple<sparse, Types...>&& t)
 {
-    return get<internal::single_index_of_type<T, Types...>::index>(t);
+    return get<internal::single_index_of_type<T, Types...>::index>(std::move(t));
 }
 
 }
diff --git a/src/estd/internal/tuple/sparse.h b/src/estd/internal/tuple/sparse.h
index 222a665..9a4552b 100644
--- a/src/estd/internal/tuple/sparse.h
+++ b/src/estd/internal/tuple/sparse.h
@@ -22,6 +22,8 @@ public:
 
     typedef T valref_type;
     typedef T const_valref_type;
+    typedef T rvalref_type;
+    typedef T const_rvalref_type;
 };
 
 
@@ -34,6 +36,8 @@ class tuple_storage<sparse, T, index,
 public:
     typedef T& valref_type;
     typedef const T& const_valref_type;
+    typedef T&& rvalref_type;
+    typedef const T&& const_rvalref_type;
 
     constexpr const T& first() const { return value; }
 
diff --git a/src/estd/internal/variadic/integer_sequence.h b/src/estd/internal/variadic/integer_sequence.h
index aa5b364..30d51c8 100644
--- a/src/estd/internal/variadic/integer_sequence.h
+++ b/src/estd/internal/variadic/integer_sequence.h
@@ -94,7 +94,7 @@ struct values :
         template <T v>
         using contains = bool_constant<
             selector<
-                internal::is_same_value_selector<T, v>>::values::size() == 1>;
+                internal::is_same_value_selector<T, v>>::values::size() != 0>;
     };
 
     template <class Eval>
diff --git a/src/estd/tuple.h b/src/estd/tuple.h
index 035990d..731075b 100644
--- a/src/estd/tuple.h
+++ b/src/estd/tuple.h
@@ -20,6 +20,8 @@ struct tuple_element<0, estd::tuple<Head, Tail...>>
 {
     using valref_type = typename estd::tuple<Head>::valref_type;
     using const_valref_type = typename estd::tuple<Head>::const_valref_type;
+    using rvalref_type = typename estd::tuple<Head>::rvalref_type;
+    using const_rvalref_type = typename estd::tuple<Head>::const_rvalref_type;
 
     typedef Head type;
 };
diff --git a/src/estd/utility.h b/src/estd/utility.h
index 68efef3..89a1d61 100644
--- a/src/estd/utility.h
+++ b/src/estd/utility.h
@@ -39,7 +39,8 @@ struct pair
         first(first), second(second) {}
 
     template <class U1, class U2>
-    constexpr pair(U1&& first, U2&& second) : first(first), second(second) {}
+    constexpr pair(U1&& first, U2&& second) :
+        first(std::forward<U1>(first)), second(std::forward<U2>(second)) {}
 
 #if FEATURE_ESTD_CPP03_TUPLE == 0
     template <class ...Args1, class ...Args2>
@@ -54,6 +55,7 @@ struct pair
 #endif
 
     pair& operator=(const pair& other) = default;
+    pair& operator=(pair&& other) = default;
 
     ESTD_CPP_CONSTEXPR(14) void swap(pair& other)
     {
@@ -71,7 +73,7 @@ ESTD_CPP_CONSTEXPR(14) void swap(pair<T1, T2>& x, pair<T1, T2>& y)
 template <class T1, class T2>
 ESTD_CPP_CONSTEXPR(11) pair<T1, T2> make_pair(T1 t, T2 u)
 {
-    return pair<T1, T2> { t, u };
+    return pair<T1, T2> { std::move(t), std::move(u) };
 }
 
 
-- 
2.43.0


From a6441e879fa7566a31556095da8619c6b6cf3098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:19 +0000
Subject: [PATCH 28/52] fix: value_visitor did not compile with clang

---
 src/estd/internal/variadic/visitor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/variadic/visitor.h b/src/estd/internal/variadic/visitor.h
index c24342f..c4e8d5a 100644
--- a/src/estd/internal/variadic/visitor.h
+++ b/src/estd/internal/variadic/visitor.h
@@ -172,7 +172,8 @@ struct visitor_value :
     internal::visitor_index<I>,
     integral_constant<T, v>
 {
-
+    // Needed to soften 'explicit' in_place_index_t
+    constexpr visitor_value()    {}
 };
 
 template <size_t I, class T>
-- 
2.43.0


From 879f40f8f97ed0b6a73b84ba11829a8563317680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:04 +0000
Subject: [PATCH 29/52] fix: experimental::function owns and clones its target;
 copies of inline and thisify functions use their own model; invoke of plain
 callables no longer ambiguous; cref yields a reference to const

---
 src/estd/functional.h          | 91 +++++++++++++++++++++++++++-------
 src/estd/internal/functional.h |  7 +++
 src/estd/internal/invoke.h     |  6 +--
 3 files changed, 84 insertions(+), 20 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index dc23f7e..d8c2b33 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -82,9 +82,9 @@ reference_wrapper<T> ref(T& t) NOEXCEPT
 }
 
 template <class T>
-reference_wrapper<T> cref(const T& t) NOEXCEPT
+reference_wrapper<const T> cref(const T& t) NOEXCEPT
 {
-    return reference_wrapper<T>(t);
+    return reference_wrapper<const T>(t);
 }
 
 #if defined (FEATURE_CPP_VARIADIC) && defined (FEATURE_CPP_MOVESEMANTIC)
@@ -136,6 +136,7 @@ private:
     }
 
     typedef void (*deleter_type)(model_base*);  // EXPERIMENTAL
+    typedef model_base* (*cloner_type)(const model_base*);  // EXPERIMENTAL
 
     template <class F>
     static void deleter(model_base* c)
@@ -146,8 +147,31 @@ private:
         delete (model_type*) c;
     }
 
+    template <class Model, estd::enable_if_t<estd::is_copy_constructible<Model>::value, bool> = true>
+    static model_base* clone(const model_base* c)
+    {
+        return new Model(*static_cast<const Model*>(c));
+    }
+
+    // Not copyable, e.g. move only captures.  Copied function is then empty
+    template <class Model, estd::enable_if_t<!estd::is_copy_constructible<Model>::value, bool> = true>
+    static model_base* clone(const model_base*)
+    {
+        return nullptr;
+    }
+
+    template <class F>
+    static model_base* cloner(const model_base* c)
+    {
+        return clone<typename base_type::template model<estd::decay_t<F> > >(c);
+    }
+
+    template <class T>
+    using is_self = estd::is_same<estd::remove_cvref_t<T>, function>;
+
     // Jumping through some hoops to avoid overhead of a virtual destructor.  On a plus note
-    const deleter_type _deleter;
+    deleter_type _deleter;
+    cloner_type _cloner;
 
     void reset()
     {
@@ -170,27 +194,29 @@ public:
         estd::enable_if_t<!estd::is_base_of<function_base_tag,
             estd::remove_cv_t<T>
             >::value, bool> = true> */
-    template <typename T>
+    template <typename T, estd::enable_if_t<!is_self<T>::value, bool> = true>
     function(T&& t) :
         allocator_provider_type(TAllocator()),
-        _deleter{deleter<T>}
+        _deleter{deleter<T>},
+        _cloner{cloner<T>}
     {
         typedef typename estd::decay<T>::type incoming_function_type;
         typedef typename base_type::template model<incoming_function_type> model_type;
         //allocator_traits::rebind_alloc<model_type>
         // FIX: Don't want to dynamically allocate memory quite this way
-        auto m = new model_type(std::move(t));
+        auto m = new model_type(incoming_function_type(std::forward<T>(t)));
         base_type::m = m;
     }
 
     template <typename T>
     function(T&& t, TAllocator& allocator) :
         allocator_provider_type(allocator),
-        _deleter{deleter<T>}
+        _deleter{deleter<T>},
+        _cloner{cloner<T>}
     {
         typedef typename estd::decay<T>::type incoming_function_type;
         typedef typename base_type::template model<incoming_function_type> model_type;
-        auto m = new model_type(std::forward<T>(t));
+        auto m = new model_type(incoming_function_type(std::forward<T>(t)));
         base_type::m = m;
     }
 
@@ -209,13 +235,22 @@ public:
         auto h = allocator_traits::allocate(alloc, sizeof(model_type));
     } */
 
-    function(const function& other) = default;
+    function(const function& other) :
+        base_type(),
+        allocator_provider_type(other),
+        _deleter{other._deleter},
+        _cloner{other._cloner}
+    {
+        if(other.getm() != nullptr)
+            base_type::m = _cloner(other.getm());
+    }
 
 #ifdef FEATURE_CPP_MOVESEMANTIC
     // FIX: SFINAE remove this when nullable == false
     function(function&& other) NOEXCEPT :
         allocator_provider_type(std::move(other)),
-        _deleter{other._deleter}
+        _deleter{other._deleter},
+        _cloner{other._cloner}
     {
         base_type::m = other.getm();
         other.clear();
@@ -227,11 +262,27 @@ public:
         reset();
     }
 
-    template <typename F>
+    template <typename F, estd::enable_if_t<!is_self<F>::value, bool> = true>
     function& operator=(F&& f)
     {
-        reset();
-        new (this) function(std::move(f));
+        return *this = function(std::forward<F>(f));
+    }
+
+    function& operator=(const function& other)
+    {
+        return *this = function(other);
+    }
+
+    function& operator=(function&& other) NOEXCEPT
+    {
+        if(this != &other)
+        {
+            reset();
+            base_type::m = other.getm();
+            _deleter = other._deleter;
+            _cloner = other._cloner;
+            other.clear();
+        }
         return *this;
     }
 
@@ -287,14 +338,20 @@ public:
 
     }
 
-    /*
-    inline_function(const inline_function& copy_from) = default;
+    // base class must refer to our own model, not copy_from's
+    inline_function(const inline_function& copy_from) :
+        base_type(&m),
+        m(copy_from.m)
+    {
+
+    }
+
     inline_function(inline_function&& move_from) :
-        base_type(std::move(move_from)),
+        base_type(&m),
         m(std::move(move_from.m))
     {
 
-    } */
+    }
 };
 
 template <class TFunc, typename F>
diff --git a/src/estd/internal/functional.h b/src/estd/internal/functional.h
index 33d274e..af47ee0 100644
--- a/src/estd/internal/functional.h
+++ b/src/estd/internal/functional.h
@@ -312,6 +312,13 @@ public:
     {
     }
 
+    // base class must refer to our own model, not copy_from's
+    thisify_function(const thisify_function& copy_from) :
+        base_type(&m_),
+        m_(copy_from.m_)
+    {
+    }
+
     // UNUSED, and you're probably better off using inline_function
     template <class T, function_type<T> f>
     static thisify_function create(T* foreign_this)
diff --git a/src/estd/internal/invoke.h b/src/estd/internal/invoke.h
index 13b196f..e57a1a7 100644
--- a/src/estd/internal/invoke.h
+++ b/src/estd/internal/invoke.h
@@ -16,7 +16,7 @@ template <class T>
 constexpr bool is_reference_wrapper_v = is_reference_wrapper<T>::value;
 
 template <class T, class Type, class T1, class... Args>
-decltype(auto) INVOKE(Type T::* f, T1&& t1, Args&&... args)
+decltype(auto) do_invoke(Type T::* f, T1&& t1, Args&&... args)
 {
     if constexpr (std::is_member_function_pointer_v<decltype(f)>) {
         if constexpr (estd::is_base_of_v<T, std::decay_t<T1>>)
@@ -38,7 +38,7 @@ decltype(auto) INVOKE(Type T::* f, T1&& t1, Args&&... args)
 }
 
 template <class F, class... Args>
-decltype(auto) INVOKE(F&& f, Args&&... args)
+decltype(auto) do_invoke(F&& f, Args&&... args)
 {
       return std::forward<F>(f)(std::forward<Args>(args)...);
 }
@@ -49,7 +49,7 @@ template< class F, class... Args>
 estd::invoke_result_t<F, Args...> invoke(F&& f, Args&&... args)
   noexcept(std::is_nothrow_invocable_v<F, Args...>)
 {
-    return detail::INVOKE(std::forward<F>(f), std::forward<Args>(args)...);
+    return detail::do_invoke(std::forward<F>(f), std::forward<Args>(args)...);
 }
 
 
-- 
2.43.0


From a9bcbe1b41ec8bd5fb5a63cbae6a5639005218e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:21 +0000
Subject: [PATCH 30/52] fix: shared ownership counts owners taken after the
 master resets; assignment acquires before releasing; empty handles have no
 object; linked_ref moves, weak references and counts; pooled shared objects
 are destructed

---
 src/estd/exp/memory/memory_pool.h |  5 +++-
 src/estd/internal/linked_ref.h    | 39 ++++++++++++++++++++++---------
 src/estd/memory.h                 | 20 ++++++++++++----
 3 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/estd/exp/memory/memory_pool.h b/src/estd/exp/memory/memory_pool.h
index 4ee47ef..2ed1b35 100644
--- a/src/estd/exp/memory/memory_pool.h
+++ b/src/estd/exp/memory/memory_pool.h
@@ -76,6 +76,8 @@ struct memory_pool_item_traits<estd::layer1::shared_ptr<T, void>, TMemoryPool >
         ///
         void Deleter() OVERRIDE
         {
+            // shared_ptr's own destructor does not destruct what it manages
+            this->shared->~T();
             pool->destroy_internal(pool_item);
         }
 
@@ -105,9 +107,10 @@ struct memory_pool_item_traits<estd::layer1::shared_ptr<T, void>, TMemoryPool >
         // TODO: use allocator_traits
         //new (value) value_type([](TMemoryPool2& mp, T* d){});
         //new (value) value_type(deleter);
+        new (value) tracked_value_type();
+        // must follow construction, otherwise compiler is free to discard these
         value->_value.pool = &pool;
         value->_value.pool_item = value;
-        new (value) tracked_value_type();
 
 #ifdef FEATURE_ESTD_EXP_AUTOCONSTRUCT
         value->construct(std::forward<TArgs>(args)...);
diff --git a/src/estd/internal/linked_ref.h b/src/estd/internal/linked_ref.h
index c8a0e28..5c3b03c 100644
--- a/src/estd/internal/linked_ref.h
+++ b/src/estd/internal/linked_ref.h
@@ -18,7 +18,7 @@ struct linked_ref_traits
         return v == nullptr;
     }
 
-    static void destroy(T*) {}
+    static void destruct(T*) {}
 };
 
 template <class T, class Traits = linked_ref_traits<T> >
@@ -46,7 +46,8 @@ class linked_ref
 
     // for weak one only
     linked_ref() :
-        value_(Traits::null())
+        value_(Traits::null()),
+        next_(nullptr)
     {
 
     }
@@ -59,8 +60,12 @@ public:
     }
 
     explicit linked_ref(const linked_ref& attach_to) :
-        value_(attach_to.value_)
+        value_(attach_to.value_),
+        next_(nullptr)
     {
+        // nothing to attach to if it's already unlinked
+        if(attach_to.next_ == nullptr) return;
+
         // DEBT: Do a const_cast here, maybe mutable?
         // we are forced to do this so as to conform to regular copy constructor signature
         list_type l((linked_ref*)&attach_to);
@@ -82,8 +87,19 @@ public:
     }
 
     linked_ref(linked_ref&& move_from) noexcept :
-        value_(move_from.value_)
+        value_(move_from.value_),
+        next_(nullptr)
     {
+        if(move_from.next_ == nullptr) return;
+
+        // lone node links only to itself, so there's nobody else to replace it within
+        if(move_from.next_ == &move_from)
+        {
+            next_ = this;
+            move_from.next_ = nullptr;
+            return;
+        }
+
         // NOTE: Sad truth is move operation is pretty slow, since we have to remove ourselves
         // from a forward list necessitating a full loop through.  Naturally doubly linked list
         // is superior here, but that's
@@ -159,16 +175,17 @@ public:
     {
         linked_ref lr;
 
-        list_type l(&lr);
-
-        l.insert_after(const_iterator(this), *this);
+        if(next_ != nullptr) list_type::insert_after(const_iterator(this), lr);
 
         return lr;
     }
 
     int count_shared()
     {
-        int count = 1;  // ourself
+        // unlinked
+        if(next_ == nullptr) return 0;
+
+        int count = is_shared() ? 1 : 0;  // ourself
 
         list_type l(this);
 
@@ -178,16 +195,16 @@ public:
         // linked_ref goes in a circle
         while(++i != list::null_iterator{})
         {
-            // TODO: filter by null/non-weak
             const linked_ref& current = *i;
 
             if(&current == this) return count;
 
-            //if(!Traits::null(&current))
-            ++count;
+            if(current.is_shared()) ++count;
         }
 
         return count;
+
+        return count;
     }
 };
 
diff --git a/src/estd/memory.h b/src/estd/memory.h
index 2bfdf37..6ef9507 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -268,7 +268,8 @@ public:
 #ifdef FEATURE_ESTD_SHARED_PTR_ALIAS
         return stored;
 #else
-        return control().shared;
+        // base knows whether there's a control block to ask at all
+        return base_type::managed();
 #endif
     }
 
@@ -309,7 +310,8 @@ public:
     shared_ptr2_base(estd::internal::shared_ptr_control_block<T>* master_shared_ptr) :
         base_type(master_shared_ptr)
     {
-        if(master_shared_ptr && master_shared_ptr->is_active)
+        // is_active describes master alone, others may still own after it resets
+        if(master_shared_ptr)
             master_shared_ptr->shared_count++;
     }
 
@@ -345,6 +347,9 @@ struct shared_ptr_base :
     typedef experimental::instance_provider<TControlBlock> base_type;
     typedef typename TControlBlock::managed_type managed_type;
 
+#ifdef FEATURE_CPP_ALIGN
+    alignas(managed_type)
+#endif
     experimental::raw_instance_provider<managed_type, size> _provided;
 
     // FIX: clean up naming - getting 'value' collisions from multiple providers
@@ -368,6 +373,8 @@ struct shared_ptr_base :
     {}
 
 protected:
+    // NOTE: available regardless of active state, since storage is always present
+    managed_type* managed() const { return base_type::value().shared; }
     bool is_active() const { return base_type::value().is_active; }
     void activate() { base_type::value().is_active = true; }
     void deactivate() { base_type::value().is_active = false; }
@@ -459,6 +466,7 @@ struct shared_ptr_base :
     {}
 
 protected:
+    T* managed() const { return this->value().shared; }
     bool is_active() const { return this->value().is_active; }
     void deactivate() { this->value().is_active = false; }
 };
@@ -513,6 +521,7 @@ struct shared_ptr_base :
         estd::internal::shared_ptr_control_block<T> > base_type;
 
 protected:
+    T* managed() const { return is_active() ? this->value_ptr()->shared : NULLPTR; }
     bool is_active() const { return this->value_ptr() != NULLPTR; }
     void deactivate() { this->value_ptr(NULLPTR); }
 
@@ -583,8 +592,11 @@ public:
     shared_ptr& operator=(TSharedPtr&
                          copy_from)
     {
-        this->reset();
-        new (this) shared_ptr(copy_from);
+        // acquire first, since releasing ours may otherwise take copy_from with it
+        shared_ptr acquired(copy_from);
+        typename base_type::control_type* const released = this->value_ptr();
+        this->value_ptr(acquired.value_ptr());
+        acquired.value_ptr(released);
         return *this;
     }
 
-- 
2.43.0


From 5039ab30b8f9d65019911a626c91d4bea210767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:30 +0000
Subject: [PATCH 31/52] fix: linked lists: remove consecutive matches, destruct
 and release owned nodes, keep back in step, allow front and remove on owned
 lists

---
 src/estd/exp/memory/memory_pool.h |  3 +++
 src/estd/forward_list.h           | 25 +++++++++++++++++++++----
 src/estd/internal/list_node.h     | 12 +++++++++++-
 src/estd/iterators/list.h         |  2 +-
 src/estd/list.h                   |  2 +-
 src/estd/traits/list_node.h       |  3 ++-
 6 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/estd/exp/memory/memory_pool.h b/src/estd/exp/memory/memory_pool.h
index 2ed1b35..7e75971 100644
--- a/src/estd/exp/memory/memory_pool.h
+++ b/src/estd/exp/memory/memory_pool.h
@@ -195,6 +195,9 @@ protected:
 
         void deallocate(node_handle) {}
 
+        // intrusive, so node itself is the value tracked
+        static node_type& value(node_type& n) { return n; }
+
         static node_handle next(node_type& n)
         {
             return reinterpret_cast<node_handle>(n._next);
diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index 81ca246..95e7c28 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -161,6 +161,8 @@ public:
 
         set_next(node_to_erase_after, node_following_erased);
 
+        get_traits().deallocate(node_to_erase);
+
         return iterator(node_following_erased, base_t::traits);
     }
 
@@ -202,13 +204,16 @@ public:
     {
         node_handle current = base_t::m_front;
         node_handle previous = before_beginning_node();
+        // removed nodes are released only at the very end, predicate
+        // may be referring to one of them
+        node_handle removed = after_end_node();
 
         while (current != after_end_node())
         {
             node_handle _next = next(current);
             node_type& current_locked = alloc_lock(current);
 
-            bool matched = p(current_locked);
+            bool matched = p(node_traits_t::value(current_locked));
 
             alloc_unlock(current);
 
@@ -221,12 +226,23 @@ public:
                 else
                     set_next(previous, _next);
 
-                if (first_only) return;
+                set_next(current, removed);
+                removed = current;
+
+                if (first_only) break;
             }
+            else
+                previous = current;
 
-            previous = current;
             current = _next;
         }
+
+        while (removed != after_end_node())
+        {
+            node_handle _next = next(removed);
+            get_traits().deallocate(removed);
+            removed = _next;
+        }
     }
 
     // deviates from std C++ in that this optionally shall remove the first item found
@@ -265,8 +281,9 @@ public:
 
                 if(first_only) return;
             }
+            else
+                previous = current;
 
-            previous = current;
             current = _next;
         }
 #endif
diff --git a/src/estd/internal/list_node.h b/src/estd/internal/list_node.h
index ff5d4ba..3bc1604 100644
--- a/src/estd/internal/list_node.h
+++ b/src/estd/internal/list_node.h
@@ -226,7 +226,7 @@ public:
         // b) it's an inline node-value pair
         // in which case, when both are true, front_value will actually be invalid
         // so the 'accessor' pattern is of increased importance to stave that off
-        reference front_value = base_type::alloc_lock(m_front);
+        reference front_value = node_traits_t::value(base_type::alloc_lock(m_front));
 
         base_type::alloc_unlock(m_front);
 
@@ -378,6 +378,9 @@ protected:
             base_type::m_front = new_back;
         }
 
+        // node may have been in a list earlier, so be sure nothing follows it now
+        base_type::set_next(new_back, base_type::after_end_node());
+
         // set the current 'back' tracker to this new_back
         base_type::m_back = new_back;
     }
@@ -415,6 +418,13 @@ public:
         set_front(base_type::get_traits().allocate(value));
     }
 
+    void pop_front()
+    {
+        base_type::pop_front();
+
+        // nothing left to track
+        if(base_type::empty()) base_type::m_back = base_type::after_end_node();
+    }
 };
 
 }
diff --git a/src/estd/iterators/list.h b/src/estd/iterators/list.h
index bd19e6c..653e30b 100644
--- a/src/estd/iterators/list.h
+++ b/src/estd/iterators/list.h
@@ -347,7 +347,7 @@ public:
     {
         ReverseIterator temp(*this);
 
-        return temp - subtrahend;
+        return temp -= subtrahend;
     }
 
     // untested
diff --git a/src/estd/list.h b/src/estd/list.h
index bccb345..c6dc895 100644
--- a/src/estd/list.h
+++ b/src/estd/list.h
@@ -105,7 +105,7 @@ public:
     template <class ...TArgs>
     void emplace_front(TArgs&&...args)
     {
-        node_handle new_front = base_t::traits.alloc_emplace(std::forward<TArgs...>(args)...);
+        node_handle new_front = base_t::traits.alloc_emplace(std::forward<TArgs>(args)...);
 
         push_front(new_front);
     }
diff --git a/src/estd/traits/list_node.h b/src/estd/traits/list_node.h
index 06fc7d1..90c1022 100644
--- a/src/estd/traits/list_node.h
+++ b/src/estd/traits/list_node.h
@@ -266,7 +266,8 @@ struct inlinevalue_node_traits_new_base :
 
     void deallocate(node_handle& h)
     {
-        base_t::deallocate_node(h);
+        // node and value are constructed by us, so it's up to us to destruct too
+        base_t::destroy(h);
     }
 
 #ifdef FEATURE_CPP_VARIADIC
-- 
2.43.0


From 140bd1fb6aa580a83f1374eed2e2338587e6ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:03 +0000
Subject: [PATCH 32/52] fix: to_chars and from_chars: exact fit and empty
 buffers, the most negative value, signs without digits, trailing text after
 negatives

---
 src/estd/internal/charconv.hpp            | 26 ++++++----
 src/estd/internal/charconv/from_chars.hpp | 63 ++++++++++-------------
 src/estd/internal/charconv/reverse.hpp    | 18 ++++---
 src/estd/internal/raise_and_add.h         |  4 +-
 4 files changed, 58 insertions(+), 53 deletions(-)

diff --git a/src/estd/internal/charconv.hpp b/src/estd/internal/charconv.hpp
index 088fcb5..e7730de 100644
--- a/src/estd/internal/charconv.hpp
+++ b/src/estd/internal/charconv.hpp
@@ -51,27 +51,35 @@ inline detail::to_chars_result<CharIt> to_chars_integer_opt(
     static_assert(is_same<typename cbase_type::char_type, char_type>::value, "CharIt must align with cbase");
 #endif
 
-    if(numeric_limits::is_signed && negative) value *= -1;
+    // At least as wide as int.  Digits of negative values are taken one by one, since
+    // the most negative value has no positive counterpart
+    typedef decltype(value + 0) promoted_type;
+    const promoted_type b = base();
 
-    while(first != --last)
+    while(first != last)
     {
-// EXPERIMENTAL, not sure if this helps at all
 #if FEATURE_ESTD_TO_CHARS_LIBC_DIV
-        using d = div<Int>;
-        const typename d::result v = d::eval(value, base());
-        *last = cbase_type::to_char(v.rem);
-        value = v.quot;
+        // EXPERIMENTAL, not sure if this helps at all
+        using d = div<promoted_type>;
+        const typename d::result v = d::eval(value, b);
+        const promoted_type rem = v.rem;
+        value = static_cast<Int>(v.quot);
 #else
         // DEBT: Pretty sure there's a div and mod combined operation, use that
         // i.e. https://riscv.org/wp-content/uploads/2017/05/riscv-spec-v2.2.pdf page 36 section 6.2
-        *last = cbase.to_char(value % base());
-        value /= base();
+        const promoted_type rem = value % b;
+        value = static_cast<Int>(value / b);
 #endif
+        *--last = cbase.to_char(negative ? -rem : rem);
 
         if(value == 0)
         {
             if(numeric_limits::is_signed && negative)
+            {
+                if(first == last) break;
+
                 *--last = '-';
+            }
 
 #ifdef __cpp_initializer_lists
             return result_type{last, estd::errc(0)};
diff --git a/src/estd/internal/charconv/from_chars.hpp b/src/estd/internal/charconv/from_chars.hpp
index 8fb20cd..cb0b7d3 100644
--- a/src/estd/internal/charconv/from_chars.hpp
+++ b/src/estd/internal/charconv/from_chars.hpp
@@ -24,7 +24,7 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
 #endif
 
     CharIt current = first;
-    bool negate;
+    bool negate = false;
     // "If no characters match the pattern or if the value obtained by parsing
     // the matched characters is not representable in the type of value, value is unmodified," [1]
     T local_value = 0;
@@ -40,65 +40,58 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
     while (estd::internal::ascii_isspace(*current))
         current++; */
 
-    if (estd::is_signed<T>::value)
+    if (estd::is_signed<T>::value && current != last)
     {
         negate = *current == '-';
 
         if (negate) ++current;
     }
 
+    const CharIt digits = current;
+
     while (current != last)
     {
         // DEBT: Use has_value() and friends for clarity here
         const optional_type digit = cbase_type::from_char(*current, base);
-        if (digit.has_value())
-        {
-            bool success = raise_and_add(local_value, base, digit.value());
 
-            // If we didn't succeed, that means we overflowed
-            if (!success)
-            {
-                // skip to either end or next spot which isn't a number
-                // "ptr points at the first character not matching the pattern." [1]
-                while (++current != last && cbase_type::is_in_base(*current)) {}
+        if (!digit.has_value()) break;
 
-#ifdef FEATURE_CPP_INITIALIZER_LIST
-                return result_type{current, estd::errc::result_out_of_range};
-#else
-                return result_type(current, estd::errc::result_out_of_range);
-#endif
-            }
-        }
-        else if(current == first)
+        // Negative values accumulate downward, since the most negative value has
+        // no positive counterpart
+        const int addend = negate ? -digit.value() : digit.value();
+
+        // If we didn't succeed, that means we overflowed
+        if (!raise_and_add(local_value, base, addend))
         {
-            return result_type
+            // skip to either end or next spot which isn't a number
+            // "ptr points at the first character not matching the pattern." [1]
+            while (++current != last && cbase_type::is_in_base(*current, base)) {}
+
 #ifdef FEATURE_CPP_INITIALIZER_LIST
-                {current, estd::errc::invalid_argument};
+            return result_type{current, estd::errc::result_out_of_range};
 #else
-            (current, estd::errc::invalid_argument);
+            return result_type(current, estd::errc::result_out_of_range);
 #endif
         }
-        else
-        {
-            value = local_value;
+
+        ++current;
+    }
+
+    // A sign by itself is no match either
+    if (current == digits)
+    {
 #ifdef FEATURE_CPP_INITIALIZER_LIST
-            return result_type{current, estd::errc(0)};
+        return result_type{first, estd::errc::invalid_argument};
 #else
-            return result_type(current, estd::errc(0));
+        return result_type(first, estd::errc::invalid_argument);
 #endif
-        }
-        ++current;
     }
 
-    // prepend with constexpr so we can optimize out non-signed flavors
-    if (estd::is_signed<T>::value && negate)
-        local_value = -local_value;
-
     value = local_value;
 #ifdef FEATURE_CPP_INITIALIZER_LIST
-    return result_type{last,estd::errc(0)};
+    return result_type{current, estd::errc(0)};
 #else
-    return result_type(last,estd::errc(0));
+    return result_type(current, estd::errc(0));
 #endif
 }
 
diff --git a/src/estd/internal/charconv/reverse.hpp b/src/estd/internal/charconv/reverse.hpp
index c3a2711..ecac6e7 100644
--- a/src/estd/internal/charconv/reverse.hpp
+++ b/src/estd/internal/charconv/reverse.hpp
@@ -15,19 +15,23 @@ to_chars_result to_chars_integer_reverse(char* first, char* last, TInt value, co
     typedef cbase<char, b, classic_locale_type> cbase_type;
     typedef typename cbase_type::char_type char_type;
 
-    if(estd::numeric_limits<TInt>::is_signed && value < 0)
-    {
-        *first++ = '-';
-        value *= -1;
-    }
+    const bool negative = estd::numeric_limits<TInt>::is_signed && value < 0;
+
+    // At least as wide as int.  Digits of negative values are taken one by one, since
+    // the most negative value has no positive counterpart
+    typedef decltype(value + 0) promoted_type;
+    const promoted_type b_ = base;
+
+    if(negative && first != last) *first++ = '-';
 
     char_type* current = first;
 
     while(current != last)
     {
+        const promoted_type rem = value % b_;
         // DEBT: instance method in case its runtime casing
-        *current = cbase_type().to_char(value % base);
-        value /= base;
+        *current = cbase_type().to_char(negative ? -rem : rem);
+        value = static_cast<TInt>(value / b_);
 
         current++;
 
diff --git a/src/estd/internal/raise_and_add.h b/src/estd/internal/raise_and_add.h
index f4fb526..87887ec 100644
--- a/src/estd/internal/raise_and_add.h
+++ b/src/estd/internal/raise_and_add.h
@@ -44,8 +44,8 @@ inline raise_and_sub(T& __val, const unsigned short __base, Subtrahend sub)
 #else
 // Overflow goes unnoticed.  If the __builtins aren't available, you may have to implement
 // a platform specific approach here
-template <typename T>
-inline bool raise_and_add(T& val, const unsigned short base, unsigned char c)
+template <typename T, typename Addend>
+inline bool raise_and_add(T& val, const unsigned short base, Addend c)
 {
     val *= base;
     val += c;
-- 
2.43.0


From aa9808c7be05e6118ab659f3a232c3185fc82515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:23 +0000
Subject: [PATCH 33/52] fix: ctype::is and islower covered few characters,
 isspace only blanks, num_get stopped badly after overflow and accepted a lone
 sign or nothing, bool names from unrelated text read past the names,
 exhausted streambuf iterators

---
 src/estd/internal/cctype.h                  |  2 +-
 src/estd/internal/chooser.h                 |  9 +++-
 src/estd/internal/istreambuf_iterator.h     |  8 +++-
 src/estd/internal/locale/ctype.h            | 22 ++++++++--
 src/estd/internal/locale/iterated/num_get.h | 46 ++++++++++++++++++---
 src/estd/internal/locale/num_get.h          | 15 ++++++-
 6 files changed, 89 insertions(+), 13 deletions(-)

diff --git a/src/estd/internal/cctype.h b/src/estd/internal/cctype.h
index 48f3104..ead7da1 100644
--- a/src/estd/internal/cctype.h
+++ b/src/estd/internal/cctype.h
@@ -9,7 +9,7 @@ inline int ascii_isdigit(int ch)
 
 inline int ascii_isspace(int ch)
 {
-    return ch == ' ';
+    return ch == ' ' || ('\t' <= ch && ch <= '\r');
 }
 
 
diff --git a/src/estd/internal/chooser.h b/src/estd/internal/chooser.h
index 043ed01..a9718a4 100644
--- a/src/estd/internal/chooser.h
+++ b/src/estd/internal/chooser.h
@@ -48,12 +48,15 @@ public:
             {
                 const TContainer& container = containers[j];
 
-                if(container[i] == c)
+                if(get_size(container) != 0 && container[i] == c)
                 {
                     chosen_ = j;
                     break;
                 }
             }
+
+            // Nobody starts this way
+            if(chosen_ == -1) return true;
         }
         else
         {
@@ -65,6 +68,10 @@ public:
                 chosen_ = -1;
                 return true;
             }
+        }
+
+        {
+            const TContainer& container = containers[chosen_];
 
             // TODO: Optimize, detect containers which require processing to deduce size.
             // Likely this is most easily done in reverse, to tag containers which hold
diff --git a/src/estd/internal/istreambuf_iterator.h b/src/estd/internal/istreambuf_iterator.h
index 81f5065..3b8b427 100644
--- a/src/estd/internal/istreambuf_iterator.h
+++ b/src/estd/internal/istreambuf_iterator.h
@@ -40,7 +40,13 @@ private:
 
     //bool end() const { return ch == traits_type::eof(); }
     //bool end() const { return rdbuf_->in_avail() == -1; }
-    ESTD_CPP_CONSTEXPR_RET bool end() const { return rdbuf_ == NULLPTR; }
+    // Besides being a default-constructed one, an iterator whose streambuf has
+    // nothing (more) to offer is at the end
+    bool end() const
+    {
+        return rdbuf_ == NULLPTR ||
+            (rdbuf_->sgetc() == traits_type::eof() && rdbuf_->in_avail() == -1);
+    }
 
 
     // https://en.cppreference.com/w/cpp/iterator/istreambuf_iterator/equal
diff --git a/src/estd/internal/locale/ctype.h b/src/estd/internal/locale/ctype.h
index ce77fad..2968b94 100644
--- a/src/estd/internal/locale/ctype.h
+++ b/src/estd/internal/locale/ctype.h
@@ -73,7 +73,15 @@ public:
 
     static bool islower(char ch)
     {
-        return 'a' <= ch && ch <= 'a';
+        return 'a' <= ch && ch <= 'z';
+    }
+
+    static bool ispunct(char ch)
+    {
+        // every visible character which is neither a letter nor a digit
+        return '!' <= ch && ch <= '~' &&
+            !isupper(ch) && !islower(ch) &&
+            !internal::ascii_isdigit(ch);
     }
 
     typedef char char_type;
@@ -94,7 +102,7 @@ public:
             if(estd::cbase<char, 16, locale_type>::is_in_base(ch))
                 return true;
         }
-        else if(m & digit)
+        if(m & digit)
         {
             if(estd::cbase<char, 10, locale_type>::is_in_base(ch))
                 return true;
@@ -103,10 +111,18 @@ public:
         {
             if(isupper(ch)) return true;
         }
-        else if(m & lower)
+        if(m & lower)
         {
             if(islower(ch)) return true;
         }
+        if(m & alpha)
+        {
+            if(isupper(ch) || islower(ch)) return true;
+        }
+        if(m & punct)
+        {
+            if(ispunct(ch)) return true;
+        }
         return false;
     }
 };
diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 34995e6..5926082 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -147,7 +147,8 @@ struct num_get
             // TODO: Account for thousands separators
             // NOTE: Probably should use is_floating_point here instead, though so far
             // is_integer is in no danger of causing us grief
-            if(is_integer() == false && c == numpunct_type::decimal_point())
+            if(is_integer() == false && c == numpunct_type::decimal_point() &&
+                state_.decimal_place_ == 0)
             {
                 state_.decimal_place_ = 1;
                 return false;
@@ -213,7 +214,7 @@ struct num_get
                 // to ensure this hyphen compare is proper
                 if (is_signed<T>() && c == ctype_type::widen('-'))
                 {
-                    state_.state_ = NominalNegative;
+                    state_.state_ = FirstNegative;
                     return false;
                 }
                 else
@@ -234,6 +235,8 @@ struct num_get
                     return false;
 
             case FirstNegative:
+                state_.state_ = NominalNegative;
+
                 if(nominal<false>(c, err, v))
                 {
                     // "if the conversion function fails std::ios_base::failbit is assigned to err" [1]
@@ -251,7 +254,7 @@ struct num_get
 
             case Overflow:
                 // Merely consumed numbers in this mode
-                return cbase_type::from_char(c).has_value();
+                return !cbase_type::from_char(c).has_value();
 
             // FIX: Just to satisfy compilation
             default:
@@ -260,11 +263,24 @@ struct num_get
     }
 
 
+    /// No character yielded a number so far
+    bool incomplete() const
+    {
+        return state_.state_ == Start || state_.state_ == FirstNegative;
+    }
+
     template <class TIter, class T>
     bool get(TIter& i, TIter end,
         ios_base::iostate& err, T& v)
     {
-        if(i != end) return get(*i++, err, v);
+        if(i != end)
+        {
+            // the character after the number stays put
+            if(get(*i, err, v)) return true;
+
+            ++i;
+            return false;
+        }
 
         err |= ios_base::eofbit;
         return true;
@@ -327,7 +343,17 @@ struct bool_get<TChar, TLocale, false> : num_get<2, TChar, TLocale>
     template <class TIter>
     bool get(TIter& i, TIter end, ios_base::iostate& err, bool& v)
     {
-        if(i != end) return get(*i++, err, v);
+        if(i != end)
+        {
+            const bool valid = *i == '0' || *i == '1';
+
+            get(*i, err, v);
+
+            // an unexpected character stays put
+            if(valid) ++i;
+
+            return true;
+        }
 
         err |= ios_base::eofbit;
         return true;
@@ -378,7 +404,15 @@ struct bool_get<Char, Locale, true>
     template <class TIter>
     bool get(TIter& i, TIter end, ios_base::iostate& err, bool& v)
     {
-        if(i != end) return get(*i++, err, v);
+        if(i != end)
+        {
+            const bool done = get(*i, err, v);
+
+            // an unexpected character stays put
+            if(!done || chooser.chosen() != -1) ++i;
+
+            return done;
+        }
 
         err |= ios_base::eofbit;
         return true;
diff --git a/src/estd/internal/locale/num_get.h b/src/estd/internal/locale/num_get.h
index 3282384..f9cf772 100644
--- a/src/estd/internal/locale/num_get.h
+++ b/src/estd/internal/locale/num_get.h
@@ -70,6 +70,8 @@ private:
             }
 
             err |= ios_base::eofbit;
+            // "if the conversion function fails std::ios_base::failbit is assigned to err" [1]
+            if(n.incomplete()) err |= ios_base::failbit;
             n.finalize(v, is_integer());
             return i;
         }
@@ -140,7 +142,18 @@ private:
             // otherwise we get warnings.  Hopefully compilers are smart enough to figure out our pathing
             // in bool_get as we do always assign 'v'
 
-            while(!n.get(in, end, err, v));
+            ios_base::iostate state = ios_base::goodbit;
+
+            while(!n.get(in, end, state, v));
+
+            // Input ended before any name or digit did
+            if(state & ios_base::eofbit)
+            {
+                state |= ios_base::failbit;
+                v = false;
+            }
+
+            err |= state;
 
             return in;
         }
-- 
2.43.0


From 5d8c66bb37557f8c5032754b5a0ec79527cdbb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:09 +0000
Subject: [PATCH 34/52] fix: ostream formatting: fill range, width for text,
 adjustment default, bool, pointers, wide integers, seekp, setf mask, put
 failure

---
 src/estd/internal/ios_base.h               |  4 +--
 src/estd/internal/locale/num_put.h         | 15 +++++-----
 src/estd/internal/ostream.h                |  9 ++++--
 src/estd/internal/ostream/integer.h        | 12 ++++----
 src/estd/internal/ostream_basic_string.hpp |  2 +-
 src/estd/internal/streambuf.h              |  4 ++-
 src/estd/iomanip.h                         |  2 +-
 src/estd/ostream.h                         | 32 ++++++++++++++++------
 8 files changed, 51 insertions(+), 29 deletions(-)

diff --git a/src/estd/internal/ios_base.h b/src/estd/internal/ios_base.h
index c670124..64347de 100644
--- a/src/estd/internal/ios_base.h
+++ b/src/estd/internal/ios_base.h
@@ -134,7 +134,7 @@ public:
     {
         fmtflags prior = state_.fmtfl_;
         state_.fmtfl_ &= ~mask;
-        state_.fmtfl_ |= flags;
+        state_.fmtfl_ |= flags & mask;
         return prior;
     }
 
@@ -225,7 +225,7 @@ protected:
         positioning alignment : 2;  // DEBT: Unused
 
         // DEBT: Presumes ASCII, 7-bit.  Unicode and friends are out
-        char fillchar : 6;          // + 32 (from ' ' to '`' ASCII)
+        unsigned char fillchar : 6;          // + 32 (from ' ' to '`' ASCII)
         //bool showbase : 1;          // DEBT: Unused
 
         ESTD_CPP_CONSTEXPR_RET ostream_internal() :
diff --git a/src/estd/internal/locale/num_put.h b/src/estd/internal/locale/num_put.h
index 37ecf0b..25e3ac5 100644
--- a/src/estd/internal/locale/num_put.h
+++ b/src/estd/internal/locale/num_put.h
@@ -37,6 +37,8 @@ constexpr unsigned get_base(const ios_base::fmtflags basefield)
 {
     return basefield == ios_base::hex ? 16 :
         basefield == ios_base::dec ? 10 :
+        // as per std, no base specified at all means decimal
+        basefield == 0 ? 10 :
         8;
 }
 
@@ -144,7 +146,7 @@ private:
 
         using helper = internal::integer_put<Locale, policy>;
 
-        to_chars_result result = helper::to_chars(buffer, buffer + N, str, value);
+        const auto result = helper::to_chars(buffer, buffer + N, str, value);
 
         unsigned width = str.width();
         const unsigned result_width = buffer + N - result.ptr;
@@ -154,20 +156,17 @@ private:
             width -= result_width;
 
             const ios_base::fmtflags adj = str.flags() & ios_base::adjustfield;
-            if(adj == ios_base::right)
-            {
-                out = fill_n(out, width, fill);
-                return copy(result.ptr, buffer + N, out);
-            }
-            else if(adj == ios_base::left)
+            if(adj == ios_base::left)
             {
                 out = copy(result.ptr, buffer + N, out);
                 return fill_n(out, width, fill);
             }
             else
             {
+                // As per std, anything which isn't left (or internal) behaves as right
                 // DEBT: 'internal' flavor, needs work
-                return out;
+                out = fill_n(out, width, fill);
+                return copy(result.ptr, buffer + N, out);
             }
         }
         else
diff --git a/src/estd/internal/ostream.h b/src/estd/internal/ostream.h
index fd064cc..b4acdd2 100644
--- a/src/estd/internal/ostream.h
+++ b/src/estd/internal/ostream.h
@@ -98,7 +98,7 @@ public:
     char_type fill(char_type ch)
     {
         char_type old_fill = fill();
-        ostream_.fillchar = 0x20 + ch;
+        ostream_.fillchar = ch - 0x20;
         return old_fill;
     }
 
@@ -155,7 +155,10 @@ public:
     // UNTESTED
     __ostream_type& seekp(off_type off, ios_base::seekdir dir)
     {
-        this->rdbuf()->pubseekoff(off, dir, ios_base::out);
+        if (this->rdbuf()->pubseekoff(off, dir, ios_base::out) == pos_type(-1))
+            this->setstate(base_type::failbit);
+
+        return *this;
     }
 
     // When the time comes, these will replace the old virtual ones
@@ -170,7 +173,7 @@ public:
     __ostream_type& put(char_type ch, bool bypass_sentry = false)
     {
         if (this->rdbuf()->sputc(ch) == estd::char_traits<char_type>::eof())
-            this->setstate(base_type::eofbit);
+            this->setstate(base_type::badbit);
 
         if (!bypass_sentry)
             sentry::destroy(*this);
diff --git a/src/estd/internal/ostream/integer.h b/src/estd/internal/ostream/integer.h
index 1316b71..d128a3d 100644
--- a/src/estd/internal/ostream/integer.h
+++ b/src/estd/internal/ostream/integer.h
@@ -10,20 +10,22 @@ namespace internal {
 template <class Streambuf, class Base>
 void write_filled_buffer(
     detail::basic_ostream<Streambuf, Base>& out,
-    typename remove_cvref<Streambuf>::type::char_type* buffer,
-    unsigned sz)
+    const typename remove_cvref<Streambuf>::type::char_type* buffer,
+    streamsize sz)
 {
 #if FEATURE_ESTD_OSTREAM_SETW
     const streamsize pad = out.width();
+    // As per std, anything which is not exactly 'left' pads on the left side
+    const bool left = (out.flags() & ios_base::adjustfield) == ios_base::left;
     out.width(0);
 
-    if(out.flags() & ios_base::right)   out.fill_n(pad - sz);
+    if(!left)   out.fill_n(pad - sz);
 #endif
 
     out.write(buffer, sz);
 
 #if FEATURE_ESTD_OSTREAM_SETW
-    if(out.flags() & ios_base::left)    out.fill_n(pad - sz);
+    if(left)    out.fill_n(pad - sz);
 #endif
 }
 
@@ -81,7 +83,7 @@ detail::basic_ostream<Streambuf, Base>& out_int_helper(
 #endif
     char_type buffer[N];
 
-    const to_chars_result result = num_put::to_chars(buffer, buffer + N, out, value);
+    const auto result = num_put::to_chars(buffer, buffer + N, out, value);
 
     if(result.ec == 0)
     {
diff --git a/src/estd/internal/ostream_basic_string.hpp b/src/estd/internal/ostream_basic_string.hpp
index 1612178..06ddb5d 100644
--- a/src/estd/internal/ostream_basic_string.hpp
+++ b/src/estd/internal/ostream_basic_string.hpp
@@ -36,7 +36,7 @@ struct out_string_helper<O, Impl, typename estd::enable_if<
 {
     static void out(O& out, const allocated_array<Impl>& str)
     {
-        out.write(str.clock(), str.size());
+        write_filled_buffer(out, str.clock(), str.size());
         str.cunlock();
     }
 };
diff --git a/src/estd/internal/streambuf.h b/src/estd/internal/streambuf.h
index 1fb28c5..3d53dd8 100644
--- a/src/estd/internal/streambuf.h
+++ b/src/estd/internal/streambuf.h
@@ -50,7 +50,9 @@ protected:
 
     virtual int_type overflow(int_type ch = traits_type::eof()) OVERRIDE
     {
-        return _rdbuf.overflow();
+        return traits_type::eq_int_type(ch, traits_type::eof()) ?
+            traits_type::not_eof(ch) :
+            _rdbuf.sputc(traits_type::to_char_type(ch));
     }
 
 public:
diff --git a/src/estd/iomanip.h b/src/estd/iomanip.h
index beed336..e684cdd 100644
--- a/src/estd/iomanip.h
+++ b/src/estd/iomanip.h
@@ -20,7 +20,7 @@ ESTD_CPP_CONSTEXPR_RET internal::setw setw(unsigned width)
 
 template <class TStreambuf, class TBase>
 estd::detail::basic_ostream<TStreambuf, TBase>& operator <<(
-    estd::detail::basic_ostream<TStreambuf, TBase>& out, internal::setfill<typename TStreambuf::char_type> sf)
+    estd::detail::basic_ostream<TStreambuf, TBase>& out, internal::setfill<typename TBase::char_type> sf)
 {
     out.fill(sf.c);
     return out;
diff --git a/src/estd/ostream.h b/src/estd/ostream.h
index 4f23357..7aac8d8 100644
--- a/src/estd/ostream.h
+++ b/src/estd/ostream.h
@@ -39,10 +39,28 @@ inline basic_ostream<TStreambuf, TBase>& operator <<(basic_ostream<TStreambuf, T
                                                          const typename TBase::char_type* s)
 {
     typedef typename TBase::traits_type traits_type;
-    return out.write(s, traits_type::length(s));
+    internal::write_filled_buffer(out, s, traits_type::length(s));
+    return out;
 }
 
 #if __cplusplus >= 201103L
+// Without this one, bool converts to char_type and comes out as a raw 0x00 or 0x01
+template <class TStreambuf, class TBase, typename T,
+        enable_if_t<is_same<T, bool>::value, bool> = true>
+basic_ostream<TStreambuf, TBase>& operator<<(basic_ostream<TStreambuf, TBase>& out, T value)
+{
+    if(out.flags() & ios_base::boolalpha)
+    {
+        typedef estd::numpunct<typename TBase::char_type, typename TBase::locale_type> punct;
+        const typename punct::string_type name = value ? punct::truename() : punct::falsename();
+
+        internal::write_filled_buffer(out, name.data(), name.size());
+        return out;
+    }
+
+    return internal::out_int_helper(out, static_cast<unsigned char>(value));
+}
+
 template <class TStreambuf, class TBase, typename T,
         class enabled = enable_if_t<(estd::numeric_limits<T>::is_integer)> >
 basic_ostream<TStreambuf, TBase>&
@@ -69,13 +87,11 @@ inline basic_ostream<TStreambuf, TBase>& operator <<(basic_ostream<TStreambuf, T
     typename TBase::char_type ch)
 {
 #if FEATURE_ESTD_OSTREAM_SETW
-    const streamsize pad = out.width();
-
-    out.fill_n(pad - 1);
-    out.width(0);
-#endif
-
+    internal::write_filled_buffer(out, &ch, 1);
+    return out;
+#else
     return out.put(ch);
+#endif
 }
 
 // Somehow, blackfin has the PRIXPTR and friends even though it doesn't have
@@ -83,7 +99,7 @@ inline basic_ostream<TStreambuf, TBase>& operator <<(basic_ostream<TStreambuf, T
 #if defined(FEATURE_STD_INTTYPES) || defined(__ADSPBLACKFIN__)
 // explicit prototype here to avoid pulling in collision-happy stdio
 // watch out for linker errors if your environment doesn't have this call
-int snprintf( char* buffer, std::size_t buf_size, const char* format, ... );
+extern "C" int snprintf( char* buffer, std::size_t buf_size, const char* format, ... );
 #endif
 
 template <class TStreambuf>
-- 
2.43.0


From 6eeeccc3feda8ea310bae9643c9049ccecd4eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:41 +0000
Subject: [PATCH 35/52] fix: streambufs: respect bounds, report truthful
 counts, deliver every accepted character once

---
 src/estd/internal/impl/streambuf.h        |  2 +-
 src/estd/internal/impl/streambuf/bipbuf.h | 69 ++++++++++++++-------
 src/estd/internal/impl/streambuf/buffer.h | 25 ++++++--
 src/estd/internal/impl/streambuf/span.h   | 74 ++++++++++++++++-------
 src/estd/internal/impl/streambuf/string.h | 53 ++++++++--------
 src/estd/istream.h                        |  4 +-
 src/estd/port/posix/streambuf.cpp         |  5 ++
 src/estd/port/posix/streambuf.h           |  9 ++-
 src/estd/streambuf.h                      | 19 +++---
 9 files changed, 169 insertions(+), 91 deletions(-)

diff --git a/src/estd/internal/impl/streambuf.h b/src/estd/internal/impl/streambuf.h
index 30662a2..923ca1f 100644
--- a/src/estd/internal/impl/streambuf.h
+++ b/src/estd/internal/impl/streambuf.h
@@ -76,7 +76,7 @@ protected:
 
 public:
     // DEBT: Not well thought out, just getting things compiling
-    int_type sputc(char_type ch) { return overflow(ch); }
+    int_type sputc(char_type ch) { return overflow(traits_type::to_int_type(ch)); }
 };
 
 }}}
diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 60807bd..03b40df 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -47,19 +47,23 @@ protected:
 
     void pbump(int count)
     {
-        buf_.offer_end(count);
+        buf_.offer_end(count * sizeof(char_type));
     }
 
     int sync()
     {
         // DEBT: A lot of tuning opportunity here
         // used() also counts the wrapped region, which is not contiguous with the first one
-        const bipbuf_t* const native = buf_.native();
-        const unsigned sz = native->a_end - native->a_start;
-        auto b = (char_type*)buf_.peek(sz);
-        unsigned written = base_type::rdbuf().sputn(b, sz);
-        if(written == 0) return -1;
-        buf_.poll(written);
+        // at most two passes, one per contiguous region
+        while(buf_.used() > 0)
+        {
+            const bipbuf_t* const native = buf_.native();
+            const unsigned sz = native->a_end - native->a_start;
+            auto b = (const char_type*)buf_.peek(sz);
+            const streamsize written = base_type::rdbuf().sputn(b, sz / sizeof(char_type));
+            if(written > 0) buf_.poll(written * sizeof(char_type));
+            if(written < streamsize(sz / sizeof(char_type))) return -1;
+        }
         return 0;
     }
 
@@ -70,7 +74,7 @@ public:
 
     int_type sputc(char_type ch)
     {
-        return overflow(ch);
+        return overflow(traits_type::to_int_type(ch));
     }
 
 protected:
@@ -99,8 +103,16 @@ protected:
     int_type overflow(int_type ch)
     {
         if(xout_avail() == 0)
+        {
             sync();
 
+            // a partial sync is good enough, as long as it made room
+            if(xout_avail() == 0) return traits_type::eof();
+        }
+
+        if(traits_type::eq_int_type(ch, traits_type::eof()))
+            return traits_type::not_eof(ch);
+
         *pptr() = traits_type::to_char_type(ch);
         pbump(1);
 
@@ -159,18 +171,26 @@ protected:
 
         auto buffer = (char_type*) buf_.offer_begin();
 
-        const streamsize actually_read = base_type::rdbuf().sgetn(buffer, unused);
+        const streamsize actually_read = base_type::rdbuf().sgetn(buffer, unused / sizeof(char_type));
 
-        if(actually_read == 0)  return -1;
+        if(actually_read <= 0)  return -1;
 
-        buf_.offer_end(actually_read);
+        buf_.offer_end(actually_read * sizeof(char_type));
 
         return 0;
     }
 
     constexpr streamsize xin_avail() const
     {
-        return buf_.used();
+        return buf_.used() / sizeof(char_type);
+    }
+
+    // Portion of xin_avail which directly follows gptr
+    unsigned contiguous() const
+    {
+        const bipbuf_t* const native = const_cast<in_buffered_bipbuf*>(this)->buf_.native();
+
+        return (native->a_end - native->a_start) / sizeof(char_type);
     }
 
     // DEBT: This needs to interrogate wrapped Streambuf
@@ -181,12 +201,19 @@ protected:
 
     streamsize xsgetn(nonconst_char_type* s, streamsize count)
     {
-        if(count > xin_avail())
-            count = xin_avail();
+        streamsize copied = 0;
 
-        copy_n(buf_.peek(), count, s);
+        while(copied < count && (xin_avail() > 0 || sync() == 0))
+        {
+            const streamsize avail = contiguous();
+            const streamsize n = count - copied < avail ? count - copied : avail;
 
-        return count;
+            copy_n(gptr(), n, s + copied);
+            gbump(n);
+            copied += n;
+        }
+
+        return copied;
     }
 
     ESTD_CPP_FORWARDING_CTOR(in_buffered_bipbuf)
@@ -195,12 +222,10 @@ protected:
     {
         if(xin_avail() == 0)
         {
-            // DEBT: Return proper eof
-            if(sync() == -1)    return -1;
+            if(sync() == -1)    return traits_type::eof();
         }
 
-        // DEBT: Wrap with traits
-        return xsgetc();
+        return traits_type::to_int_type(xsgetc());
     }
 
     int_type uflow()
@@ -218,7 +243,7 @@ protected:
 
     void gbump(int count)
     {
-        buf_.poll(count);
+        buf_.poll(count * sizeof(char_type));
     }
 
     char_type xsgetc() const { return *gptr(); }
@@ -232,7 +257,7 @@ public:
 
     const char_type* egptr() const
     {
-        return gptr() + buf_.used();
+        return gptr() + contiguous();
     }
 };
 
diff --git a/src/estd/internal/impl/streambuf/buffer.h b/src/estd/internal/impl/streambuf/buffer.h
index d88b72e..4109719 100644
--- a/src/estd/internal/impl/streambuf/buffer.h
+++ b/src/estd/internal/impl/streambuf/buffer.h
@@ -44,9 +44,17 @@ class out_buffered_stringbuf : public wrapped_streambuf_base<Streambuf>
         // DEBT: We can expect potential spinlock type behavior,
         // which may be needed due to the simplicity of string buffering
         // (may need a queue or bipbuffer to really overcome that)
-        base_type::rdbuf().sputn(buf_.data(), buf_.size());
+        const streamsize sz = buf_.size();
+        const streamsize written = base_type::rdbuf().sputn(buf_.data(), sz);
+
+        if(written < sz)
+        {
+            // hold on to what didn't make it
+            if(written > 0) buf_.erase(0, written);
+            return -1;
+        }
+
         buf_.clear();
-        // DEBT: Need to heed output of sputn to truly indicate status
         return 0;
     }
 
@@ -67,10 +75,13 @@ protected:
     {
         if(full())
         {
-            if(ll_sync() != 0)  return traits_type::eof();
+            ll_sync();
+
+            // a partial sync is good enough, as long as it made room
+            if(full())  return traits_type::eof();
         }
 
-        if(traits_type::not_eof(ch))
+        if(!traits_type::eq_int_type(ch, traits_type::eof()))
         {
             buf_ += traits_type::to_char_type(ch);
         }
@@ -84,7 +95,9 @@ protected:
     {
         const estd::streamsize maximum = remaining();
 
-        buf_.append(s, count > maximum ? maximum : count);
+        if(count > maximum) count = maximum;
+
+        if(count > 0) buf_.append(s, count);
 
         // wrapper sputn handles this via 'overflow' - a little clumsy though
         //if(full())
@@ -102,7 +115,7 @@ public:
 
     int_type sputc(char_type ch)
     {
-        return overflow(ch);
+        return overflow(traits_type::to_int_type(ch));
     }
 };
 
diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 1eee046..fa7f221 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -73,12 +73,16 @@ struct out_span_streambuf :
     }
 
     char_type* pptr() const { return pbase() + base_out_type::pos(); }
-    char_type* epptr() const { return pbase() + out().size_bytes(); }
+    char_type* epptr() const { return pbase() + out().size(); }
 
     streamsize xsputn(const char_type* s, streamsize count)
     {
-        // TODO: do proper bounds checking here
-        memcpy(pptr(), s, count);
+        const streamsize remaining = epptr() - pptr();
+
+        if(count > remaining)   count = remaining;
+        if(count <= 0)          return 0;
+
+        memcpy(pptr(), s, count * sizeof(char_type));
         this->pbump(count);
         return count;
     }
@@ -86,7 +90,7 @@ struct out_span_streambuf :
     int_type sputc(char_type ch)
     {
         const pos_type& pos = base_out_type::pos();
-        if(pos >= out().size_bytes())
+        if(pos >= out().size())
             return base_out_type::overflow();
 
         *(pptr()) = ch;
@@ -95,31 +99,27 @@ struct out_span_streambuf :
     }
 
 protected:
-    // NOTE: currently undefined if pos ends up outside boundaries
+    // NOTE: fails (-1) and leaves pos alone if it would end up outside boundaries
     // NOTE: consider changing dir and which to template non-type parameters/compile
     // time constants
     pos_type seekoff(off_type off, ios_base::seekdir way, ios_base::openmode which)
     {
         // openmode MUST include 'out' in this instance, otherwise error or ignore
-        if(!(which & ios_base::out)) return -1;
+        if(!(which & ios_base::out)) return pos_type(off_type(-1));
 
-        switch(way)
-        {
-            case ios_base::cur:
-                this->pbump(off);
-                break;
+        const off_type length = out().size();
 
-            case ios_base::beg:
-                base_out_type::seekpos(off);
-                break;
+        if(way == ios_base::cur)        off += base_out_type::pos();
+        else if(way == ios_base::end)   off += length;
 
-            case ios_base::end:
-                // UNTESTED
-                base_out_type::seekpos(out().size_bytes() + off);
-                break;
-        }
+        if(off < 0 || off > length)     return pos_type(off_type(-1));
 
-        return base_out_type::pos();
+        return base_out_type::seekpos(off);
+    }
+
+    pos_type seekpos(const pos_type& p, ios_base::openmode which)
+    {
+        return seekoff(off_type(p), ios_base::beg, which);
     }
 
 public:
@@ -135,17 +135,17 @@ public:
 // be implemented in a derived class
 // DEBT: Refactor this to take CharTraits directly
 template <class TChar,
-        class TCharTraits =  estd::char_traits<TChar>,
+        class TCharTraits =  estd::char_traits<typename remove_const<TChar>::type>,
         std::size_t Extent = detail::dynamic_extent::value,
         class TBase = estd::experimental::instance_provider<estd::span<TChar, Extent> > >
 struct in_span_streambuf :
-        in_pos_streambuf_base<TCharTraits>,
+        in_pos_streambuf_base<TCharTraits, typename TBase::value_type::size_type>,
 
         streambuf_gptr_tag,
 
         TBase
 {
-    typedef in_pos_streambuf_base<TCharTraits> base_pos_type;
+    typedef in_pos_streambuf_base<TCharTraits, typename TBase::value_type::size_type> base_pos_type;
     typedef TBase base_type;
 
     using typename base_pos_type::traits_type;
@@ -193,6 +193,34 @@ protected:
     }
 
     ESTD_CPP_CONSTEXPR_RET const char_type& xsgetc() const { return *gptr(); }
+
+    typename base_pos_type::traits_type::pos_type seekoff(typename base_pos_type::off_type off,
+        ios_base::seekdir way,
+        ios_base::openmode which = ios_base::in | ios_base::out)
+    {
+        typedef typename base_pos_type::traits_type::pos_type std_pos_type;
+        typedef typename base_pos_type::off_type off_type;
+
+        if(!(which & ios_base::in)) return std_pos_type(off_type(-1));
+
+        const off_type length = in().size();
+
+        if(way == ios_base::cur)        off += pos();
+        else if(way == ios_base::end)   off += length;
+
+        if(off < 0 || off > length)     return std_pos_type(off_type(-1));
+
+        base_pos_type::seekpos(off);
+        return std_pos_type(off);
+    }
+
+    typename base_pos_type::traits_type::pos_type seekpos(
+        typename base_pos_type::traits_type::pos_type p, ios_base::openmode which)
+    {
+        typedef typename base_pos_type::off_type off_type;
+
+        return seekoff(off_type(p), ios_base::beg, which);
+    }
 };
 
 
diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index 64eef37..efd7dad 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -34,16 +34,20 @@ struct out_stringbuf : stringbuf_base<String>
 
     streamsize xsputn(const char_type* s, streamsize count)
     {
-        // FIX: normal strings throw an exception if we exceed internal
-        // buffer size, but here we should instead have an optional error
-        // facility
-        str_.append(s, count);
+        // normal strings assert/throw if we exceed internal buffer size, here
+        // we accept only what fits and report that back
+        const size_t remaining = str_.max_size() - str_.size();
+
+        if(size_t(count) > remaining) count = streamsize(remaining);
+
+        if(count > 0) str_.append(s, count);
         return count;
     }
 
     int_type sputc(char_type ch)
     {
-        str_ += ch;
+        if(xsputn(&ch, 1) == 0) return traits_type::eof();
+
         return traits_type::to_int_type(ch);
     }
 
@@ -73,13 +77,13 @@ struct out_stringbuf : stringbuf_base<String>
 template <class String>
 struct basic_stringbuf :
         out_stringbuf<String>,
-        in_pos_streambuf_base<typename remove_reference_t<String>::traits_type>,
+        in_pos_streambuf_base<typename remove_reference_t<String>::traits_type, size_t>,
 
         streambuf_sungetc_tag
 {
     typedef out_stringbuf<String> base_type;
     using char_traits = typename remove_reference_t<String>::traits_type;
-    typedef in_pos_streambuf_base<char_traits> in_base_type;
+    typedef in_pos_streambuf_base<char_traits, size_t> in_base_type;
     typedef typename base_type::traits_type traits_type;
     typedef typename base_type::char_type char_type;
     typedef typename traits_type::int_type int_type;
@@ -125,28 +129,25 @@ struct basic_stringbuf :
     //char_type* gptr() { return base_type::_str.data() + in_base_type::pos(); }
 
 
-    // UNTESTED
     pos_type seekoff(off_type off, ios_base::seekdir dir, ios_base::openmode which)
     {
-        switch(dir)
-        {
-            case ios_base::beg:
-                if(which & ios_base::in)
-                    return in_base_type::seekpos(off);
-                break;
-
-            case ios_base::cur:
-                if(which & ios_base::in)
-                    in_base_type::gbump(off);
-                break;
-
-            case ios_base::end:
-                if(which & ios_base::in)
-                    return in_base_type::seekpos(this->str().length() + off);
-                break;
-        }
+        if(!(which & ios_base::in))
+            return base_type::seekoff(off, dir, which);
+
+        const off_type length = this->str_.length();
 
-        return pos_type(off_type(-1));
+        if(dir == ios_base::cur)        off += pos();
+        else if(dir == ios_base::end)   off += length;
+
+        if(off < 0 || off > length)     return pos_type(off_type(-1));
+
+        in_base_type::seekpos(off);
+        return pos_type(off);
+    }
+
+    pos_type seekpos(pos_type p, ios_base::openmode which)
+    {
+        return seekoff(off_type(p), ios_base::beg, which);
     }
 
     int_type sungetc()
diff --git a/src/estd/istream.h b/src/estd/istream.h
index 007f613..92c02f5 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -170,12 +170,12 @@ detail::basic_istream<Streambuf, Base>& operator >>(
 // live in estd itself rather than estd::detail
 namespace detail {
 
-template <class Char, class CharTraits = estd::char_traits<Char>>
+template <class Char, class CharTraits = estd::char_traits<typename remove_const<Char>::type>>
 using basic_ispanbuf = estd::internal::streambuf<estd::internal::impl::in_span_streambuf<Char, CharTraits> >;
 
 using ispanbuf = basic_ispanbuf<char>;
 
-template <class Char, class CharTraits = estd::char_traits<Char>>
+template <class Char, class CharTraits = estd::char_traits<typename remove_const<Char>::type>>
 using basic_ispanstream = estd::detail::basic_istream<basic_ispanbuf<Char>>;
 
 using ispanstream = basic_ispanstream<char>;
diff --git a/src/estd/port/posix/streambuf.cpp b/src/estd/port/posix/streambuf.cpp
index 524e5f7..9cd1880 100644
--- a/src/estd/port/posix/streambuf.cpp
+++ b/src/estd/port/posix/streambuf.cpp
@@ -43,6 +43,11 @@ int posix_streambuf::sgetc()
     return c;
 }
 
+int posix_streambuf::sync()
+{
+    return fflush(&this->stream) == 0 ? 0 : -1;
+}
+
 } } }
 
 #endif
diff --git a/src/estd/port/posix/streambuf.h b/src/estd/port/posix/streambuf.h
index 070baf2..f7e900d 100644
--- a/src/estd/port/posix/streambuf.h
+++ b/src/estd/port/posix/streambuf.h
@@ -78,7 +78,8 @@ struct posix_fd_streambuf : streambuf_base<Traits>
 };
 
 struct posix_streambuf :
-        native_streambuf_base<char, posix_stream_t, ::std::char_traits<char> >
+        native_streambuf_base<char, posix_stream_t, ::std::char_traits<char> >,
+        streambuf_sbumpc_tag
 {
     typedef native_streambuf_base<char, posix_stream_t, ::std::char_traits<char> > base_type;
     typedef base_type::char_type char_type;
@@ -90,6 +91,12 @@ struct posix_streambuf :
     int sgetc();
     int sbumpc();
     int sputc(char);
+    int sync();
+
+    // estd::streambuf consults this when no characters are known to be available, which here is always
+    int underflow() { return sgetc(); }
+    // ... and therefore never gets as far as this
+    char_type xsgetc() const { return char_type(); }
 
     // TODO: Might want this one day, but it will mandate carring that #include <stdio.h> around
     // though at the moment we have to do that anyway due to ::FILE
diff --git a/src/estd/streambuf.h b/src/estd/streambuf.h
index 1ef327d..3c1ce9d 100644
--- a/src/estd/streambuf.h
+++ b/src/estd/streambuf.h
@@ -131,19 +131,18 @@ public:
 
         // TODO: Consider a non-function-present flavor of optimizing to know if
         // overflow is even implemented so as to optimize this portion
-        if(written < count)
+        while(written < count)
         {
-            s += written;
+            if(this->overflow(traits_type::to_int_type(s[written])) == traits_type::eof())
+                break;
 
-            if(this->overflow(*s) != traits_type::eof())
-            {
-                // getting here means one more character was placed into put area
-                count -= ++written;
+            // getting here means one more character was placed into put area
+            ++written;
 
-                // a successful overflow indicates more put area
-                // is available, so give it a shot
-                written += this->xsputn(s + 1, count);
-            }
+            // a successful overflow indicates more put area
+            // is available, so give it a shot
+            if(written < count)
+                written += this->xsputn(s + written, count - written);
         }
 
         return written;
-- 
2.43.0


From d3f8531f4f8f6267b13a74075d2ed02fd616ed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:33 +0000
Subject: [PATCH 36/52] fix: istream: truthful gcount and states, bounded
 getline and string extraction, working readsome/seekg

---
 src/estd/internal/impl/streambuf/string.h  |   2 +-
 src/estd/internal/istream.h                | 113 +++++++++++----------
 src/estd/internal/istream_runtimearray.hpp |   2 +
 src/estd/istream.h                         |   8 +-
 src/estd/sstream.h                         |   6 +-
 5 files changed, 73 insertions(+), 58 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index efd7dad..098debe 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -97,7 +97,7 @@ struct basic_stringbuf :
     // See in_base_type::pos() for why we use ref here
     const typename in_base_type::index_type& pos() const { return in_base_type::pos(); }
 
-    streamsize xsgetn(char_type* s, streamsize count)
+    streamsize xsgetn(typename remove_const<char_type>::type* s, streamsize count)
     {
         size_type count_copied = base_type::str().copy(s, count, pos());
 
diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index c8d2b42..10172da 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -98,16 +98,16 @@ public:
 public:
     int_type get()
     {
-#if FEATURE_ESTD_IOS_GCOUNT
-        ++_gcount;
-#endif
         int_type c = this->rdbuf()->sbumpc();
 
         if(c == traits_type::eof())
         {
+            gcount(0);
             base_type::setstate(
                 ios_base::failbit | ios_base::eofbit);
         }
+        else
+            gcount(1);
 
         return c;
     }
@@ -118,6 +118,8 @@ public:
 #if FEATURE_ESTD_IOS_GCOUNT
         _gcount = 0;
 #endif
+        this->unsetstate(ios_base::eofbit);
+
         if (this->rdbuf()->sungetc() == traits_type::eof())
             this->setstate(ios_base::badbit);
 
@@ -126,8 +128,13 @@ public:
 
     __istream_type& seekg(off_type off, ios_base::seekdir dir)
     {
-        this->unsetstate(ios_base::failbit);
-        this->rdbuf()->pubseekoff(off, dir, ios_base::in);
+        typedef typename traits_type::pos_type pos_type;
+
+        this->unsetstate(ios_base::failbit | ios_base::eofbit);
+
+        if (this->rdbuf()->pubseekoff(off, dir, ios_base::in) == pos_type(off_type(-1)))
+            this->setstate(ios_base::failbit);
+
         return *this;
     }
 
@@ -140,12 +147,18 @@ public:
         // if count > number of available bytes
         // then read only available bytes
         // otherwise read all of count
-        streamsize m = estd::min(count, rdbuf.in_avail());
+        const streamsize avail = rdbuf.in_avail();
+        streamsize m = 0;
 
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = m;
-#endif
-        return rdbuf.sgetn(s, m);
+        // negative means definitely no more characters
+        if (avail < 0)
+            this->setstate(ios_base::eofbit);
+        else
+            m = rdbuf.sgetn(s, estd::min(count, avail));
+
+        gcount(m);
+
+        return m;
     }
 
     __istream_type& read(char_type* s, streamsize n)
@@ -153,13 +166,12 @@ public:
         // TODO: optimization point.  We want to do something
         // so that we don't inline this (and other read/write operations like it)
         // all over the place
-        if (this->rdbuf()->sgetn(s, n) != n)
-            // TODO: Consider setting _gcount here to what *was* returned
-            this->setstate(base_type::eofbit);
+        const streamsize m = this->rdbuf()->sgetn(s, n);
 
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = n;
-#endif
+        if (m != n)
+            this->setstate(base_type::failbit | base_type::eofbit);
+
+        gcount(m);
 
         return *this;
     }
@@ -168,34 +180,44 @@ public:
     __istream_type& getline(char_type* s, streamsize count, char_type delim = '\n')
     {
         streambuf_type* stream = this->rdbuf();
-
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = 0;
-#endif
+        streamsize extracted = 0;
 
         for (;;)
         {
-            int_type c = stream->sbumpc();
+            const int_type c = stream->sgetc();
 
-            if (traits_type::eq(c, traits_type::eof()))
+            if (traits_type::eq_int_type(c, traits_type::eof()))
             {
                 this->setstate(base_type::eofbit);
+
+                if (extracted == 0) this->setstate(base_type::failbit);
                 break;
             }
 
-            if (!count-- || traits_type::eq(c, delim))
+            // delimiter is extracted, though not stored
+            if (traits_type::eq(traits_type::to_char_type(c), delim))
+            {
+                stream->sbumpc();
+                ++extracted;
+                break;
+            }
+
+            // always leave room for null termination
+            if (count <= 1)
             {
                 this->setstate(base_type::failbit);
                 break;
             }
 
-            *s++ = c;
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
+            stream->sbumpc();
+            ++extracted;
+            --count;
+            *s++ = traits_type::to_char_type(c);
         }
 
-        *s = 0;
+        if (count > 0) *s = 0;
+
+        gcount(extracted);
 
         return *this;
     }
@@ -253,44 +275,33 @@ public:
     // delim test is disabled if delim is default value, which would be EOF
     basic_istream& ignore(streamsize count = 1)
     {
-        while (count--)
-        {
-            int_type ch = get();
-
-            if (ch == traits_type::eof())
-            {
-                this->setstate(ios_base::eofbit);
-                return *this;
-            }
-
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
-        }
-        return *this;
+        return ignore(count, traits_type::eof());
     }
 
     // http://en.cppreference.com/w/cpp/io/basic_istream/ignore
     basic_istream& ignore(streamsize count, const int_type delim)
     {
-        // "This [delimiter] test is disabled if delim is Traits::eof()"
-        if (delim == traits_type::eof()) return ignore(count);
+        streamsize extracted = 0;
 
-        while (count--)
+        while (extracted < count)
         {
-            int_type ch = get();
+            const int_type ch = this->rdbuf()->sbumpc();
 
             if (ch == traits_type::eof())
             {
                 this->setstate(ios_base::eofbit);
                 break;
             }
-            else if (ch == delim) break;
 
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
+            ++extracted;
+
+            // "This [delimiter] test is disabled if delim is Traits::eof()"
+            // which is innately so, since ch is not eof at this point
+            if (ch == delim) break;
         }
+
+        gcount(extracted);
+
         return *this;
     }
 
diff --git a/src/estd/internal/istream_runtimearray.hpp b/src/estd/internal/istream_runtimearray.hpp
index a732392..4770d95 100644
--- a/src/estd/internal/istream_runtimearray.hpp
+++ b/src/estd/internal/istream_runtimearray.hpp
@@ -52,6 +52,8 @@ void do_input(detail::basic_istream<TStreambuf, TBase>& in,
             break;
         }
         else if(isspace(traits_type::to_char_type(ch), loc)) break;
+        // "str.max_size() characters are stored"
+        else if(value.size() == value.max_size()) break;
 
         // NOTE: += is defined and should have worked
         value.push_back(traits_type::to_char_type(ch));
diff --git a/src/estd/istream.h b/src/estd/istream.h
index 92c02f5..e6cdc18 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -91,14 +91,16 @@ inline detail::basic_istream<TStreambuf, TBase>& ws(
     detail::basic_istream<TStreambuf, TBase>& __is)
 {
     typedef typename detail::basic_istream<TStreambuf>::locale_type locale_type;
+    typedef typename detail::basic_istream<TStreambuf, TBase>::traits_type traits_type;
 
     locale_type loc = __is.getloc();
 
     // isspace will automatically fall out if it's an EOF (or nodata)
     for(;;)
     {
-        int ch = __is.peek();
-        if(isspace((char)ch, loc))
+        const typename traits_type::int_type ch = __is.peek();
+        // comparison weeds out wide characters which only become whitespace by narrowing them
+        if(isspace((char)ch, loc) && traits_type::eq_int_type((char)ch, ch))
         {
             __is.ignore();
         }
@@ -161,7 +163,7 @@ detail::basic_istream<Streambuf, Base>& operator >>(
 
     const typename traits::int_type c = in.get();
 
-    if(traits::not_eof(c))  value = traits::to_char_type(c);
+    if(!traits::eq_int_type(c, traits::eof()))  value = traits::to_char_type(c);
 
     return in;
 }
diff --git a/src/estd/sstream.h b/src/estd/sstream.h
index 41d3c13..697a0e1 100644
--- a/src/estd/sstream.h
+++ b/src/estd/sstream.h
@@ -108,14 +108,14 @@ struct ostringstream : estd::detail::basic_ostream<layer1::basic_stringbuf<char,
 namespace layer2 {
 
 #ifdef __cpp_alias_templates
-template<class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<Char> >
+template<class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<typename remove_const<Char>::type> >
 using basic_stringbuf = detail::streambuf <
     internal::impl::basic_stringbuf<
         layer2::basic_string <Char, N, null_terminated, Traits> > >;
 
 using stringbuf = basic_stringbuf<char>;
 
-template <class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<Char> >
+template <class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<typename remove_const<Char>::type> >
 using basic_istringstream =
     detail::basic_istream<basic_stringbuf<Char, N, null_terminated, Traits>>;
 #endif
@@ -129,7 +129,7 @@ namespace layer3 {
 // other for layer3 ostringstream
 // also - code compiles but is untested
 #ifdef FEATURE_CPP_ALIASTEMPLATE
-template<class Char, bool null_terminated, class Traits = estd::char_traits<Char> >
+template<class Char, bool null_terminated, class Traits = estd::char_traits<typename remove_const<Char>::type> >
 using basic_stringbuf = estd::detail::streambuf <
     estd::internal::impl::basic_stringbuf<
         layer3::basic_string <Char, null_terminated, Traits> > >;
-- 
2.43.0


From 2a3c2d577ab8ccd05066f591f53440c870025158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 37/52] fix: leap years, last day of month, seconds of long
 hh_mm_ss and fractions from std durations

---
 src/estd/internal/chrono/duration.hpp  |  3 ++-
 src/estd/internal/chrono/formatter.hpp | 14 ++++++++------
 src/estd/internal/chrono/units.hpp     |  5 ++++-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/estd/internal/chrono/duration.hpp b/src/estd/internal/chrono/duration.hpp
index acd954b..7ba0a69 100644
--- a/src/estd/internal/chrono/duration.hpp
+++ b/src/estd/internal/chrono/duration.hpp
@@ -50,7 +50,8 @@ constexpr Rep duration<Rep, Period>::convert_from(const std::chrono::duration<Re
     // put into this helper method so that (perhaps) we can specialize/overload
     // to avoid that
     //return d.count() * Period2::num() * Period::den() / (Period2::den() * Period::num());
-    return d.count() * rd::num / rd::den;
+    // common type, so that a floating point Rep keeps fractions of an integral count
+    return typename estd::common_type<Rep, Rep2>::type(d.count()) * rd::num / rd::den;
 }
 #endif
 
diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index 8cc5f08..3fd27aa 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -91,13 +91,14 @@ public:
     {
         switch(month_.value())
         {
-            case 2: return year_.is_leap() ? day(29) : day(28);
+            case 2: return chrono::day(year_.is_leap() ? 29 : 28);
 
-            case 4: return day(30);
-            case 6: return day(30);
-            case 11: return day(30);
+            case 4: return chrono::day(30);
+            case 6: return chrono::day(30);
+            case 9: return chrono::day(30);
+            case 11: return chrono::day(30);
 
-            default:    return day(31);
+            default:    return chrono::day(31);
         }
     }
 
@@ -183,7 +184,8 @@ public:
     inline seconds_type seconds() const NOEXCEPT
     {
         duration_type a = _abs();
-        auto v = a - minutes_type{a};
+        // not minutes_type, which can't hold all minutes of a duration of more than 4 hours
+        auto v = a - duration<rep, chrono::minutes::period>{a};
         return seconds_type{v};
     }
 
diff --git a/src/estd/internal/chrono/units.hpp b/src/estd/internal/chrono/units.hpp
index 4ca044b..e2a70d9 100644
--- a/src/estd/internal/chrono/units.hpp
+++ b/src/estd/internal/chrono/units.hpp
@@ -76,7 +76,10 @@ public:
     static constexpr year min() NOEXCEPT { return year(-32767); }
     static constexpr year max() NOEXCEPT { return year(32767); }
 
-    constexpr bool is_leap() const NOEXCEPT { return value_ % 400 == 0; }
+    constexpr bool is_leap() const NOEXCEPT
+    {
+        return (value_ % 4 == 0 && value_ % 100 != 0) || value_ % 400 == 0;
+    }
 
     // upper end of 16-bit value can never be out of range
     constexpr bool ok() const NOEXCEPT { return *this >= min(); }
-- 
2.43.0


From 4c8efbc967301cb5e7bc7d8a3ae795af55849980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:34 +0000
Subject: [PATCH 38/52] fix: units with an offset convert at the same scale,
 negative fractions keep their sign, giga works for every unit

---
 src/estd/internal/units/base.h    | 2 +-
 src/estd/internal/units/ostream.h | 5 ++++-
 src/estd/internal/units/si.h      | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/units/base.h b/src/estd/internal/units/base.h
index 7f03925..bdc81ae 100644
--- a/src/estd/internal/units/base.h
+++ b/src/estd/internal/units/base.h
@@ -183,7 +183,7 @@ public:
     // Converting only precision or F modified
     template <class Rep2, ESTD_CPP_CONCEPT(Adder<Rep2>) F2>
     constexpr unit_base(const unit_base<Rep2, Period, Tag, F2>& s) :    // NOLINT
-        rep_{s.count()}
+        rep_{typename F::reversal{}(s.count())}
     {
     }
 
diff --git a/src/estd/internal/units/ostream.h b/src/estd/internal/units/ostream.h
index 2fdf30e..be2950a 100644
--- a/src/estd/internal/units/ostream.h
+++ b/src/estd/internal/units/ostream.h
@@ -20,7 +20,10 @@ estd::detail::basic_ostream<TStreambuf, TBase>& operator <<(
     if(v_dec < 0)   v_dec = -v_dec;
 
     // DEBT: I think ostream is supposed to auto reset to dec, but isn't
-    out << estd::dec << v_;
+    out << estd::dec;
+    // integer portion of 0 has no sign of its own
+    if(v_ == 0 && v < 0 && v_dec != 0) out << '-';
+    out << v_;
     out << '.';
     if(v_dec < 10) out << '0';
     out << v_dec;
diff --git a/src/estd/internal/units/si.h b/src/estd/internal/units/si.h
index 0dcdd30..a3c31ca 100644
--- a/src/estd/internal/units/si.h
+++ b/src/estd/internal/units/si.h
@@ -36,8 +36,8 @@ struct traits<estd::mega, Tag>
     static constexpr const char* abbrev() { return "M"; }
 };
 
-template <>
-struct traits<estd::giga>
+template <class Tag>
+struct traits<estd::giga, Tag>
 {
     static constexpr const char* name() { return "giga"; }
     static constexpr const char* abbrev() { return "G"; }
-- 
2.43.0


From 0bb892da8694d1713e019f99f766536319c3f7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:04 +0000
Subject: [PATCH 39/52] fix: traits of unions, enums, unsigned and variadic
 functions, octal length, flags |=, byteswap of int64, monostate !=

---
 src/estd/bit.h                              |  6 +++++
 src/estd/flags.h                            |  2 +-
 src/estd/internal/limits/traits.h           |  2 +-
 src/estd/internal/llvm_type_traits.h        | 16 +----------
 src/estd/internal/raw/variant.h             |  2 +-
 src/estd/internal/type_traits/is_function.h | 30 +++++++++------------
 src/estd/type_traits.h                      |  5 ++--
 7 files changed, 25 insertions(+), 38 deletions(-)

diff --git a/src/estd/bit.h b/src/estd/bit.h
index a432108..531f9e4 100644
--- a/src/estd/bit.h
+++ b/src/estd/bit.h
@@ -84,6 +84,12 @@ byteswap(uint64_t n) noexcept
     return __builtin_bswap64(n);
 }
 
+constexpr int64_t
+byteswap(int64_t n) noexcept
+{
+    return __builtin_bswap64(n);
+}
+
 #endif
 
 #endif // not xor (gcc)
diff --git a/src/estd/flags.h b/src/estd/flags.h
index 5234911..bcffe86 100644
--- a/src/estd/flags.h
+++ b/src/estd/flags.h
@@ -36,7 +36,7 @@ public:
 
     ESTD_CPP_CONSTEXPR(14) flags& operator|=(const flags& v)
     {
-        value_ |= v;
+        value_ = value_type(int_type(value_) | int_type(v.value_));
         return *this;
     }
 
diff --git a/src/estd/internal/limits/traits.h b/src/estd/internal/limits/traits.h
index 4153773..28c4591 100644
--- a/src/estd/internal/limits/traits.h
+++ b/src/estd/internal/limits/traits.h
@@ -35,7 +35,7 @@ struct uint_strlen<16, bits> :
 // DEBT: calculation approximate, higher the bitcount the more wasted space
 template <unsigned bits>
 struct uint_strlen<8, bits> :
-    estd::integral_constant<unsigned, (bits + 1) / 3> {};
+    estd::integral_constant<unsigned, (bits + 2) / 3> {};
 
 // Not the same as boost's version
 template <class T, bool is_signed_>
diff --git a/src/estd/internal/llvm_type_traits.h b/src/estd/internal/llvm_type_traits.h
index 8153aa5..d30d1a7 100644
--- a/src/estd/internal/llvm_type_traits.h
+++ b/src/estd/internal/llvm_type_traits.h
@@ -125,22 +125,8 @@ typedef
     > > > > > __signed_types;
 }
 
-// original also had a clang-specific check to use an inbuild __is_enum
-// but we don't follow suit, at least not for now
 template <class _Tp> struct is_enum
-    : public integral_constant<bool, !is_void<_Tp>::value             &&
-                                     !is_integral<_Tp>::value         &&
-                                     !is_floating_point<_Tp>::value   &&
-                                     !is_array<_Tp>::value            &&
-                                     !is_pointer<_Tp>::value          &&
-                                     !is_reference<_Tp>::value        &&
-                                     //!is_member_pointer<_Tp>::value   &&
-                                     //!is_union<_Tp>::value            &&
-#ifdef FEATURE_CPP_VARIADIC
-                                    !is_function<_Tp>::value         &&
-#endif
-                                     !is_class<_Tp>::value
-        > {};
+    : public integral_constant<bool, __is_enum(_Tp)> {};
 
 namespace internal {
 
diff --git a/src/estd/internal/raw/variant.h b/src/estd/internal/raw/variant.h
index cd56269..51706af 100644
--- a/src/estd/internal/raw/variant.h
+++ b/src/estd/internal/raw/variant.h
@@ -8,7 +8,7 @@ namespace estd {
 struct monostate {};
 
 constexpr bool operator==(monostate, monostate) NOEXCEPT { return true; }
-constexpr bool operator!=(monostate, monostate) NOEXCEPT { return true; }
+constexpr bool operator!=(monostate, monostate) NOEXCEPT { return false; }
 
 template <>
 struct hash<monostate>
diff --git a/src/estd/internal/type_traits/is_function.h b/src/estd/internal/type_traits/is_function.h
index 5e2003c..82b706c 100644
--- a/src/estd/internal/type_traits/is_function.h
+++ b/src/estd/internal/type_traits/is_function.h
@@ -28,17 +28,15 @@ struct is_function<Ret(Args...) volatile> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) const volatile> : true_type {};
 
-#ifdef FEATURE_CPP_AMBIGUOUS_ELLIPSES
 // specialization for variadic functions such as printf
 template<class Ret, class... Args>
-struct is_function<Ret(Args......)> : true_type {};
+struct is_function<Ret(Args..., ...)> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const> : true_type {};
+struct is_function<Ret(Args..., ...) const> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) volatile> : true_type {};
+struct is_function<Ret(Args..., ...) volatile> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const volatile> : true_type {};
-#endif
+struct is_function<Ret(Args..., ...) const volatile> : true_type {};
 
 // specialization for function types that have ref-qualifiers
 template<class Ret, class... Args>
@@ -49,16 +47,14 @@ template<class Ret, class... Args>
 struct is_function<Ret(Args...) volatile &> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) const volatile &> : true_type {};
-#ifdef FEATURE_CPP_AMBIGUOUS_ELLIPSES
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) &> : true_type {};
+struct is_function<Ret(Args..., ...) &> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const &> : true_type {};
+struct is_function<Ret(Args..., ...) const &> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) volatile &> : true_type {};
+struct is_function<Ret(Args..., ...) volatile &> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const volatile &> : true_type {};
-#endif
+struct is_function<Ret(Args..., ...) const volatile &> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) &&> : true_type {};
 template<class Ret, class... Args>
@@ -67,16 +63,14 @@ template<class Ret, class... Args>
 struct is_function<Ret(Args...) volatile &&> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) const volatile &&> : true_type {};
-#ifdef FEATURE_CPP_AMBIGUOUS_ELLIPSES
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) &&> : true_type {};
+struct is_function<Ret(Args..., ...) &&> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const &&> : true_type {};
+struct is_function<Ret(Args..., ...) const &&> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) volatile &&> : true_type {};
+struct is_function<Ret(Args..., ...) volatile &&> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const volatile &&> : true_type {};
-#endif
+struct is_function<Ret(Args..., ...) const volatile &&> : true_type {};
 
 // specializations for noexcept versions of all the above (C++17 and later)
 
diff --git a/src/estd/type_traits.h b/src/estd/type_traits.h
index a6785ca..78479d3 100644
--- a/src/estd/type_traits.h
+++ b/src/estd/type_traits.h
@@ -16,7 +16,8 @@ template <class T> char is_class_test(int T::*);
 struct two { char c[2]; };
 template <class T> two is_class_test(...);
 
-template <class _Tp> struct __libcpp_union : public false_type {};
+// No library-only way exists to tell a union from a class, all supported toolchains offer this
+template <class _Tp> struct __libcpp_union : integral_constant<bool, __is_union(_Tp)> {};
 
 }
 
@@ -49,7 +50,7 @@ template<typename T>
 struct is_signed : internal::is_signed<T>::type {};
 
 template<typename T>
-struct is_unsigned : bool_constant<!is_signed<T>::value> {};
+struct is_unsigned : bool_constant<is_arithmetic<T>::value && !is_signed<T>::value> {};
 
 template< class T > struct is_pointer : internal::___is_pointer<typename remove_cv<T>::type> {};
 
-- 
2.43.0


From 6cbce8bb0afe500521e40580b54bbb6a27a7bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:43 +0000
Subject: [PATCH 40/52] fix: unique_lock releases what it owns, tracks and
 transfers ownership

---
 src/estd/mutex.h | 84 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 68 insertions(+), 16 deletions(-)

diff --git a/src/estd/mutex.h b/src/estd/mutex.h
index bc1be48..beac9a0 100644
--- a/src/estd/mutex.h
+++ b/src/estd/mutex.h
@@ -1,13 +1,12 @@
 #pragma once
 
+#include "internal/platform.h"
+#include "port/mutex.h"
+
 #ifdef FEATURE_CPP_VARIADIC
 // FIX: Resolve name collision with other FEATURE_ESTD_CHRONO
 // this one guards against compilation against pre c++11 scenarios
 #define FEATURE_ESTD_CHRONO2
-#endif
-
-#include "port/mutex.h"
-#ifdef FEATURE_CPP_VARIADIC
 #include "chrono.h"
 #endif
 #include "internal/value_evaporator.h"
@@ -50,52 +49,105 @@ class unique_lock : protected TBase
 {
     typedef TBase base_type;
 
+    bool owned_;
+
 public:
     typedef TMutex mutex_type;
 
     mutex_type* mutex() const { return base_type::value(); }
 
+    bool owns_lock() const { return owned_; }
+
+    EXPLICIT operator bool() const { return owned_; }
+
     mutex_type* release()
     {
         mutex_type* temp = mutex();
         base_type::value(NULLPTR);
+        owned_ = false;
         return temp;
     }
 
-    void lock() { mutex()->lock(); }
+    void lock()
+    {
+        mutex()->lock();
+        owned_ = true;
+    }
+
+    bool try_lock()
+    {
+        owned_ = mutex()->try_lock();
+        return owned_;
+    }
 
-    void unlock() { mutex()->unlock(); }
+    void unlock()
+    {
+        mutex()->unlock();
+        owned_ = false;
+    }
 
 #ifdef FEATURE_ESTD_CHRONO2
     template< class Rep, class Period >
     bool try_lock_for( const estd::chrono::duration<Rep,Period>& timeout_duration )
     {
-        return mutex()->try_lock_for(timeout_duration);
+        owned_ = mutex()->try_lock_for(timeout_duration);
+        return owned_;
     }
 #endif
 
-    unique_lock() : base_type(NULLPTR) {}
+    unique_lock() : base_type(NULLPTR), owned_(false) {}
 
-    explicit unique_lock(mutex_type& m) : base_type(&m)
+    explicit unique_lock(mutex_type& m) : base_type(&m), owned_(false)
     {
-        m.lock();
+        lock();
     }
 
-    unique_lock(mutex_type& m, defer_lock_t) : base_type(&m) {}
-    unique_lock(mutex_type& m, adopt_lock_t) : base_type(&m) {}
+    unique_lock(mutex_type& m, defer_lock_t) : base_type(&m), owned_(false) {}
+    unique_lock(mutex_type& m, adopt_lock_t) : base_type(&m), owned_(true) {}
 
-    unique_lock( mutex_type& m, try_to_lock_t) : base_type(&m)
+    unique_lock( mutex_type& m, try_to_lock_t) : base_type(&m), owned_(false)
     {
-        m.try_lock();
+        try_lock();
     }
 
 #ifdef FEATURE_ESTD_CHRONO2
     template< class Rep, class Period >
     unique_lock( mutex_type& m, 
              const estd::chrono::duration<Rep,Period>& timeout_duration ) :
-            base_type(&m)
+            base_type(&m), owned_(false)
     {
-        m.try_lock_for(timeout_duration);
+        try_lock_for(timeout_duration);
+    }
+#endif
+
+    ~unique_lock()
+    {
+        if(owned_) mutex()->unlock();
+    }
+
+#ifdef FEATURE_CPP_DELETE_CTOR
+    unique_lock(const unique_lock&) = delete;
+    unique_lock& operator=(const unique_lock&) = delete;
+#endif
+
+#ifdef FEATURE_CPP_MOVESEMANTIC
+    unique_lock(unique_lock&& move_from) :
+        base_type(move_from.mutex()),
+        owned_(move_from.owned_)
+    {
+        move_from.release();
+    }
+
+    unique_lock& operator=(unique_lock&& move_from)
+    {
+        if(owned_) unlock();
+
+        const bool owned = move_from.owned_;
+
+        base_type::value(move_from.release());
+        owned_ = owned;
+
+        return *this;
     }
 #endif
 };
-- 
2.43.0


From 8ea5589dde8948a9663f0bc1b1656817d871a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:50 +0000
Subject: [PATCH 41/52] fix: pools give blocks back when construction throws,
 failed reallocation keeps the block, descriptors by reference, v2 pool and
 virtual memory bookkeeping

---
 src/estd/allocators/handle_desc.h    | 11 +++--
 src/estd/exp/memory/memory_pool.h    |  2 +-
 src/estd/exp/memory/memory_pool2.h   | 64 +++++++++++++++++++---------
 src/estd/internal/impl/handle_desc.h | 11 +++--
 src/estd/internal/memory/v1/pool.h   | 21 ++++++++-
 5 files changed, 80 insertions(+), 29 deletions(-)

diff --git a/src/estd/allocators/handle_desc.h b/src/estd/allocators/handle_desc.h
index 792866d..693488b 100644
--- a/src/estd/allocators/handle_desc.h
+++ b/src/estd/allocators/handle_desc.h
@@ -74,14 +74,19 @@ public:
 
     bool allocate(size_type size)   // NOLINT
     {
-        m_size = size;
-        return base_type::allocate(size);
+        const bool allocated = base_type::allocate(size);
+
+        m_size = allocated ? size : 0;
+        return allocated;
     }
 
     bool reallocate(size_type size) // NOLINT
     {
+        // on failure, original block (and its size) remains
+        if(!base_type::reallocate(size)) return false;
+
         m_size = size;
-        return base_type::reallocate(size);
+        return true;
     }
 };
 
diff --git a/src/estd/exp/memory/memory_pool.h b/src/estd/exp/memory/memory_pool.h
index 7e75971..0b9c93d 100644
--- a/src/estd/exp/memory/memory_pool.h
+++ b/src/estd/exp/memory/memory_pool.h
@@ -26,7 +26,7 @@ struct memory_pool_item_traits
     typedef TMemoryPool2 pool_type;
 
     template <class TMemoryPool, class ...TArgs>
-    static void construct(TMemoryPool& pool, T* value, TArgs...args)
+    static void construct(TMemoryPool& pool, T* value, TArgs&&...args)
     {
         // TODO: use allocator_traits
         new (value) T(std::forward<TArgs>(args)...);
diff --git a/src/estd/exp/memory/memory_pool2.h b/src/estd/exp/memory/memory_pool2.h
index d2a6d4c..0c4cc4e 100644
--- a/src/estd/exp/memory/memory_pool2.h
+++ b/src/estd/exp/memory/memory_pool2.h
@@ -90,7 +90,7 @@ public:
         std::size_t count = 0;
 
         // TODO: Make a estd::accumulate
-        for(; i != items.end(); ++i, ++count);
+        for(; i != items.end(); i = i->next, ++count);
 
         return count;
     }
@@ -100,7 +100,9 @@ public:
     // the pool range
     bool within_range(value_type* value)
     {
-        return value >= items.begin() && value < items.end();
+        item* i = reinterpret_cast<item*>(value);
+
+        return i >= items.begin() && i < items.end();
     }
 };
 
@@ -139,7 +141,7 @@ struct virtual_memory
     typedef byte_type* pointer;
     typedef unsigned index_type;
 
-    byte_type storage[N];
+    alignas(void*) byte_type storage[N];
 
     struct handle
     {
@@ -183,7 +185,7 @@ struct virtual_memory
     {
         free_head = new (&storage[0]) item;
         free_head->next = NULLPTR;
-        free_head->chunk_size = N;
+        free_head->chunk_size = N / alignof(item) * alignof(item);
     }
 
     handle* get_free_handle(index_type& index)
@@ -205,9 +207,12 @@ struct virtual_memory
     handle_index allocate(size_type size)
     {
         item* i = free_head,
-            *prev;
+            *prev = NULLPTR;
+
+        if(size > N) return -1;
 
-        // TODO: coerce size to be aligned so that allocations and frees also have aligned size
+        // free chunks are tracked inside themselves, so every chunk stays aligned for that
+        size = (size + alignof(item) - 1) / alignof(item) * alignof(item);
 
         // minimum size is 'item' size so that fragments have enough space to track themselves
         if(size < sizeof(item))
@@ -216,24 +221,38 @@ struct virtual_memory
         while(i != NULLPTR)
         {
             handle_index hi;
-            if(i->chunk_size == size)
+            // a remainder too small to track itself is handed out along with the chunk
+            if(i->chunk_size >= size && i->chunk_size - size < sizeof(item))
             {
-                prev->next = i->next;
-
                 handle* h = get_free_handle(hi);
+
+                if(h == NULLPTR) return -1;
+
+                if(prev == NULLPTR)
+                    free_head = i->next;
+                else
+                    prev->next = i->next;
+
                 h->data = (pointer) i;
-                h->chunk_size = size;
+                h->chunk_size = i->chunk_size;
+
+                mode = maintenance_mode::uninitialized;
 
                 return hi;
             }
             else if(i->chunk_size > size)
             {
                 handle* h = get_free_handle(hi);
+
+                if(h == NULLPTR) return -1;
+
                 h->data = ((pointer) i) + (i->chunk_size - size);
                 h->chunk_size = size;
 
                 i->chunk_size -= size;
 
+                mode = maintenance_mode::uninitialized;
+
                 return hi;
             }
             else
@@ -260,6 +279,9 @@ struct virtual_memory
         h.data = NULLPTR;
 
         free_head = i;
+
+        // any maintenance pass underway knows nothing of this chunk
+        mode = maintenance_mode::uninitialized;
     }
 
     size_type total_free(size_type* node_counter = NULLPTR) const
@@ -305,7 +327,7 @@ struct virtual_memory
         item* i = compact_state.evaluating;
         item* i_prev = compact_state.evaluating_prev;
 
-        if(i->next == NULLPTR) return false;
+        if(i == NULLPTR || i->next == NULLPTR) return false;
 
         // if next free node is positioned before this one
         if(i->next < i)
@@ -329,21 +351,21 @@ struct virtual_memory
             else
                 i_prev->next = i_physical_0;
 
+            // absorbed item is no more, continue with the one which absorbed it
             if(maint_absorb(i_physical_0, i_physical_1))
-                i = i_physical_1;
+                i = i_physical_0;
+            else
+                i_prev = i_physical_0;
+
+            compact_state.evaluating_prev = i_prev;
+            compact_state.evaluating = i;
         }
-        else
+        else if(!maint_absorb(i, i->next))
         {
-            item* i_physical_0 = i;
-            item* i_physical_1 = i->next;
-
-            if(maint_absorb(i_physical_0, i_physical_1))
-                i = i_physical_1;
+            compact_state.evaluating_prev = i;
+            compact_state.evaluating = i->next;
         }
 
-        compact_state.evaluating_prev = i;
-        compact_state.evaluating = i->next;
-
         return true;
     }
 
diff --git a/src/estd/internal/impl/handle_desc.h b/src/estd/internal/impl/handle_desc.h
index 88b7f84..a342e74 100644
--- a/src/estd/internal/impl/handle_desc.h
+++ b/src/estd/internal/impl/handle_desc.h
@@ -171,7 +171,7 @@ protected:
 // false = bad/unallocated handle - we assume always good handle for this descriptor, so no
 // handle is actually tracked
 template <class TAllocator, bool is_stateful, bool is_singular,
-          class TTraits = estd::allocator_traits<TAllocator> >
+          class TTraits = estd::allocator_traits<typename remove_reference<TAllocator>::type> >
 class allocator_and_handle_descriptor :
         public impl::allocator_descriptor<TAllocator, is_stateful>,
         public impl::handle_descriptor<TAllocator, is_singular>,
@@ -254,8 +254,13 @@ public:
 
     bool reallocate(size_type size)
     {
-        handle_base_t::handle(base_t::get_allocator().reallocate(handle_base_t::handle(), size));
-        return handle_base_t::handle() != allocator_traits::invalid();
+        const handle_type h = base_t::get_allocator().reallocate(handle_base_t::handle(), size);
+
+        // on failure, original block remains ours
+        if(h == allocator_traits::invalid()) return false;
+
+        handle_base_t::handle(h);
+        return true;
     }
 
     bool is_allocated() const
diff --git a/src/estd/internal/memory/v1/pool.h b/src/estd/internal/memory/v1/pool.h
index 4e03e1a..cc9c629 100644
--- a/src/estd/internal/memory/v1/pool.h
+++ b/src/estd/internal/memory/v1/pool.h
@@ -135,6 +135,10 @@ class pool : public pool_block<block_size>
 public:
     pool() : base_type(storage_, blocks)    {}
 
+    // Free list points into our own storage_
+    pool(const pool&) = delete;
+    pool& operator=(const pool&) = delete;
+
     static constexpr unsigned max_blocks() { return blocks; }
 
     int8_t to_handle(void* value) const
@@ -157,6 +161,15 @@ class typed_pool : public pool<sizeof(T), blocks>
     void alloc() {}
     void free() {}
 
+    // Hands block back if constructor never completes
+    struct guard
+    {
+        base_type& pool_;
+        void* storage_;
+
+        ~guard() { if(storage_ != nullptr) pool_.free(storage_); }
+    };
+
 public:
     template <class ...Args>
     T* emplace(Args&&...args)
@@ -165,7 +178,13 @@ public:
 
         if(storage == nullptr)  return nullptr;
 
-        return new (storage) T(std::forward<Args>(args)...);
+        guard g{*this, storage};
+
+        T* const t = new (storage) T(std::forward<Args>(args)...);
+
+        g.storage_ = nullptr;
+
+        return t;
     }
 
     void erase(T* t)
-- 
2.43.0


From 216ad9018c725621934a0fcbfd7143d6f28034c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:53 +0000
Subject: [PATCH 42/52] fix: stack::top() on a const stack returned a reference
 to a dead temporary; const accessors now convert to their value

---
 src/estd/internal/container/locking_accessor.h | 2 +-
 src/estd/stack.h                               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/locking_accessor.h b/src/estd/internal/container/locking_accessor.h
index 7fb1e80..7486d8d 100644
--- a/src/estd/internal/container/locking_accessor.h
+++ b/src/estd/internal/container/locking_accessor.h
@@ -48,7 +48,7 @@ public:
 
     // DEBT: Leaves unlocked!
     operator locked_type() { return lock(); }
-    explicit operator const_locked_type() const { return lock(); }
+    explicit operator const_locked_type() const { return clock(); }
 
     this_type& operator=(const value_type& copy_from)
     {
diff --git a/src/estd/stack.h b/src/estd/stack.h
index 9c7f9e8..c47eaea 100644
--- a/src/estd/stack.h
+++ b/src/estd/stack.h
@@ -35,7 +35,7 @@ public:
     void pop() { c.pop_back(); }
 
     accessor top() { return c.back(); }
-    const accessor& top() const { return c.back(); }
+    accessor top() const { return c.back(); }
 
     size_type size() const { return c.size(); }
     bool empty() const { return c.empty(); }
-- 
2.43.0


From cc27854571e019ef797c3747cad4858ca3c153c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:22 +0000
Subject: [PATCH 43/52] fix: check the capacity before a requested size is
 narrowed to size_type

---
 src/estd/internal/container/specializer.h |  2 +-
 src/estd/internal/dynamic_array.h         | 21 +++++++++++----------
 src/estd/internal/layer1/string.h         |  2 +-
 src/estd/internal/string.h                |  6 +++---
 4 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 75234fd..6fb843e 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -128,7 +128,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
     static size_type
         append(dynamic_array& a, const allocated_array<Impl2>& copy_from)
     {
-        size_type len = copy_from.size();
+        size_t len = copy_from.size();
         auto r = a.grow(len);
         const size_type current_size = r.starting_size;
         pointer raw = a.lock(current_size);
diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 9538a1b..3d9d303 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -129,10 +129,10 @@ protected:
     // - traditional dynamic memory scenarios (i.e. classic malloc/realloc/free behaviors)
     // - advanced and not yet implemented fragmented locking dynamic memory
 
-    bool ensure_total_capacity(size_type new_size, size_type pad = 0)
+    bool ensure_total_capacity(size_t new_size, size_type pad = 0)
     {
         // terminator, if any, needs room too
-        const size_t required = size_t(new_size) + (impl_type::uses_termination() ? 1 : 0);
+        const size_t required = new_size + (impl_type::uses_termination() ? 1 : 0);
 
         if(required > capacity())
         {
@@ -143,8 +143,9 @@ protected:
         return true;
     }
 
+    // NOTE: Requested sizes are size_t because a request may exceed what size_type can represent
     // internal method for reassigning size, ensuring capacity is available
-    ESTD_CPP_CONSTEXPR(14) bool ensure_total_size(size_type new_size, size_type pad = 0, bool shrink = false)
+    ESTD_CPP_CONSTEXPR(14) bool ensure_total_size(size_t new_size, size_type pad = 0, bool shrink = false)
     {
         if(ensure_total_capacity(new_size, pad) == false)
             return false;
@@ -157,7 +158,7 @@ protected:
     }
 
     // internal method for auto increasing capacity based on pre-set amount
-    grow_result ensure_additional_capacity(size_type increase_by)
+    grow_result ensure_additional_capacity(size_t increase_by)
     {
         // DEBT: fixed allocators IIRC have matching capacity() and max_size()
         // possibly resulting in big and crusty code here
@@ -186,7 +187,7 @@ protected:
     // (standard version also inserts or removes characters if requested,
     //  this one ONLY replaces the entire buffer)
     // TODO: change to assign
-    void assign(const_pointer buf, size_type len)   // NOLINT
+    void assign(const_pointer buf, size_t len)   // NOLINT
     {
         ensure_total_size(len);
 
@@ -349,7 +350,7 @@ protected:
     bool raw_insert(unsigned to_insert_pos, InputIt first, InputIt last)
     {
         const size_type sz = impl().size();
-        const size_type input_sz = last - first;
+        const size_t input_sz = last - first;
         if(ensure_total_size(sz + input_sz) == false) return false;
 
         pointer data = lock();
@@ -426,7 +427,7 @@ public:
 
     constexpr size_type capacity() const { return impl().capacity(); }
 
-    ESTD_CPP_CONSTEXPR(14) bool resize(size_type count)
+    ESTD_CPP_CONSTEXPR(14) bool resize(size_t count)
     {
         const size_type sz = size();
 
@@ -469,7 +470,7 @@ public:
     // - classic malloc/realloc/free
     // - not-yet-implemented fragment-adapting locking memory
     /// @returns size before growth
-    grow_result grow(size_type by_amount)
+    grow_result grow(size_t by_amount)
     {
         grow_result r = ensure_additional_capacity(by_amount);
 
@@ -504,7 +505,7 @@ public:
     // somewhat non standard, but considered a real API in estd
     // in theory this might go a little faster than the iterator
     // version
-    append_result append(const value_type* buf, size_type len)
+    append_result append(const value_type* buf, size_t len)
     {
         grow_result r = grow(len);
         const size_type current_size = r.starting_size;
@@ -590,7 +591,7 @@ public:
     append_result append(const experimental::private_array<TImpl2>& source)
     {
         //typedef typename experimental::private_array<TImpl2>::const_iterator iterator;
-        size_type len = source.size();
+        size_t len = source.size();
 
         grow_result r = grow(len);
         const size_type pre_growth_size = r.starting_size;
diff --git a/src/estd/internal/layer1/string.h b/src/estd/internal/layer1/string.h
index d426196..a631079 100644
--- a/src/estd/internal/layer1/string.h
+++ b/src/estd/internal/layer1/string.h
@@ -32,7 +32,7 @@ public:
         base_type::operator =(s);
     }
 
-    basic_string(const_pointer s, size_type count)        // NOLINT
+    basic_string(const_pointer s, size_t count)        // NOLINT
     {
         base_type::assign(s, count);
     }
diff --git a/src/estd/internal/string.h b/src/estd/internal/string.h
index 03fc078..dfe1eb7 100644
--- a/src/estd/internal/string.h
+++ b/src/estd/internal/string.h
@@ -260,7 +260,7 @@ public:
         return {};
     }
 
-    ESTD_CPP_CONSTEXPR(14) basic_string& insert(size_type index, const_pointer s, size_type count)
+    ESTD_CPP_CONSTEXPR(14) basic_string& insert(size_type index, const_pointer s, size_t count)
     {
         assert_mutable();
 
@@ -361,7 +361,7 @@ public:
         return *this;
     }
 
-    basic_string& append(size_type count, value_type c) // NOLINT
+    basic_string& append(size_t count, value_type c) // NOLINT
     {
         // NOTE: Minor optimization opportunity (don't push around size/null term a bunch of times)
         while(count--) *this += c;
@@ -376,7 +376,7 @@ public:
         return *this;
     }
 
-    basic_string& append(const_pointer s, size_type count)  // NOLINT
+    basic_string& append(const_pointer s, size_t count)  // NOLINT
     {
         assert_append(base_type::append(s, count));
         return *this;
-- 
2.43.0


From 3cc67be663b0259397646cc69f4db5eb07ddd6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:50 +0000
Subject: [PATCH 44/52] fix: byteswap of one byte integers yielded 0, of
 char/long long/wchar_t was ambiguous

---
 src/estd/bit.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/estd/bit.h b/src/estd/bit.h
index 531f9e4..456f2e7 100644
--- a/src/estd/bit.h
+++ b/src/estd/bit.h
@@ -35,6 +35,22 @@ using std::byteswap;
 namespace estd {
 
 namespace detail {
+
+// unsigned integer of a particular size in bytes
+template <unsigned bytes>
+struct byteswap_type;
+
+template <> struct byteswap_type<1> { typedef uint8_t type; };
+template <> struct byteswap_type<2> { typedef uint16_t type; };
+template <> struct byteswap_type<4> { typedef uint32_t type; };
+template <> struct byteswap_type<8> { typedef uint64_t type; };
+
+// one byte has no order to speak of
+constexpr uint8_t byteswap(uint8_t n) noexcept
+{
+    return n;
+}
+
 #if FEATURE_ESTD_BYTESWAP_MODE == FEATURE_ESTD_BYTESWAP_XOR
 
 #error manual xor non gcc/ non std mode not yet supported
@@ -97,8 +113,13 @@ byteswap(int64_t n) noexcept
 
 // Since spec indicates a templated function, we wrap up the specific ones
 // in detail.  This is better than specializing, since that can lead to linker ambiguities
+// 'n' is routed by its size, since char, long long and friends match no flavor exactly and would
+// otherwise be promoted to a wider one
 template <class T>
-constexpr T byteswap(T n) noexcept { return detail::byteswap(n); }
+constexpr T byteswap(T n) noexcept
+{
+    return T(detail::byteswap(typename detail::byteswap_type<sizeof(T)>::type(n)));
+}
 
 }
 
-- 
2.43.0


From cd2a700a7799ced459ec2ab9ec86264b8bb5d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:52 +0000
Subject: [PATCH 45/52] fix: inserting before the end of a doubly linked list
 dereferenced a null node

---
 src/estd/list.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/estd/list.h b/src/estd/list.h
index c6dc895..fb31076 100644
--- a/src/estd/list.h
+++ b/src/estd/list.h
@@ -1,8 +1,8 @@
 #pragma once
 
+#include "forward_list.h"
 #include "iterators/list.h"
 #include "traits/list_node.h"
-#include "forward_list.h"
 #include "internal/reverse_list.h"
 
 namespace estd {
@@ -122,6 +122,13 @@ public:
             return base_t::begin();
         }
 
+        // likewise, inserting before the end means becoming the new back
+        if(pos == base_t::end())
+        {
+            push_back(value);
+            return iterator(base_t::m_back, base_t::traits);
+        }
+
         node_handle new_node = base_t::traits.allocate(value);
 
         node_handle node_to_insert_on = pos.node(); // or 'before', if you like
-- 
2.43.0


From 4971660b255afb82a9d4a49201bd9bbf357c9cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:28 +0000
Subject: [PATCH 46/52] fix: strings narrowed the lengths of texts, patterns
 and copies to their own size_type: a 256 character text compared equal to an
 empty string

---
 src/estd/internal/container/specializer.h | 10 ++---
 src/estd/internal/runtime_array.h         | 14 +++----
 src/estd/internal/string.h                | 47 +++++++++++------------
 3 files changed, 35 insertions(+), 36 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 6fb843e..1cdf3ed 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -35,7 +35,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
     // copy from us to outside dest/other
     static size_type copy_to(const array& a,
         typename estd::remove_const<value_type>::type* dest,
-        size_type count, size_type pos = 0)
+        size_t count, size_t pos = 0)
     {
         auto src = a.create_iterator(pos);
 
@@ -44,7 +44,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
         // TODO: since we aren't gonna throw an exception, determine what to do if
         // pos > size()
 
-        if(pos + count > a.size())
+        if(count > a.size() - pos)
             count = a.size() - pos;
 
         estd::copy_n(src, count, dest);
@@ -177,14 +177,14 @@ struct dynamic_array_helper<Impl, enable_if_t<
     // copy from us to outside dest/other
     static size_type copy_to(const array& a,
         typename estd::remove_const<value_type>::type* dest,
-        size_type count, size_type pos = 0)
+        size_t count, size_t pos = 0)
     {
         const value_type* src = a.clock(pos, count);
 
         // TODO: since we aren't gonna throw an exception, determine what to do if
         // pos > size()
 
-        if(pos + count > a.size())
+        if(count > a.size() - pos)
             count = a.size() - pos;
 
         // TODO: Do the m_impl.copy_from here
@@ -217,7 +217,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
 
 
     /// Low-level compare - does NOT check for matching size!
-    static int compare(const detail::basic_string<Impl>& lhs, const_pointer s, size_type s_size)
+    static int compare(const detail::basic_string<Impl>& lhs, const_pointer s, size_t s_size)
     {
         typedef typename detail::basic_string<Impl>::traits_type traits_type;
         const_pointer raw = lhs.clock();
diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index 59be44b..fff86c2 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -369,7 +369,7 @@ public:
     // copy (into dest)
     // officially only for basic_string, but lives happily here in allocated_array
     size_type copy(typename estd::remove_const<value_type>::type* dest,
-                   size_type count, size_type pos = 0) const
+                   size_t count, size_t pos = 0) const
     {
         return helper::copy_to(*this, dest, count, pos);
     }
@@ -400,7 +400,7 @@ public:
     /// @param npos value representing 'not found'
     /// @return
     ESTD_CPP_CONSTEXPR(14) size_type find(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_t pos, size_t count, size_type npos) const
     {
         const size_type sz = size();
 
@@ -431,7 +431,7 @@ public:
     /// @param npos value representing 'not found'
     /// @return
     ESTD_CPP_CONSTEXPR(14) size_type rfind(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_t pos, size_t count, size_type npos) const
     {
         const size_type sz = size();
 
@@ -460,7 +460,7 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_t pos, size_t count, size_type npos) const
     {
         if(pos >= size()) return npos;
 
@@ -475,7 +475,7 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_t pos, size_t count, size_type npos) const
     {
         const size_type sz = size();
 
@@ -496,8 +496,8 @@ public:
     template <class Impl2>
     ESTD_CPP_CONSTEXPR(14) bool operator ==(const allocated_array<Impl2>& compare_to) const
     {
-        size_type raw_size = size();
-        size_type s_size = compare_to.size();
+        const size_t raw_size = size();
+        const size_t s_size = compare_to.size();
 
         if(raw_size != s_size) return false;
 
diff --git a/src/estd/internal/string.h b/src/estd/internal/string.h
index dfe1eb7..dc9b7ec 100644
--- a/src/estd/internal/string.h
+++ b/src/estd/internal/string.h
@@ -57,10 +57,11 @@ public:
 protected:
     ESTD_CPP_FORWARDING_CTOR(basic_string)
 
+    // NOTE: Foreign lengths are size_t because they may exceed what size_type can represent
     template <typename InputIt>
-    int compare(InputIt s, size_type s_size) const
+    int compare(InputIt s, size_t s_size) const
     {
-        size_type raw_size = base_type::size();
+        const size_t raw_size = base_type::size();
 
         const int result = helper::compare(*this, s, raw_size < s_size ? raw_size : s_size);
 
@@ -133,24 +134,22 @@ public:
         return helper::ends_with(*this, compare_to);
     }
 
-    size_type find(value_type ch, size_type pos = 0) const
+    size_type find(value_type ch, size_t pos = 0) const
     {
         // DEBT: Use helper to optimize this for the particular kind of
         // string we're inspecting, or possibly use iterators if they'll
         // do things efficiently here
 
-        const_pointer data = base_type::clock() + pos;
+        const_pointer data = base_type::clock();
         const size_type size = base_type::size();
 
-        while(pos < size)
+        for(; pos < size; ++pos)
         {
-            if(*data++ == ch)
+            if(data[pos] == ch)
             {
                 base_type::cunlock();
                 return pos;
             }
-
-            ++pos;
         }
 
         base_type::cunlock();
@@ -159,21 +158,21 @@ public:
     }
 
 
-    ESTD_CPP_CONSTEXPR(14) size_type find(const_pointer s, size_type pos, size_type count) const
+    ESTD_CPP_CONSTEXPR(14) size_type find(const_pointer s, size_t pos, size_t count) const
     {
         return base_type::find(s, pos, count, npos);
     }
 
-    ESTD_CPP_CONSTEXPR(14) size_type find(const_pointer s, size_type pos = 0) const
+    ESTD_CPP_CONSTEXPR(14) size_type find(const_pointer s, size_t pos = 0) const
     {
-        size_type count = traits_type::length(s);
+        const size_t count = traits_type::length(s);
 
         return find(s, pos, count);
     }
 
     template <class Impl2>
     ESTD_CPP_CONSTEXPR(14) size_type find(
-        const basic_string<Impl2>& s, size_type pos = 0) const
+        const basic_string<Impl2>& s, size_t pos = 0) const
     {
         const_pointer data = s.clock();
         size_type r = find(data, pos, s.size());
@@ -182,21 +181,21 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type rfind(
-        const_pointer s, size_type pos, size_type count) const
+        const_pointer s, size_t pos, size_t count) const
     {
         return base_type::rfind(s, pos, count, npos);
     }
 
-    ESTD_CPP_CONSTEXPR(14) size_type rfind(const_pointer s, size_type pos = npos) const
+    ESTD_CPP_CONSTEXPR(14) size_type rfind(const_pointer s, size_t pos = npos) const
     {
-        size_type count = traits_type::length(s);
+        const size_t count = traits_type::length(s);
 
         return rfind(s, pos, count);
     }
 
     template <class Impl2>
     ESTD_CPP_CONSTEXPR(14) size_type rfind(
-        const basic_string<Impl2>& s, size_type pos = npos) const
+        const basic_string<Impl2>& s, size_t pos = npos) const
     {
         const_pointer data = s.clock();
         size_type r = rfind(data, pos, s.size());
@@ -205,20 +204,20 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
-        const_pointer s, size_type pos, size_type count) const
+        const_pointer s, size_t pos, size_t count) const
     {
         return base_type::find_first_of(s, pos, count, npos);
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
-        const_pointer s, size_type pos = 0) const
+        const_pointer s, size_t pos = 0) const
     {
         return find_first_of(s, pos, traits_type::length(s));
     }
 
     template <class Impl2>
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(const basic_string<Impl2>& s,
-        size_type pos = 0) const
+        size_t pos = 0) const
     {
         const_pointer data = s.clock();
         size_type r = find_first_of(data, pos, s.size());
@@ -227,20 +226,20 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
-        const_pointer s, size_type pos, size_type count) const
+        const_pointer s, size_t pos, size_t count) const
     {
         return base_type::find_last_of(s, pos, count, npos);
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
-        const_pointer s, size_type pos = npos) const
+        const_pointer s, size_t pos = npos) const
     {
         return find_last_of(s, pos, traits_type::length(s));
     }
 
     template <class Impl2>
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(const basic_string<Impl2>& s,
-        size_type pos = npos) const
+        size_t pos = npos) const
     {
         const_pointer data = s.clock();
         size_type r = find_last_of(data, pos, s.size());
@@ -288,7 +287,7 @@ public:
         return *this;
     }
 
-    basic_string& erase(size_type index = 0, size_type count = npos)
+    basic_string& erase(size_type index = 0, size_t count = npos)
     {
         assert_mutable();
 
@@ -296,7 +295,7 @@ public:
         // NOTE: A bit tricky, if we don't use helper size_minus_index, template
         // resolution fails, presumably because the math operation implicitly
         // creates an int
-        size_type to_remove_count = estd::min(count, size_minus_index);
+        size_type to_remove_count = estd::min(count, size_t(size_minus_index));
 
         base_type::_erase(index, to_remove_count);
 
-- 
2.43.0


From fe81a376d5f527ddcd3b81b0325b5854740babc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:00 +0000
Subject: [PATCH 47/52] fix: value_or of an expiring optional copied its value

---
 src/estd/optional.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/optional.h b/src/estd/optional.h
index 6ccf174..3a410b0 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -286,7 +286,9 @@ public:
 #endif
     T value_or(U&& default_value) &&
     {
-        return base_type::has_value() ? base_type::value() : std::forward<U>(default_value);
+        return base_type::has_value() ?
+            std::forward<value_type>(base_type::value()) :
+            static_cast<T>(std::forward<U>(default_value));
     }
 
     template <class U>
-- 
2.43.0


From e778b522aa3afb2377e4953552a78802580184da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:55 +0000
Subject: [PATCH 48/52] fix: a string's own content given to append, insert or
 assignment was read after it had moved

---
 src/estd/internal/dynamic_array.h | 59 +++++++++++++++++++++++++++++++
 src/estd/internal/string.h        | 12 +++++--
 2 files changed, 68 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 3d9d303..d3c2400 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -189,6 +189,20 @@ protected:
     // TODO: change to assign
     void assign(const_pointer buf, size_t len)   // NOLINT
     {
+        size_t from = 0;
+
+        // Own content moves down first, sizing may overwrite (i.e. terminate) some of it
+        if(owns(buf, &from))
+        {
+            pointer data = lock();
+
+            for(size_t i = 0; i < len; ++i) data[i] = data[from + i];
+
+            unlock();
+            resize(len);
+            return;
+        }
+
         ensure_total_size(len);
 
         base_type::assign(buf, len);
@@ -368,6 +382,41 @@ protected:
         return true;
     }
 
+    // Does 'p' refer to one of our own elements?  If so, 'index' tells which
+    bool owns(const_pointer p, size_t* index) const
+    {
+        const size_type sz = size();
+
+        // A never allocated array has nothing to lock
+        if(sz == 0) return false;
+
+        const_pointer data = base_type::clock();
+        const bool own = p >= data && p < data + sz;
+
+        if(own) *index = p - data;
+
+        base_type::cunlock();
+        return own;
+    }
+
+    // Inserts a copy of our own elements [from, from + count), wherever making room puts them
+    bool raw_insert_own(size_type to_insert_pos, size_t from, size_t count)
+    {
+        const size_type sz = impl().size();
+        if(ensure_total_size(sz + count) == false) return false;
+
+        pointer data = lock();
+
+        move_assist(data + to_insert_pos, data + sz, data + sz + count);
+
+        // Those at and beyond to_insert_pos have just shifted by 'count'
+        for(size_t i = 0; i < count; ++i, ++from)
+            new (data + to_insert_pos + i) value_type(data[from < to_insert_pos ? from : from + count]);
+
+        unlock();
+        return true;
+    }
+
 
     void raw_insert(unsigned to_insert_pos, const_pointer to_insert_value)
     {
@@ -507,6 +556,9 @@ public:
     // version
     append_result append(const value_type* buf, size_t len)
     {
+        size_t from = 0;
+        const bool own = owns(buf, &from);
+
         grow_result r = grow(len);
         const size_type current_size = r.starting_size;
 #if FEATURE_ESTD_DYNAMIC_ARRAY_BOUNDS_CHECK
@@ -523,6 +575,13 @@ public:
 
 #endif
 
+        // Growing may have relocated our own elements
+        if(own)
+        {
+            buf = base_type::clock() + from;
+            base_type::cunlock();
+        }
+
         helper::copy_from(*this, current_size, buf, len);
 
 #if FEATURE_ESTD_DYNAMIC_ARRAY_BOUNDS_CHECK
diff --git a/src/estd/internal/string.h b/src/estd/internal/string.h
index dc9b7ec..154e025 100644
--- a/src/estd/internal/string.h
+++ b/src/estd/internal/string.h
@@ -263,7 +263,13 @@ public:
     {
         assert_mutable();
 
-        base_type::raw_insert(index, s, s + count);
+        // 's' may be part of this very string, whose content is about to shift and possibly relocate
+        size_t from = 0;
+
+        if(base_type::owns(s, &from))
+            base_type::raw_insert_own(index, from, count);
+        else
+            base_type::raw_insert(index, s, s + count);
 
         return *this;
     }
@@ -280,7 +286,7 @@ public:
 
         const_pointer src = str.clock();
 
-        base_type::raw_insert(index, src, src + str.size());
+        insert(index, src, str.size());
 
         str.cunlock();
 
@@ -346,7 +352,7 @@ public:
 
     // DEBT: A little too permissive, though is OK since append itself is stricter
     template <class T>
-    inline ESTD_CPP_CONSTEXPR(14) basic_string& operator+=(T rhs)
+    inline ESTD_CPP_CONSTEXPR(14) basic_string& operator+=(const T& rhs)
     {
         append(rhs);
         return *this;
-- 
2.43.0


From 50857e0d57c5aca8502e2f81f9411c05e9fe4d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:59 +0000
Subject: [PATCH 49/52] fix: variant and expected destroyed what they held
 before reading the value assigned to them

---
 src/estd/expected.h                 | 14 ++++++++--
 src/estd/internal/variant/storage.h | 40 ++++++++++++++++++++++++-----
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/estd/expected.h b/src/estd/expected.h
index afe7c33..7d3ad14 100644
--- a/src/estd/expected.h
+++ b/src/estd/expected.h
@@ -215,11 +215,16 @@ public:
         if(this == &copy_from)  return *this;
 
         if(copy_from.has_value_)
+        {
             base_type::assign_value(has_value_, copy_from.base_type::value());
+            has_value_ = true;
+        }
         else
+        {
             base_type::assign_error(!has_value_, copy_from.base_type::error());
+            has_value_ = false;
+        }
 
-        has_value_ = copy_from.has_value_;
         return *this;
     }
 
@@ -229,11 +234,16 @@ public:
         if(this == &move_from)  return *this;
 
         if(move_from.has_value_)
+        {
             base_type::assign_value(has_value_, std::move(move_from.base_type::value()));
+            has_value_ = true;
+        }
         else
+        {
             base_type::assign_error(!has_value_, std::move(move_from.base_type::error()));
+            has_value_ = false;
+        }
 
-        has_value_ = move_from.has_value_;
         return *this;
     }
 #endif
diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index cc7a28c..991030e 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -474,6 +474,33 @@ public:
     }
 
 
+    // Switches over to 'I', 'unset' destroying whatever is tracked until then.  When merely moving a T_i
+    // doesn't throw it's constructed up front, so that we keep what we are tracking should that throw, and
+    // so that 't' may be a part of it
+    template <size_t I, class T_i, class T, class Unset,
+        enable_if_t<
+            is_constructible<T_i, T>::value &&
+            !is_nothrow_constructible<T_i, T>::value &&
+            is_nothrow_move_constructible<T_i>::value, bool> = true>
+    void switch_helper(Unset&& unset, T&& t)
+    {
+        T_i temp(std::forward<T>(t));
+
+        unset();
+        emplace<I>(std::move(temp));
+    }
+
+    template <size_t I, class T_i, class T, class Unset,
+        enable_if_t<!(
+            is_constructible<T_i, T>::value &&
+            !is_nothrow_constructible<T_i, T>::value &&
+            is_nothrow_move_constructible<T_i>::value), bool> = true>
+    void switch_helper(Unset&& unset, T&& t, bool = true)
+    {
+        unset();
+        direct_init_helper<I, T_i>(std::forward<T>(t));
+    }
+
     // index = index of variant tracked in 'this' - since it's a compile time constant,
     // this is most useful for when match toggles between two possibilities (such as
     // 'expected')
@@ -495,8 +522,7 @@ public:
         {
             // ... if not, destroy what we're tracking (if any) and
             // do a direct initialization
-            destroy<index>();
-            direct_init_helper<I, T_j>(std::forward<U>(u));
+            switch_helper<I, T_j, U>([this] { destroy<index>(); }, std::forward<U>(u));
         }
     }
 
@@ -520,10 +546,12 @@ public:
         {
             // ... if not, destroy what we're tracking (if any) and
             // do a direct initialization
-            destroy(*index);
-            // Unset index just in case exception is thrown during initialization
-            *index = variant_npos();
-            direct_init_helper<I, T_j>(std::forward<U>(u));
+            switch_helper<I, T_j, U>([this, index]
+            {
+                destroy(*index);
+                // Unset index just in case exception is thrown during initialization
+                *index = variant_npos();
+            }, std::forward<U>(u));
             *index = I;
         }
     }
-- 
2.43.0


From 638e9505efcadfae425b404ecdf3b9cd2a710cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:51 +0000
Subject: [PATCH 50/52] fix: tuples could not be assigned

---
 src/estd/internal/tuple/sparse.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/estd/internal/tuple/sparse.h b/src/estd/internal/tuple/sparse.h
index 9a4552b..7a9408f 100644
--- a/src/estd/internal/tuple/sparse.h
+++ b/src/estd/internal/tuple/sparse.h
@@ -53,6 +53,10 @@ public:
     constexpr tuple_storage(tuple_storage&&) noexcept = default;
     constexpr tuple_storage(const tuple_storage&) = default;
     constexpr tuple_storage() = default;
+
+    // Declaring the constructors above suppresses these
+    tuple_storage& operator=(tuple_storage&&) = default;
+    tuple_storage& operator=(const tuple_storage&) = default;
 #else
     tuple_storage(const T& value) : value(value) {}
     tuple_storage() {};
-- 
2.43.0


From eaf9cec84379e9d19d97b9f7767bfabb8e912ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:40 +0000
Subject: [PATCH 51/52] fix: library's own char_traits did not compile and took
 byte 0xFF for the end of input

---
 src/estd/internal/fpos.h                | 7 ++++++-
 src/estd/internal/impl/streambuf/base.h | 2 +-
 src/estd/internal/iosfwd.h              | 5 +----
 src/estd/streambuf.h                    | 2 +-
 src/estd/traits/char_traits.h           | 9 +++++----
 5 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/estd/internal/fpos.h b/src/estd/internal/fpos.h
index 81b08cc..e22407c 100644
--- a/src/estd/internal/fpos.h
+++ b/src/estd/internal/fpos.h
@@ -2,4 +2,9 @@
 
 namespace estd {
 
-}
\ No newline at end of file
+// TODO: use specific 16/32/64 bit versions depending on architecture
+typedef int streampos;
+typedef int streamoff;
+typedef int streamsize;
+
+}
diff --git a/src/estd/internal/impl/streambuf/base.h b/src/estd/internal/impl/streambuf/base.h
index 4fbe0c5..4257b91 100644
--- a/src/estd/internal/impl/streambuf/base.h
+++ b/src/estd/internal/impl/streambuf/base.h
@@ -99,7 +99,7 @@ protected:
     // Helper to produce showmanyc-style return values from regular
     // in avail style values.  Remember "0" for showmanyc means
     // unknown character availabity
-    inline static streamsize showmanyc(int_type avail, bool eof = true)
+    inline static streamsize showmanyc(streamsize avail, bool eof = true)
     {
         if(eof)
             // eof flag tells us whether there's any ambiguity about actually being end of buffer
diff --git a/src/estd/internal/iosfwd.h b/src/estd/internal/iosfwd.h
index a418df1..934a5b9 100644
--- a/src/estd/internal/iosfwd.h
+++ b/src/estd/internal/iosfwd.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "stream_flags.h"
+#include "fpos.h"
 #include "fwd/streambuf.h"
 #include "locale/fwd.h"
 
@@ -59,10 +60,6 @@ template <class TStreambuf, class TBase>
 detail::basic_istream<TStreambuf, TBase>&
     ws(detail::basic_istream<TStreambuf, TBase>& __is);
 
-// TODO: use specific 16/32/64 bit versions depending on architecture
-typedef int streampos;
-typedef int streamoff;
-typedef int streamsize;
 
 
 
diff --git a/src/estd/streambuf.h b/src/estd/streambuf.h
index 3c1ce9d..b212b41 100644
--- a/src/estd/streambuf.h
+++ b/src/estd/streambuf.h
@@ -197,7 +197,7 @@ public:
         return this->sync();
     }
 
-    inline pos_type pubseekpos(int_type pos, ios_base::openmode which = ios_base::in | ios_base::out)
+    inline pos_type pubseekpos(pos_type pos, ios_base::openmode which = ios_base::in | ios_base::out)
     {
         return this->seekpos(pos, which);
     }
diff --git a/src/estd/traits/char_traits.h b/src/estd/traits/char_traits.h
index d52323b..75e9f25 100644
--- a/src/estd/traits/char_traits.h
+++ b/src/estd/traits/char_traits.h
@@ -32,10 +32,11 @@ struct char_traits<char>
     typedef int off_type;
 
     static ESTD_CPP_CONSTEXPR_RET char_type to_char_type(int_type ch) { return ch; }
-    static ESTD_CPP_CONSTEXPR_RET int_type to_int_type(const char ch) { return ch; }
+    static ESTD_CPP_CONSTEXPR_RET int_type to_int_type(const char ch) { return (unsigned char)ch; }
     static ESTD_CPP_CONSTEXPR_RET int_type eof() { return -1; }
     static ESTD_CPP_CONSTEXPR_RET bool eq(char c1, char c2) { return c1 == c2; }
-    static ESTD_CPP_CONSTEXPR_RET bool not_eof(int_type v) { return v != -1; }
+    static ESTD_CPP_CONSTEXPR_RET bool eq_int_type(int_type c1, int_type c2) { return c1 == c2; }
+    static ESTD_CPP_CONSTEXPR_RET int_type not_eof(int_type v) { return v != -1 ? v : 0; }
 
     static const char_type* find(const char_type* p, size_t count, const char_type& ch)
     {
@@ -72,8 +73,8 @@ struct char_traits<char>
     {
         for(;count != 0; --count, ++s1, ++s2)
         {
-            if(*s1 < *s2) return -1;
-            if(*s1 > *s2) return 1;
+            if((unsigned char)*s1 < (unsigned char)*s2) return -1;
+            if((unsigned char)*s1 > (unsigned char)*s2) return 1;
         }
 
         return 0;
-- 
2.43.0


From 31e4035159842effe5e3f9df2049bfdaff1eab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:59 +0000
Subject: [PATCH 52/52] fix: bucket iterators of unordered containers could not
 be advanced with it++ or compared

---
 src/estd/internal/container/unordered/base.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 1c24da5..2993bb1 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -412,19 +412,19 @@ protected:
 
         this_type operator++(int)
         {
+            this_type temp(*this);
             operator++();
-
-            return { n_, it_ - 1 };
+            return temp;
         }
 
         constexpr bool operator==(const LocalIt& other) const
         {
-            return it_ == other;
+            return cast() == other;
         }
 
         constexpr bool operator!=(const LocalIt& other) const
         {
-            return it_ != other;
+            return cast() != other;
         }
     };
 
-- 
2.43.0

