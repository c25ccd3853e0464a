From d16242c882f51a2e355da9f13f8a562dab2fef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 01/20] fix: report an empty circular_buffer as linearized

is_linearized() is documented to return true if the elements form a
continuous array, which holds trivially for an empty buffer, but it returned
false for an empty buffer whose first-element pointer is not at the start of
the internal storage (even directly after linearize()).
---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 4744154..8d4c61e 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -708,7 +708,7 @@ public:
              Constant (in the size of the <code>circular_buffer</code>).
         \sa <code>linearize()</code>, <code>array_one()</code>, <code>array_two()</code>
     */
-    bool is_linearized() const BOOST_NOEXCEPT { return m_first < m_last || m_last == m_buff; }
+    bool is_linearized() const BOOST_NOEXCEPT { return empty() || m_first < m_last || m_last == m_buff; }
 
     //! Rotate elements in the <code>circular_buffer</code>.
     /*!
-- 
2.43.0


From b4a0e793b75a3f2bc24c439e9435f7eccd1e177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 02/20] fix: return the whole block when constructing n copies
 throws

initialize_buffer() allocates buffer_capacity elements, but its exception
path deallocated size() elements, which breaks the allocator's contract
whenever the capacity is larger than the number of copies.
---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 8d4c61e..2953120 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2501,7 +2501,7 @@ private:
         BOOST_TRY {
             cb_details::uninitialized_fill_n_with_alloc(m_buff, size(), item, alloc());
         } BOOST_CATCH(...) {
-            deallocate(m_buff, size());
+            deallocate(m_buff, buffer_capacity);
             BOOST_RETHROW
         }
         BOOST_CATCH_END
-- 
2.43.0


From aca54c499d1d1e5c28a54a183bbfa8bdacac7a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 03/20] fix: keep rinsert at the beginning consistent when an
 element throws

The elements constructed before the exception lie directly in front of
m_first (starting at sub(m_first, construct)), but the exception path
extended the buffer at its end. Unless the new elements filled all the free
space this exposed never constructed slots as elements and leaked the
constructed ones (rinsert(begin(), ...), rresize). Destroy them instead.
---
 include/boost/circular_buffer/base.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 2953120..4d1b476 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2938,9 +2938,8 @@ private:
                 for (; ii > 0; --ii, increment(p))
                     boost::allocator_construct(alloc(), boost::to_address(p), *wrapper());
             } BOOST_CATCH(...) {
-                size_type constructed = ii < construct ? construct - ii : 0;
-                m_last = add(m_last, constructed);
-                m_size += constructed;
+                for (p = sub(m_first, construct); ii < construct; ++ii, increment(p))
+                    destroy_item(p);
                 BOOST_RETHROW
             }
             BOOST_CATCH_END
-- 
2.43.0


From d73029d93457b2ed092b2179bdf7b6df4c920d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 04/20] fix: release storage when constructing from an input
 range throws

The constructor taking a capacity and a range of input iterators leaked the
elements already constructed and the whole internal buffer when an element
operation or the source iterator threw.
---
 include/boost/circular_buffer/base.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 4d1b476..2a13800 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2576,16 +2576,22 @@ private:
         m_size = 0;
         if (buffer_capacity == 0)
             return;
-        while (first != last && !full()) {
-            boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
-            increment(m_last);
-            ++m_size;
-        }
-        while (first != last) {
-            replace(m_last, *first++);
-            increment(m_last);
-            m_first = m_last;
+        BOOST_TRY {
+            while (first != last && !full()) {
+                boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
+                increment(m_last);
+                ++m_size;
+            }
+            while (first != last) {
+                replace(m_last, *first++);
+                increment(m_last);
+                m_first = m_last;
+            }
+        } BOOST_CATCH(...) {
+            destroy();
+            BOOST_RETHROW
         }
+        BOOST_CATCH_END
     }
 
     /*! INTERNAL ONLY */
-- 
2.43.0


From 45179d75b578e81785950e48121c181df3605fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 05/20] fix: destroy the last copied element when advancing the
 source throws

uninitialized_copy() advanced the source iterator before counting the
element it had just constructed, so that element was never destroyed when
the increment threw (for example in assign(first, last)).
---
 include/boost/circular_buffer/details.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index d6d48f3..98fe206 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -427,7 +427,7 @@ template<class InputIterator, class ForwardIterator, class Alloc>
 inline ForwardIterator uninitialized_copy(InputIterator first, InputIterator last, ForwardIterator dest, Alloc& a) {
     ForwardIterator next = dest;
     BOOST_TRY {
-        for (; first != last; ++first, ++dest)
+        for (; first != last; ++dest, ++first)
             boost::allocator_construct(a, boost::to_address(dest), *first);
     } BOOST_CATCH(...) {
         for (; next != dest; ++next)
-- 
2.43.0


From a854df36a33cdca0649b8a4e9cad1c99fbf6553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 06/20] fix: allocate after advancing the source range in the
 constructor

When the range is longer than the capacity the constructor skips its first
elements; if that threw, the internal buffer allocated just before leaked.
---
 include/boost/circular_buffer/base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 2a13800..383fe7a 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2610,14 +2610,14 @@ private:
         ForwardIterator first,
         ForwardIterator last,
         size_type distance) {
-        initialize_buffer(buffer_capacity);
-        m_first = m_buff;
         if (distance > buffer_capacity) {
             std::advance(first, distance - buffer_capacity);
             m_size = buffer_capacity;
         } else {
             m_size = distance;
         }
+        initialize_buffer(buffer_capacity);
+        m_first = m_buff;
         BOOST_TRY {
             m_last = cb_details::uninitialized_copy(first, last, m_buff, alloc());
         } BOOST_CATCH(...) {
-- 
2.43.0


From 658daee6fbdb015fe0176c8a55bcadc08ceca937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 07/20] fix: let rotate() compile with allocators that use
 class-type pointers

const_cast cannot convert a class-type const_pointer to the matching
pointer, so rotate() did not compile with such an allocator. Compute the
position from the iterator distance instead.
---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 383fe7a..5b9eb72 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -741,7 +741,7 @@ public:
         BOOST_CB_ASSERT(new_begin.is_valid(this)); // check for uninitialized or invalidated iterator
         BOOST_CB_ASSERT(new_begin.m_it != 0);      // check for iterator pointing to end()
         if (full()) {
-            m_first = m_last = const_cast<pointer>(new_begin.m_it);
+            m_first = m_last = add(m_first, new_begin - begin());
         } else {
             difference_type m = end() - new_begin;
             difference_type n = new_begin - begin();
-- 
2.43.0


From 52fc1fb30c8337bb53dc0cab3de66b631851e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 08/20] fix: keep end iterators valid in assign(capacity, input
 range)

The method is documented to invalidate all iterators except those equal to
end(), but when the capacity changed it used swap(), after which the debug
support reports end iterators as invalidated too.
---
 include/boost/circular_buffer/base.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 5b9eb72..e35e391 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2710,7 +2710,12 @@ private:
             insert(begin(), first, last);
         } else {
             circular_buffer<value_type, allocator_type> tmp(new_capacity, first, last, alloc());
-            tmp.swap(*this);
+            clear(); // does not invalidate iterators equal to end()
+            adl_move_swap(m_buff, tmp.m_buff);
+            adl_move_swap(m_end, tmp.m_end);
+            adl_move_swap(m_first, tmp.m_first);
+            adl_move_swap(m_last, tmp.m_last);
+            adl_move_swap(m_size, tmp.m_size);
         }
     }
 
-- 
2.43.0


From f68e3e6bddf2f6e350fa61f78b7557bf8b0b920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 09/20] fix: do not overflow when inserting a huge count into a
 space optimized buffer

check_low_capacity() computed size() + n and doubled the capacity until it
was reached. For very large n the sum wrapped around (the buffer then did not
grow and kept too few elements) or the doubling overflowed to zero and never
ended. No more than reserve() elements can be stored anyway.
---
 include/boost/circular_buffer/space_optimized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 21681fd..8824b07 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1541,7 +1541,7 @@ private:
 
     /*! INTERNAL ONLY */
     void check_low_capacity(size_type n = 1) {
-        size_type new_size = size() + n;
+        size_type new_size = size() + (std::min)(n, reserve());
         size_type new_capacity = circular_buffer<T, Alloc>::capacity();
         if (new_size > new_capacity) {
             if (new_capacity == 0)
-- 
2.43.0


From 7e456a2cd741bdb41a672d4c594f1ea1b3cfb82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 10/20] fix: reset the capacity of a move assigned space
 optimized buffer

Move assignment left the source with an empty internal buffer but with the
target's old capacity control, so unlike after move construction it reported
a capacity and a minimal capacity which it did not have.
---
 include/boost/circular_buffer/space_optimized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 8824b07..902453b 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -579,7 +579,7 @@ public:
     */
     circular_buffer_space_optimized<T, Alloc>& operator = (circular_buffer_space_optimized<T, Alloc>&& cb) BOOST_NOEXCEPT {
         cb.swap(*this); // now `this` holds `cb`
-        circular_buffer<T, Alloc>(get_allocator()) // temporary that holds initial `cb` allocator
+        circular_buffer_space_optimized<T, Alloc>(get_allocator()) // temporary that holds initial `cb` allocator
             .swap(cb); // makes `cb` empty
         return *this;
     }
-- 
2.43.0


From c5e9070d1015e5f2e9c2f5d3f035851a3bba2325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 11/20] fix: let the space optimized buffer be constructed from
 two integers

The constructor taking a capacity and a range also takes a count and a value
of an integral type, but it asked for the iterator category of that type and
did not compile.
---
 include/boost/circular_buffer/space_optimized.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 902453b..ec1de3a 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -508,8 +508,7 @@ public:
         init_capacity(capacity_ctrl, first, last, is_integral<InputIterator>()),
         first, last, alloc)
     , m_capacity_ctrl(capacity_ctrl) {
-        reduce_capacity(
-            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<InputIterator>::iterator_category, std::input_iterator_tag >());
+        reduce_capacity(first, is_integral<InputIterator>());
     }
 
 #if defined(BOOST_CB_NEVER_DEFINED)
@@ -1580,6 +1579,17 @@ private:
     /*! INTERNAL ONLY */
     void reduce_capacity(const false_type&) {}
 
+    /*! INTERNAL ONLY */
+    template <class IntegralType>
+    void reduce_capacity(const IntegralType&, const true_type&) {}
+
+    /*! INTERNAL ONLY */
+    template <class Iterator>
+    void reduce_capacity(const Iterator&, const false_type&) {
+        reduce_capacity(
+            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category, std::input_iterator_tag >());
+    }
+
     /*! INTERNAL ONLY */
     static size_type init_capacity(const capacity_type& capacity_ctrl, size_type n) {
         BOOST_CB_ASSERT(capacity_ctrl.capacity() >= n); // check for capacity lower than n
-- 
2.43.0


From dc970242619f980dd1271a238a9104c67e46d632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 12/20] fix: allocate the documented memory in
 assign(capacity_ctrl, first, last)

The method is documented to allocate room for the range or the minimal
capacity, whichever is larger, but it allocated the whole capacity. It also
changed the capacity control before anything that may throw, so that a
failed allocation left a capacity which the content could exceed.
---
 include/boost/circular_buffer/space_optimized.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index ec1de3a..428e858 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -723,8 +723,10 @@ public:
     */
     template <class InputIterator>
     void assign(capacity_type capacity_ctrl, InputIterator first, InputIterator last) {
+       circular_buffer<T, Alloc>::assign(
+           init_capacity(capacity_ctrl, first, last, is_integral<InputIterator>()), first, last);
        m_capacity_ctrl = capacity_ctrl;
-       circular_buffer<T, Alloc>::assign(capacity_ctrl, first, last);
+       reduce_capacity(first, is_integral<InputIterator>());
     }
 
     //! Swap the contents of two space-optimized circular-buffers.
-- 
2.43.0


From 5307fea13e8d808d9fd4379cb6515edb17f01c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 13/20] fix: read an input range only once in insert and
 rinsert of the space optimized buffer

---
 .../boost/circular_buffer/space_optimized.hpp | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 428e858..aa84782 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1643,6 +1643,21 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void insert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+        insert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void insert(iterator pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        if (!full() || pos != begin()) {
+            for (;first != last; ++pos)
+                pos = insert(pos, *first++);
+        }
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void insert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::insert(begin() + index, first, last);
@@ -1657,6 +1672,24 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void rinsert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+        rinsert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void rinsert(iterator pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        if (!full() || pos != end()) {
+            for (;first != last; ++pos) {
+                pos = rinsert(pos, *first++);
+                if (pos == end())
+                    break;
+            }
+        }
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void rinsert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::rinsert(begin() + index, first, last);
-- 
2.43.0


From d6f4204f9941bffd32bcba672cadd085e109f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 14/20] fix: make the assignment of space optimized buffers
 exception safe

---
 include/boost/circular_buffer/base.hpp        | 23 ++++++++++++-------
 .../boost/circular_buffer/space_optimized.hpp |  2 +-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index e35e391..a256b4d 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -1226,14 +1226,7 @@ public:
     circular_buffer<T, Alloc>& operator = (const circular_buffer<T, Alloc>& cb) {
         if (this == &cb)
             return *this;
-        pointer buff = allocate(cb.capacity());
-        BOOST_TRY {
-            reset(buff, cb_details::uninitialized_copy(cb.begin(), cb.end(), buff, alloc()), cb.capacity());
-        } BOOST_CATCH(...) {
-            deallocate(buff, cb.capacity());
-            BOOST_RETHROW
-        }
-        BOOST_CATCH_END
+        copy_content(cb, cb.capacity());
         return *this;
     }
 
@@ -2335,6 +2328,20 @@ public:
         m_size = 0;
     }
 
+protected:
+
+    /*! INTERNAL ONLY */
+    void copy_content(const circular_buffer<T, Alloc>& cb, capacity_type new_capacity) {
+        pointer buff = allocate(new_capacity);
+        BOOST_TRY {
+            reset(buff, cb_details::uninitialized_copy(cb.begin(), cb.end(), buff, alloc()), new_capacity);
+        } BOOST_CATCH(...) {
+            deallocate(buff, new_capacity);
+            BOOST_RETHROW
+        }
+        BOOST_CATCH_END
+    }
+
 private:
 // Helper methods
 
diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index aa84782..edfca41 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -562,7 +562,7 @@ public:
     circular_buffer_space_optimized<T, Alloc>& operator = (const circular_buffer_space_optimized<T, Alloc>& cb) {
         if (this == &cb)
             return *this;
-        circular_buffer<T, Alloc>::assign(cb.begin(), cb.end());
+        this->copy_content(cb, cb.size());
         m_capacity_ctrl = cb.m_capacity_ctrl;
         return *this;
     }
-- 
2.43.0


From 2eb970c8cf5eb2811967214526747495e23e0506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 15/20] fix: give set_capacity and rset_capacity of the space
 optimized buffer the strong guarantee

---
 .../boost/circular_buffer/space_optimized.hpp | 59 ++++++++++---------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index edfca41..1bc09ca 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -223,12 +223,11 @@ public:
             <code>\link resize() resize(size_type, const_reference)\endlink</code>
     */
     void set_capacity(const capacity_type& capacity_ctrl) {
+        circular_buffer<T, Alloc>::set_capacity(adjusted_capacity(capacity_ctrl));
         m_capacity_ctrl = capacity_ctrl;
-        if (capacity_ctrl < size()) {
-            iterator e = end();
-            circular_buffer<T, Alloc>::erase(e - (size() - capacity_ctrl), e);
-        }
-        adjust_min_capacity();
+#if BOOST_CB_ENABLE_DEBUG
+        this->invalidate_iterators_except(end());
+#endif
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
@@ -294,12 +293,11 @@ public:
             <code>\link rresize() rresize(size_type, const_reference)\endlink</code>
     */
     void rset_capacity(const capacity_type& capacity_ctrl) {
+        circular_buffer<T, Alloc>::rset_capacity(adjusted_capacity(capacity_ctrl));
         m_capacity_ctrl = capacity_ctrl;
-        if (capacity_ctrl < size()) {
-            iterator b = begin();
-            circular_buffer<T, Alloc>::rerase(b, b + (size() - capacity_ctrl));
-        }
-        adjust_min_capacity();
+#if BOOST_CB_ENABLE_DEBUG
+        this->invalidate_iterators_except(end());
+#endif
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
@@ -1524,22 +1522,34 @@ private:
 // Helper methods
 
     /*! INTERNAL ONLY */
-    void adjust_min_capacity() {
-        if (m_capacity_ctrl.min_capacity() > circular_buffer<T, Alloc>::capacity())
-            circular_buffer<T, Alloc>::set_capacity(m_capacity_ctrl.min_capacity());
-        else
-            check_high_capacity();
+    size_type adjusted_capacity(const capacity_type& capacity_ctrl) const {
+        if (capacity_ctrl.min_capacity() > circular_buffer<T, Alloc>::capacity())
+            return capacity_ctrl.min_capacity();
+        return reduced_capacity(capacity_ctrl, (std::min)(size(), capacity_ctrl.capacity()));
     }
 
     /*! INTERNAL ONLY */
-    size_type ensure_reserve(size_type new_capacity, size_type buffer_size) const {
+    static size_type ensure_reserve(const capacity_type& capacity_ctrl, size_type new_capacity, size_type buffer_size) {
         if (buffer_size + new_capacity / 5 >= new_capacity)
             new_capacity *= 2; // ensure at least 20% reserve
-        if (new_capacity > m_capacity_ctrl)
-            return m_capacity_ctrl;
+        if (new_capacity > capacity_ctrl)
+            return capacity_ctrl;
         return new_capacity;
     }
 
+    /*! INTERNAL ONLY */
+    size_type reduced_capacity(const capacity_type& capacity_ctrl, size_type buffer_size) const {
+        size_type new_capacity = circular_buffer<T, Alloc>::capacity();
+        while (new_capacity / 3 >= buffer_size) { // (new_capacity / 3) -> avoid oscillations
+            new_capacity /= 2;
+            if (new_capacity <= capacity_ctrl.min_capacity()) {
+                new_capacity = capacity_ctrl.min_capacity();
+                break;
+            }
+        }
+        return ensure_reserve(capacity_ctrl, new_capacity, buffer_size);
+    }
+
     /*! INTERNAL ONLY */
     void check_low_capacity(size_type n = 1) {
         size_type new_size = size() + (std::min)(n, reserve());
@@ -1549,7 +1559,7 @@ private:
                 new_capacity = 1;
             for (; new_size > new_capacity; new_capacity *= 2) {}
             circular_buffer<T, Alloc>::set_capacity(
-                ensure_reserve(new_capacity, new_size));
+                ensure_reserve(m_capacity_ctrl, new_capacity, new_size));
         }
 #if BOOST_CB_ENABLE_DEBUG
         this->invalidate_iterators_except(end());
@@ -1558,16 +1568,7 @@ private:
 
     /*! INTERNAL ONLY */
     void check_high_capacity() {
-        size_type new_capacity = circular_buffer<T, Alloc>::capacity();
-        while (new_capacity / 3 >= size()) { // (new_capacity / 3) -> avoid oscillations
-            new_capacity /= 2;
-            if (new_capacity <= m_capacity_ctrl.min_capacity()) {
-                new_capacity = m_capacity_ctrl.min_capacity();
-                break;
-            }
-        }
-        circular_buffer<T, Alloc>::set_capacity(
-            ensure_reserve(new_capacity, size()));
+        circular_buffer<T, Alloc>::set_capacity(reduced_capacity(m_capacity_ctrl, size()));
 #if BOOST_CB_ENABLE_DEBUG
         this->invalidate_iterators_except(end());
 #endif
-- 
2.43.0


From 0041e81170b0be0da46d6f25f596079d413b2468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:34 +0000
Subject: [PATCH 16/20] fix: detect decrementing end() of an empty buffer and
 moving uninitialized iterators

---
 include/boost/circular_buffer/details.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index 98fe206..2a626db 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -289,6 +289,7 @@ struct iterator
     //! Difference operator.
     template <class Traits0>
     difference_type operator - (const iterator<Buff, Traits0>& it) const {
+        BOOST_CB_ASSERT(m_buff != 0);         // check for uninitialized iterator
         BOOST_CB_ASSERT(is_valid(m_buff));    // check for uninitialized or invalidated iterator
         BOOST_CB_ASSERT(it.is_valid(m_buff)); // check for uninitialized or invalidated iterator
         return linearize_pointer(*this) - linearize_pointer(it);
@@ -314,6 +315,8 @@ struct iterator
     //! Decrement operator (prefix).
     iterator& operator -- () {
         BOOST_CB_ASSERT(is_valid(m_buff));        // check for uninitialized or invalidated iterator
+        BOOST_CB_ASSERT(m_buff != 0);             // check for uninitialized iterator
+        BOOST_CB_ASSERT(!m_buff->empty());        // check for iterator pointing to begin() of empty buffer
         BOOST_CB_ASSERT(m_it != m_buff->m_first); // check for iterator pointing to begin()
         if (m_it == 0)
             m_it = m_buff->m_last;
@@ -332,6 +335,7 @@ struct iterator
     iterator& operator += (difference_type n) {
         BOOST_CB_ASSERT(is_valid(m_buff)); // check for uninitialized or invalidated iterator
         if (n > 0) {
+            BOOST_CB_ASSERT(m_buff != 0);                // check for uninitialized iterator
             BOOST_CB_ASSERT(m_buff->end() - *this >= n); // check for too large n
             m_it = m_buff->add(m_it, n);
             if (m_it == m_buff->m_last)
@@ -349,6 +353,7 @@ struct iterator
     iterator& operator -= (difference_type n) {
         BOOST_CB_ASSERT(is_valid(m_buff)); // check for uninitialized or invalidated iterator
         if (n > 0) {
+            BOOST_CB_ASSERT(m_buff != 0);                  // check for uninitialized iterator
             BOOST_CB_ASSERT(*this - m_buff->begin() >= n); // check for too large n
             m_it = m_buff->sub(m_it == 0 ? m_buff->m_last : m_it, n);
         } else if (n < 0) {
@@ -384,6 +389,7 @@ struct iterator
     //! Less.
     template <class Traits0>
     bool operator < (const iterator<Buff, Traits0>& it) const {
+        BOOST_CB_ASSERT(m_buff != 0);         // check for uninitialized iterator
         BOOST_CB_ASSERT(is_valid(m_buff));    // check for uninitialized or invalidated iterator
         BOOST_CB_ASSERT(it.is_valid(m_buff)); // check for uninitialized or invalidated iterator
         return linearize_pointer(*this) < linearize_pointer(it);
-- 
2.43.0


From dbbb17d637b46da23e33545012303cebc9a95327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:45 +0000
Subject: [PATCH 17/20] fix: raise a length error when a space optimized buffer
 is asked to exceed the maximum size

---
 .../boost/circular_buffer/space_optimized.hpp | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 1bc09ca..4738fd3 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -259,8 +259,10 @@ public:
     */
     void resize(size_type new_size, param_value_type item = value_type()) {
         if (new_size > size()) {
-            if (new_size > m_capacity_ctrl)
+            if (new_size > m_capacity_ctrl) {
+                check_max_size(new_size);
                 m_capacity_ctrl = capacity_type(new_size, m_capacity_ctrl.min_capacity());
+            }
             insert(end(), new_size - size(), item);
         } else {
             iterator e = end();
@@ -329,8 +331,10 @@ public:
     */
     void rresize(size_type new_size, param_value_type item = value_type()) {
         if (new_size > size()) {
-            if (new_size > m_capacity_ctrl)
+            if (new_size > m_capacity_ctrl) {
+                check_max_size(new_size);
                 m_capacity_ctrl = capacity_type(new_size, m_capacity_ctrl.min_capacity());
+            }
             rinsert(begin(), new_size - size(), item);
         } else {
             rerase(begin(), end() - new_size);
@@ -1530,8 +1534,11 @@ private:
 
     /*! INTERNAL ONLY */
     static size_type ensure_reserve(const capacity_type& capacity_ctrl, size_type new_capacity, size_type buffer_size) {
-        if (buffer_size + new_capacity / 5 >= new_capacity)
+        if (buffer_size + new_capacity / 5 >= new_capacity) {
+            if (new_capacity > capacity_ctrl.capacity() / 2) // avoid overflow
+                return capacity_ctrl;
             new_capacity *= 2; // ensure at least 20% reserve
+        }
         if (new_capacity > capacity_ctrl)
             return capacity_ctrl;
         return new_capacity;
@@ -1550,11 +1557,18 @@ private:
         return ensure_reserve(capacity_ctrl, new_capacity, buffer_size);
     }
 
+    /*! INTERNAL ONLY */
+    void check_max_size(size_type n) const {
+        if (n > max_size())
+            throw_exception(std::length_error("circular_buffer_space_optimized"));
+    }
+
     /*! INTERNAL ONLY */
     void check_low_capacity(size_type n = 1) {
         size_type new_size = size() + (std::min)(n, reserve());
         size_type new_capacity = circular_buffer<T, Alloc>::capacity();
         if (new_size > new_capacity) {
+            check_max_size(new_size);
             if (new_capacity == 0)
                 new_capacity = 1;
             for (; new_size > new_capacity; new_capacity *= 2) {}
-- 
2.43.0


From 98101f588444a9aa1d1218afbdee434ca07f0d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 18/20] fix: value-initialize the default element of
 push_back(), push_front(), insert(pos) and rinsert(pos)

The new element of a scalar or aggregate type had an indeterminate value.
---
 include/boost/circular_buffer/base.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index a256b4d..19a5abc 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -1508,7 +1508,7 @@ public:
             <code>pop_back()</code>, <code>pop_front()</code>
     */
     void push_back() {
-        value_type temp;
+        value_type temp = value_type();
         push_back(boost::move(temp));
     }
 
@@ -1572,7 +1572,7 @@ public:
             <code>pop_back()</code>, <code>pop_front()</code>
     */
     void push_front() {
-        value_type temp;
+        value_type temp = value_type();
         push_front(boost::move(temp));
     }
 
@@ -1731,7 +1731,7 @@ public:
             <code>rinsert(iterator, InputIterator, InputIterator)</code>
     */
     iterator insert(iterator pos) {
-        value_type temp;
+        value_type temp = value_type();
         return insert(pos, boost::move(temp));
     }
 
@@ -1984,7 +1984,7 @@ public:
             <code>insert(iterator, InputIterator, InputIterator)</code>
     */
     iterator rinsert(iterator pos) {
-        value_type temp;
+        value_type temp = value_type();
         return rinsert(pos, boost::move(temp));
     }
 
-- 
2.43.0


From ce59fcf497863eef7bdeff056e11e2b30a594765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 19/20] fix: recognize single-pass iterators whose category
 derives from std::input_iterator_tag

A space optimized buffer constructed or assigned from such a range kept its
whole capacity allocated instead of the documented amount of memory.
---
 include/boost/circular_buffer/space_optimized.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 4738fd3..84f2bb0 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1589,12 +1589,12 @@ private:
     }
 
     /*! INTERNAL ONLY */
-    void reduce_capacity(const true_type&) {
+    void reduce_capacity(const std::input_iterator_tag&) {
         circular_buffer<T, Alloc>::set_capacity((std::max)(m_capacity_ctrl.min_capacity(), size()));
     }
 
     /*! INTERNAL ONLY */
-    void reduce_capacity(const false_type&) {}
+    void reduce_capacity(const std::forward_iterator_tag&) {}
 
     /*! INTERNAL ONLY */
     template <class IntegralType>
@@ -1603,8 +1603,7 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void reduce_capacity(const Iterator&, const false_type&) {
-        reduce_capacity(
-            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category, std::input_iterator_tag >());
+        reduce_capacity(BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
     }
 
     /*! INTERNAL ONLY */
-- 
2.43.0


From d58506efe830775216bdc0b5a250689ff25852b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:55 +0000
Subject: [PATCH 20/20] fix: take the address of elements with
 boost::addressof, so that types overloading operator& work

---
 include/boost/circular_buffer/details.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index 2a626db..1a6edf6 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -17,6 +17,7 @@
 #endif
 
 #include <boost/throw_exception.hpp>
+#include <boost/core/addressof.hpp>
 #include <boost/core/allocator_access.hpp>
 #include <boost/core/pointer_traits.hpp>
 #include <boost/move/move.hpp>
@@ -103,7 +104,7 @@ template <class Pointer, class Value>
 struct item_wrapper {
     Value m_item;
     explicit item_wrapper(Value item) : m_item(item) {}
-    Pointer operator () () const { return &m_item; }
+    Pointer operator () () const { return boost::addressof(m_item); }
 private:
     item_wrapper<Pointer, Value>& operator = (const item_wrapper<Pointer, Value>&); // do not generate
 };
@@ -284,7 +285,7 @@ struct iterator
     }
 
     //! Dereferencing operator.
-    pointer operator -> () const { return &(operator*()); }
+    pointer operator -> () const { return boost::addressof(operator*()); }
 
     //! Difference operator.
     template <class Traits0>
-- 
2.43.0

