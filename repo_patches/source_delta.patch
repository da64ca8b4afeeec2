From 6e12d1fbe35b48ef6f9f1536ce7216d5e8dabdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 001/202] fix: switchable_mutex: dependent member template
 needs the template keyword

---
 include/neolib/core/mutex.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/mutex.hpp b/include/neolib/core/mutex.hpp
index 737b783..c48e400 100644
--- a/include/neolib/core/mutex.hpp
+++ b/include/neolib/core/mutex.hpp
@@ -472,19 +472,19 @@ namespace neolib
     public:
         void set_single_threaded()
         {
-            iActiveMutex.emplace<neolib::null_mutex>();
+            iActiveMutex.template emplace<neolib::null_mutex>();
         }
         void set_multi_threaded()
         {
-            iActiveMutex.emplace<std::recursive_mutex>();
+            iActiveMutex.template emplace<std::recursive_mutex>();
         }
         void set_multi_threaded_profiled()
         {
-            iActiveMutex.emplace<neolib::recursive_mutex<ProfilerTag>>();
+            iActiveMutex.template emplace<neolib::recursive_mutex<ProfilerTag>>();
         }
         void set_multi_threaded_spinlock()
         {
-            iActiveMutex.emplace<neolib::recursive_mutex<ProfilerTag, true>>();
+            iActiveMutex.template emplace<neolib::recursive_mutex<ProfilerTag, true>>();
         }
     public:
         void lock() noexcept final
-- 
2.43.0


From 472ddfa3a73ef33430661aa39453beb05ae00911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:24 +0000
Subject: [PATCH 002/202] fix: array_tree: a moved-from container keeps a nil
 node so it can be used again

---
 include/neolib/core/array_tree.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/neolib/core/array_tree.hpp b/include/neolib/core/array_tree.hpp
index aabab03..7112afb 100644
--- a/include/neolib/core/array_tree.hpp
+++ b/include/neolib/core/array_tree.hpp
@@ -237,16 +237,9 @@ namespace neolib
             set_root_node(iNil);
         }
         array_tree(array_tree&& other) :
-            iAllocator{ std::move(other.iAllocator) },
-            iRoot{ nullptr },
-            iFront{ nullptr },
-            iBack{ nullptr },
-            iNil{ nullptr }
+            array_tree{ other.iAllocator }
         {
-            std::swap(iRoot, other.iRoot);
-            std::swap(iFront, other.iFront);
-            std::swap(iBack, other.iBack);
-            std::swap(iNil, other.iNil);
+            swap(other);
         }
         ~array_tree()
         {
-- 
2.43.0


From bef19f7782d2ae4d139e79e6af28c23fdcf11814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 003/202] fix: segmented_array: inserting a copy of one of the
 array's own elements

---
 include/neolib/core/segmented_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/segmented_array.hpp b/include/neolib/core/segmented_array.hpp
index 1e28731..492c234 100644
--- a/include/neolib/core/segmented_array.hpp
+++ b/include/neolib/core/segmented_array.hpp
@@ -521,9 +521,10 @@ namespace neolib
         iterator insert(const_iterator aPosition, size_type aCount, const value_type& aValue)
         {
             auto pos = aPosition.iContainerPosition;
+            value_type const value{ aValue }; // aValue may be an element of this container
             while (aCount > 0)
             {
-                aPosition = insert(aPosition, &aValue, &aValue+1);
+                aPosition = insert(aPosition, &value, &value + 1);
                 ++aPosition;
                 --aCount;
             }
-- 
2.43.0


From 534900ba9733c1ec1c1b10bba1dee091a63bac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:57 +0000
Subject: [PATCH 004/202] fix: segmented_array: range insertion must not move a
 tail into a segment without room for it

---
 include/neolib/core/segmented_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/segmented_array.hpp b/include/neolib/core/segmented_array.hpp
index 492c234..f418222 100644
--- a/include/neolib/core/segmented_array.hpp
+++ b/include/neolib/core/segmented_array.hpp
@@ -735,7 +735,8 @@ namespace neolib
                 return aPosition.iNode;
             node* lastNode = nullptr;
             if (aCount > 0 && aPosition.iNode && aPosition.iNode->next() != nullptr && aCount <= 
-                available(static_cast<node*>(aPosition.iNode->next())->segment()))
+                available(static_cast<node*>(aPosition.iNode->next())->segment()) &&
+                aPosition.iNode->segment().size() - aPosition.iSegmentPosition <= available(static_cast<node*>(aPosition.iNode->next())->segment()))
             {
                 lastNode = static_cast<node*>(aPosition.iNode->next());
                 aCount -= std::min(aCount, available(lastNode->segment()));
-- 
2.43.0


From 8fa3c2a38f6011d6fcaa2e0c30ec4db70e6d0bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:57 +0000
Subject: [PATCH 005/202] fix: tag_array: construct a node in place so its tag
 refers to that node, not to a temporary

---
 include/neolib/core/tag_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index 847d93e..efc8772 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -692,7 +692,7 @@ namespace neolib
         node* allocate_node(const tag_type& aTag, node* aAfter)
         {
             node* newNode = iAllocator.allocate(1);
-            std::allocator_traits<decltype(iAllocator)>::construct(iAllocator, newNode, node(aTag));
+            std::allocator_traits<decltype(iAllocator)>::construct(iAllocator, newNode, aTag);
             if (aAfter == nullptr)
             {
                 base_type::set_front_node(newNode);
-- 
2.43.0


From ea8e7f1f19c8d86c53dd3f8352e859a56b6709ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:28 +0000
Subject: [PATCH 006/202] fix: tag_array: range insertion must not depend on
 argument evaluation order for the tag

---
 include/neolib/core/tag_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index efc8772..c2065a2 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -457,7 +457,8 @@ namespace neolib
             auto pos = aPosition.iContainerPosition;
             while (aFirst != aLast)
             {
-                aPosition = insert(aFirst.segment().tag(), aPosition, 1, *aFirst++);
+                aPosition = insert(aFirst.segment().tag(), aPosition, 1, *aFirst);
+                ++aFirst;
                 ++aPosition;
             }
             return iterator(*this, pos);
-- 
2.43.0


From 37163fab914bcbd4c34f5c7bc93013fb84a8edfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:28 +0000
Subject: [PATCH 007/202] fix: tag_array: copy construction copies the
 elements, self-assignment keeps them

---
 include/neolib/core/tag_array.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index c2065a2..5940101 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -363,6 +363,11 @@ namespace neolib
         {
             insert(aTag, begin(), aFirst, aLast);
         }
+        tag_array(const tag_array& aOther) :
+            base_type(aOther), iAllocator(aOther.iAllocator), iSize(0)
+        {
+            insert(begin(), aOther.begin(), aOther.end());
+        }
         ~tag_array()
         {
             erase(begin(), end());
@@ -370,6 +375,8 @@ namespace neolib
     public:
         tag_array& operator=(const tag_array& aRhs)
         {
+            if (&aRhs == this)
+                return *this;
             clear();
             insert(begin(), aRhs.begin(), aRhs.end());
             return *this;
-- 
2.43.0


From bfa5b784218472472d30412728d8114bc29481d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 008/202] fix: tag_array: inserting a copy of one of the
 array's own elements

---
 include/neolib/core/tag_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index 5940101..dd8a4f8 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -479,9 +479,10 @@ namespace neolib
         iterator insert(const tag_type& aTag, const_iterator aPosition, size_type aCount, const value_type& aValue)
         {
             auto pos = aPosition.iContainerPosition;
+            value_type const value{ aValue }; // aValue may be an element of this container
             while (aCount > 0)
             {
-                aPosition = insert(aTag, aPosition, &aValue, &aValue+1);
+                aPosition = insert(aTag, aPosition, &value, &value + 1);
                 ++aPosition;
                 --aCount;
             }
-- 
2.43.0


From 04ae8985f67fc686f5839fcb8305e2df3b191221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 009/202] fix: tag_array: range insertion must not move a tail
 into a segment without room for it

---
 include/neolib/core/tag_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index dd8a4f8..84a636e 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -680,7 +680,8 @@ namespace neolib
             node* lastNode = nullptr;
             if (aCount > 0 && aPosition.iNode && aPosition.iNode->next() != nullptr && 
                 aCount <= available(static_cast<node*>(aPosition.iNode->next())->segment()) 
-                && static_cast<node*>(aPosition.iNode->next())->segment().tag() == aTag)
+                && static_cast<node*>(aPosition.iNode->next())->segment().tag() == aTag
+                && aPosition.iNode->segment().size() - aPosition.iSegmentPosition <= available(static_cast<node*>(aPosition.iNode->next())->segment()))
             {
                 if (aPosition.iNode->segment().tag() == aTag || aPosition.iSegmentPosition == aPosition.iNode->segment().size())
                 {
-- 
2.43.0


From 53483686ae1a21fdf508c81a7da90e56ab0fff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 010/202] fix: gap_vector: an insertion larger than the default
 gap needs a gap at least that large

---
 include/neolib/core/gap_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 396d8bb..003cbca 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -745,7 +745,7 @@ namespace neolib
                 if (room() < aCount)
                     grow(aCount);
                 auto const pos = std::next(iData, posIndex);
-                auto const initialGapSize = std::min(room(), DefaultGapSize);
+                auto const initialGapSize = std::min(room(), std::max(DefaultGapSize, aCount));
                 auto src = iDataEnd;
                 auto dest = std::next(iDataEnd, initialGapSize);
                 while (src != pos)
-- 
2.43.0


From a26949ed35f57189af405acc8cc0920e1a681a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 011/202] fix: gap_vector: destroy every element moved out of a
 newly opened gap

---
 include/neolib/core/gap_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 003cbca..b11134f 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -757,7 +757,7 @@ namespace neolib
                     else
                         *dest = std::move(*src);
                 };
-                auto const garbageCount = std::min<size_type>(aCount, iDataEnd - pos);
+                auto const garbageCount = std::min<size_type>(initialGapSize, iDataEnd - pos);
                 for (auto garbage = std::next(pos, garbageCount); garbage != pos;)
                     std::allocator_traits<allocator_type>::destroy(iAlloc, --garbage);
                 std::advance(iDataEnd, initialGapSize);
-- 
2.43.0


From fb8ba2c7a1f76f6b49533b16009cf80f72ad2dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 012/202] fix: gap_vector: destroy the moved-from elements when
 storage is reallocated

---
 include/neolib/core/gap_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index b11134f..d27944f 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -472,6 +472,8 @@ namespace neolib
 
                 iDataEnd = std::uninitialized_move(existingData, existingDataEnd, iData);
 
+                for (auto e = existingData; e != existingDataEnd; ++e)
+                    std::allocator_traits<allocator_type>::destroy(iAlloc, e);
                 std::allocator_traits<allocator_type>::deallocate(iAlloc, existingData, existingCapacity);
             }
             catch(...)
-- 
2.43.0


From 7aa0b2529cc5a244abab706e51bd001d0d61dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 013/202] fix: gap_vector: checked access must compare the
 index with the size before adjusting it for the gap

---
 include/neolib/core/gap_vector.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index d27944f..a92c111 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -342,16 +342,14 @@ namespace neolib
     public:
         constexpr const_reference at(size_type pos) const
         {
-            pos = adjusted_index(pos);
-            if (pos < iDataEnd - iData)
-                return iData[pos];
+            if (pos < size())
+                return iData[adjusted_index(pos)];
             throw std::out_of_range("neolib::gap_vector::at");
         }
         constexpr reference at(size_type pos)
         {
-            pos = adjusted_index(pos);
-            if (pos < iDataEnd - iData)
-                return iData[pos];
+            if (pos < size())
+                return iData[adjusted_index(pos)];
             throw std::out_of_range("neolib::gap_vector::at");
         }
         constexpr const_reference operator[](size_type pos) const
-- 
2.43.0


From a96be183f3a688dc81bb7f6122439eaeee0fcb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 014/202] fix: gap_vector: self-assignment must keep the
 elements

---
 include/neolib/core/gap_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index a92c111..ec15d75 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -294,7 +294,8 @@ namespace neolib
     public:
         constexpr gap_vector& operator=(const gap_vector& other)
         {
-            assign(other.begin(), other.end());
+            if (&other != this)
+                assign(other.begin(), other.end());
             return *this;
         }
         constexpr gap_vector& operator=(gap_vector&& other) noexcept
-- 
2.43.0


From 280ed585524696b48f22c83fadee1872e402e26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 015/202] fix: gap_vector: inserting a copy of one of the
 vector's own elements

---
 include/neolib/core/gap_vector.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index ec15d75..3bf0fbd 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -564,9 +564,7 @@ namespace neolib
         }
         constexpr iterator insert(const_iterator pos, value_type const& value)
         {
-            auto const memory = allocate_from_gap(pos, 1);
-            std::allocator_traits<allocator_type>::construct(iAlloc, memory, value);
-            return iterator{ *this, memory };
+            return insert(pos, value_type{ value }); // value may be an element of this container
         }
         constexpr iterator insert(const_iterator pos, value_type&& value)
         {
@@ -576,8 +574,9 @@ namespace neolib
         }
         constexpr iterator insert(const_iterator pos, size_type count, value_type const& value)
         {
+            value_type const temp{ value }; // value may be an element of this container
             auto const memory = allocate_from_gap(pos, count);
-            std::uninitialized_fill_n(memory, count, value);
+            std::uninitialized_fill_n(memory, count, temp);
             return iterator{ *this, memory };
         }
         template<class InputIt>
-- 
2.43.0


From 8653cce8ebaff2fc41c5e24c32b8d21b092f9f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 016/202] fix: gap_vector: inserting nothing must change
 nothing

---
 include/neolib/core/gap_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 3bf0fbd..e6094ea 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -692,6 +692,8 @@ namespace neolib
         }
         constexpr pointer allocate_from_gap(const_iterator aPosition, size_type aCount)
         {
+            if (aCount == 0)
+                return std::next(begin(), std::distance(cbegin(), aPosition)).base();
             if (near_gap(aPosition) && aCount <= gap_size())
             {
                 auto const posIndex = std::distance(cbegin(), aPosition);
-- 
2.43.0


From 30c50a54a444acbc1a086a58e78cfed4b5c748a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 017/202] fix: segmented_tree: post-increment and
 post-decrement must move the iterator and return its old position

---
 include/neolib/core/segmented_tree.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 31ac047..ee415d4 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -304,10 +304,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_iterator operator++(int) const
+            basic_iterator operator++(int)
             {
                 basic_iterator temp = *this;
-                ++temp;
+                operator++();
                 return temp;
             }
             basic_iterator& operator--()
@@ -327,10 +327,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_iterator operator--(int) const
+            basic_iterator operator--(int)
             {
                 basic_iterator temp = *this;
-                --temp;
+                operator--();
                 return temp;
             }
         public:
@@ -470,10 +470,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_const_iterator operator++(int) const
+            basic_const_iterator operator++(int)
             {
                 basic_const_iterator temp = *this;
-                ++temp;
+                operator++();
                 return temp;
             }
             basic_const_iterator& operator--()
@@ -493,10 +493,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_const_iterator operator--(int) const
+            basic_const_iterator operator--(int)
             {
                 basic_const_iterator temp = *this;
-                --temp;
+                operator--();
                 return temp;
             }
         public:
-- 
2.43.0


From 9c425ba37ff44d678134f23458acb785a88cee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 018/202] fix: segmented_tree: erasing a node must also uncount
 its descendents

---
 include/neolib/core/segmented_tree.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index ee415d4..0fa5da1 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -210,11 +210,11 @@ namespace neolib
                 if (!is_root())
                     parent().increment_descendent_count();
             }
-            void decrement_descendent_count()
+            void decrement_descendent_count(std::size_t aCount)
             {
-                --iDescendentCount;
+                iDescendentCount -= aCount;
                 if (!is_root())
-                    parent().decrement_descendent_count();
+                    parent().decrement_descendent_count(aCount);
             }
             std::size_t skipped_descendent_count() const
             {
@@ -789,8 +789,9 @@ namespace neolib
         {
             auto mutablePos = std::next(begin(), std::distance(cbegin(), pos));
             node& parent = mutablePos.parent_node();
+            auto const erasedCount = mutablePos.descendent_count() + 1;
             auto result = iterator{ parent, parent.children().erase(mutablePos.base()) };
-            parent.decrement_descendent_count();
+            parent.decrement_descendent_count(erasedCount);
             return result;
         }
         void sort()
-- 
2.43.0


From 874d2765b7d22c4c5bd6cac740c7549019d1bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 019/202] fix: segmented_tree: keep the skipped descendent
 counts right under nested skips, insertion and erasure

---
 include/neolib/core/segmented_tree.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 0fa5da1..59f2640 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -208,13 +208,21 @@ namespace neolib
             {
                 ++iDescendentCount;
                 if (!is_root())
+                {
+                    if (iSkipChildren)
+                        parent().increment_skipped_descendent_count(1);
                     parent().increment_descendent_count();
+                }
             }
             void decrement_descendent_count(std::size_t aCount)
             {
                 iDescendentCount -= aCount;
                 if (!is_root())
+                {
+                    if (iSkipChildren)
+                        parent().decrement_skipped_descendent_count(aCount);
                     parent().decrement_descendent_count(aCount);
+                }
             }
             std::size_t skipped_descendent_count() const
             {
@@ -223,13 +231,13 @@ namespace neolib
             void increment_skipped_descendent_count(std::size_t aCount)
             {
                 iSkippedDescendentCount += aCount;
-                if (!is_root())
+                if (!is_root() && !iSkipChildren) // the descendents of a skipped node are already counted by its parent
                     parent().increment_skipped_descendent_count(aCount);
             }
             void decrement_skipped_descendent_count(std::size_t aCount)
             {
                 iSkippedDescendentCount -= aCount;
-                if (!is_root())
+                if (!is_root() && !iSkipChildren) // the descendents of a skipped node are already counted by its parent
                     parent().decrement_skipped_descendent_count(aCount);
             }
             void update_parents(node& parent)
@@ -789,7 +797,9 @@ namespace neolib
         {
             auto mutablePos = std::next(begin(), std::distance(cbegin(), pos));
             node& parent = mutablePos.parent_node();
-            auto const erasedCount = mutablePos.descendent_count() + 1;
+            node& garbage = mutablePos.our_node();
+            auto const erasedCount = garbage.descendent_count() + 1;
+            parent.decrement_skipped_descendent_count(garbage.children_skipped() ? garbage.descendent_count() : garbage.skipped_descendent_count());
             auto result = iterator{ parent, parent.children().erase(mutablePos.base()) };
             parent.decrement_descendent_count(erasedCount);
             return result;
-- 
2.43.0


From de01564d82892660e275f0032c0e1d6fb8e00155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 020/202] fix: indexitor: the total length must count the last
 entry's own width, not its subtree's

---
 include/neolib/core/indexitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/indexitor.hpp b/include/neolib/core/indexitor.hpp
index c8fa962..d42dabd 100644
--- a/include/neolib/core/indexitor.hpp
+++ b/include/neolib/core/indexitor.hpp
@@ -537,7 +537,7 @@ namespace neolib
             if (aPosition.iNode != nullptr)
                 return do_foreign_index(aPosition.iNode) + aPosition.iNode->skip().first;
             else
-                return empty() ? foreign_index_type{} : do_foreign_index(static_cast<const node*>(base_type::back_node())) + base_type::back_node()->foreign_index();
+                return empty() ? foreign_index_type{} : do_foreign_index(static_cast<const node*>(base_type::back_node())) + base_type::back_node()->centre_foreign_index();
         }
         foreign_index_type skip_before(const_iterator aPosition) const
         {
-- 
2.43.0


From b7fe16f45068c595b334e6afd38035815dd25678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 021/202] fix: indexitor: reverse lookup must bound an entry by
 its own width, not its subtree's

---
 include/neolib/core/indexitor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/indexitor.hpp b/include/neolib/core/indexitor.hpp
index d42dabd..52e3048 100644
--- a/include/neolib/core/indexitor.hpp
+++ b/include/neolib/core/indexitor.hpp
@@ -514,7 +514,7 @@ namespace neolib
             auto n = base_type::find_node_by_foreign_index(aForeignIndex, nodeIndex, nodeForeignIndex, aPred);
             if (!n->is_nil() &&
                 !aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->skip().first) &&
-                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->foreign_index() - static_cast<node*>(n)->skip().second))
+                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->centre_foreign_index() - static_cast<node*>(n)->skip().second))
                 return std::make_pair(const_iterator{*this, static_cast<node*>(n)}, nodeForeignIndex + static_cast<node*>(n)->skip().first);
             else
                 return std::make_pair(end(), foreign_index(end()));
@@ -527,7 +527,7 @@ namespace neolib
             auto n = base_type::find_node_by_foreign_index(aForeignIndex, nodeIndex, nodeForeignIndex, aPred);
             if (!n->is_nil() && 
                 !aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->skip().first) &&
-                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->foreign_index() - static_cast<node*>(n)->skip().second))
+                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->centre_foreign_index() - static_cast<node*>(n)->skip().second))
                 return std::make_pair(iterator{*this, static_cast<node*>(n)}, nodeForeignIndex + static_cast<node*>(n)->skip().first);
             else
                 return std::make_pair(end(), foreign_index(end()));
-- 
2.43.0


From f719095f6589329a001a6acaee9b443aaddabda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:19 +0000
Subject: [PATCH 022/202] fix: indexitor: a copy must keep the skips of the
 entries

---
 include/neolib/core/indexitor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/indexitor.hpp b/include/neolib/core/indexitor.hpp
index 52e3048..fd28b62 100644
--- a/include/neolib/core/indexitor.hpp
+++ b/include/neolib/core/indexitor.hpp
@@ -315,7 +315,8 @@ namespace neolib
         indexitor(const indexitor& aOther, const Alloc& aAllocator = Alloc()) :
             iAllocator(aAllocator), iSize(0)
         {
-            insert(begin(), aOther.begin(), aOther.end());
+            for (auto i = aOther.begin(); i != aOther.end(); ++i)
+                push_back(*i, skip_type{ aOther.skip_before(i), aOther.skip_after(i) });
         }
         ~indexitor()
         {
-- 
2.43.0


From 291fabf26473c0b20b0e3ed3b89f1d6070b91aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 023/202] fix: growable_static_vector: swap must exchange
 elements, not pointers into each other's small buffer

---
 include/neolib/core/static_vector.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/neolib/core/static_vector.hpp b/include/neolib/core/static_vector.hpp
index 67bf52a..66ce7fc 100644
--- a/include/neolib/core/static_vector.hpp
+++ b/include/neolib/core/static_vector.hpp
@@ -137,6 +137,13 @@ namespace neolib
         }
         // operations
     public:
+        void swap(growable_static_vector& other)
+        {
+            // the small buffers cannot be exchanged
+            growable_static_vector temp{ std::move(other) };
+            other = std::move(*this);
+            *this = std::move(temp);
+        }
         const std_type& as_std_vector() const
         {
             return *this;
-- 
2.43.0


From b8dcd0c80b0cf1483f33549968da09838ed62c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:32 +0000
Subject: [PATCH 024/202] fix: small_buffer_allocator: allocators sharing a
 buffer compare equal, so that shrink_to_fit may exchange storage

---
 include/neolib/core/small_buffer_allocator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/small_buffer_allocator.hpp b/include/neolib/core/small_buffer_allocator.hpp
index 93fa760..61eb1b4 100644
--- a/include/neolib/core/small_buffer_allocator.hpp
+++ b/include/neolib/core/small_buffer_allocator.hpp
@@ -137,11 +137,11 @@ namespace neolib
     public:
         bool operator==(const basic_small_buffer_allocator& aOther) const
         {
-            return false;
+            return iBuffer == aOther.iBuffer;
         }
         bool operator!=(const basic_small_buffer_allocator& aOther) const
         {
-            return true;
+            return !(*this == aOther);
         }
     public:
         size_type max_size() const
-- 
2.43.0


From 7b0760a3428acc3f02a3b5608c5bc59e64994651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:09 +0000
Subject: [PATCH 025/202] fix: intrusive_sort: the heap must include the last
 element of the range

---
 include/neolib/core/intrusive_sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/intrusive_sort.hpp b/include/neolib/core/intrusive_sort.hpp
index ce97414..a918231 100644
--- a/include/neolib/core/intrusive_sort.hpp
+++ b/include/neolib/core/intrusive_sort.hpp
@@ -111,7 +111,7 @@ namespace neolib
             while (start > first)
             {
                 --start;
-                siftDown(first, start, end, swapper, comp);
+                siftDown(first, start, last, swapper, comp);
             }
         }
             
-- 
2.43.0


From d326b67a8ebd6b7a2356a211e50013fb5496d71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:09 +0000
Subject: [PATCH 026/202] fix: intrusive_sort: sifting down must not form
 iterators beyond the range

---
 include/neolib/core/intrusive_sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/intrusive_sort.hpp b/include/neolib/core/intrusive_sort.hpp
index a918231..6b42a08 100644
--- a/include/neolib/core/intrusive_sort.hpp
+++ b/include/neolib/core/intrusive_sort.hpp
@@ -87,7 +87,7 @@ namespace neolib
         inline void siftDown(RandomIt first, RandomIt start, RandomIt end, Swapper swapper, Compare comp)
         {
             auto root = start;
-            while (heap_left_child(first, root) < end)
+            while (2 * std::distance(first, root) + 1 < std::distance(first, end))
             {
                 auto child = heap_left_child(first, root);
                 auto swap = root;
-- 
2.43.0


From 7f21377596aa3736da4da1c0f0e924a43d5dec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:28 +0000
Subject: [PATCH 027/202] fix: i_iterator: post-increment, post-decrement and
 offset arithmetic on abstract iterators must compile and return the right
 position

---
 include/neolib/core/i_iterator.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/neolib/core/i_iterator.hpp b/include/neolib/core/i_iterator.hpp
index 6170ffc..32ea8e2 100644
--- a/include/neolib/core/i_iterator.hpp
+++ b/include/neolib/core/i_iterator.hpp
@@ -272,28 +272,28 @@ namespace neolib
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline const_iterator<T, Category, Difference, Pointer, Reference> i_const_iterator<T, Category, Difference, Pointer, Reference>::operator++(int) 
     { 
-        const_iterator result = *this;
-        ++result;
+        iterator_wrapper result{ clone() };
+        ++*this;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline const_iterator<T, Category, Difference, Pointer, Reference> i_const_iterator<T, Category, Difference, Pointer, Reference>::operator--(int) 
     { 
-        const_iterator result = *this;
-        --result;
+        iterator_wrapper result{ clone() };
+        --*this;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline random_access_const_iterator<T, Category, Difference, Pointer, Reference> i_random_access_const_iterator<T, Category, Difference, Pointer, Reference>::operator+(difference_type aDifference) const
     {
-        random_access_const_iterator<T, Category, Difference, Pointer, Reference> result = *this;
+        iterator_wrapper result{ static_cast<i_random_access_const_iterator*>(this->clone()) };
         result += aDifference;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline random_access_const_iterator<T, Category, Difference, Pointer, Reference> i_random_access_const_iterator<T, Category, Difference, Pointer, Reference>::operator-(difference_type aDifference) const
     {
-        random_access_const_iterator<T, Category, Difference, Pointer, Reference> result = *this;
+        iterator_wrapper result{ static_cast<i_random_access_const_iterator*>(this->clone()) };
         result -= aDifference;
         return result;
     }
@@ -496,28 +496,28 @@ namespace neolib
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline iterator<T, Category, Difference, Pointer, Reference> i_iterator<T, Category, Difference, Pointer, Reference>::operator++(int) 
     { 
-        iterator result = *this;
-        ++result;
+        iterator_wrapper result{ clone() };
+        ++*this;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline iterator<T, Category, Difference, Pointer, Reference> i_iterator<T, Category, Difference, Pointer, Reference>::operator--(int) 
     { 
-        iterator result = *this;
-        --result;
+        iterator_wrapper result{ clone() };
+        --*this;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline random_access_iterator<T, Category, Difference, Pointer, Reference> i_random_access_iterator<T, Category, Difference, Pointer, Reference>::operator+(difference_type aDifference) const 
     { 
-        random_access_iterator<T, Category, Difference, Pointer, Reference> result = *this;
+        iterator_wrapper result{ static_cast<i_random_access_iterator*>(this->clone()) };
         result += aDifference;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline random_access_iterator<T, Category, Difference, Pointer, Reference> i_random_access_iterator<T, Category, Difference, Pointer, Reference>::operator-(difference_type aDifference) const 
     { 
-        random_access_iterator<T, Category, Difference, Pointer, Reference> result = *this;
+        iterator_wrapper result{ static_cast<i_random_access_iterator*>(this->clone()) };
         result -= aDifference;
         return result;
     }
-- 
2.43.0


From 6fd12611002f2de3aaa836a7f39b918dba644e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:22 +0000
Subject: [PATCH 028/202] fix: list: construction and assignment from an
 abstract list of abstractable elements must compile

---
 include/neolib/core/list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/list.hpp b/include/neolib/core/list.hpp
index aa8f129..2ffad94 100644
--- a/include/neolib/core/list.hpp
+++ b/include/neolib/core/list.hpp
@@ -70,7 +70,7 @@ namespace neolib
             iList{ aOther.begin(), aOther.end() } {}
         list(list&& aOther) : 
             iList{ std::move(aOther.iList) } {}
-        list(const i_list<T>& aOther) : 
+        list(const i_list<abstract_value_type>& aOther) : 
             iList{ aOther.begin(), aOther.end() } {}
         list& operator=(const list& aOther) 
         { 
@@ -82,7 +82,7 @@ namespace neolib
             iList = std::move(aOther.iList); 
             return *this; 
         }
-        list& operator=(const i_list<T>& aOther) 
+        list& operator=(const i_list<abstract_value_type>& aOther) 
         { 
             assign(aOther); 
             return *this; 
-- 
2.43.0


From c34876914406658801030b89cd0f462fa7e00828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:22 +0000
Subject: [PATCH 029/202] fix: string: capacity must report the capacity, not
 the size

---
 include/neolib/core/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string.hpp b/include/neolib/core/string.hpp
index 6dfbc88..44204a5 100644
--- a/include/neolib/core/string.hpp
+++ b/include/neolib/core/string.hpp
@@ -108,7 +108,7 @@ namespace neolib
         abstract_iterator* do_erase(const abstract_const_iterator& aFirst, const abstract_const_iterator& aLast) final { return new container_iterator{ iString.erase(static_cast<const container_const_iterator&>(aFirst), static_cast<const container_const_iterator&>(aLast)) }; }
         // from i_sequence_container
     public:
-        size_type capacity() const final { return iString.size(); }
+        size_type capacity() const final { return iString.capacity(); }
         void reserve(size_type aCapacity) final { iString.reserve(aCapacity); }
         void resize(size_type aSize) final { iString.resize(aSize); }
         void resize(size_type aSize, const value_type& aValue) final { iString.resize(aSize, aValue); }
-- 
2.43.0


From 757c464cc96931c777414fb61b779895857614c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 030/202] fix: set: multiset must be usable: reachable base
 type, find must return its result

---
 include/neolib/core/i_set.hpp | 2 +-
 include/neolib/core/set.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/i_set.hpp b/include/neolib/core/i_set.hpp
index 86374ef..ca044bc 100644
--- a/include/neolib/core/i_set.hpp
+++ b/include/neolib/core/i_set.hpp
@@ -83,7 +83,7 @@ namespace neolib
     public:
         iterator insert(const abstract_value_type& aValue) { return do_insert(aValue); }
         const_iterator find(const abstract_key_type& aKey) const { return do_find(aKey); }
-        iterator find(const abstract_key_type& aKey) { do_find(aKey); }
+        iterator find(const abstract_key_type& aKey) { return do_find(aKey); }
         // todo: equal_range, lower_bound, upper_bound
     private:
         virtual abstract_iterator* do_insert(const abstract_value_type& aValue) = 0;
diff --git a/include/neolib/core/set.hpp b/include/neolib/core/set.hpp
index dc27829..8f96a89 100644
--- a/include/neolib/core/set.hpp
+++ b/include/neolib/core/set.hpp
@@ -145,7 +145,7 @@ namespace neolib
         typedef Alloc allocator_type;
         typedef mutable_multiset<value_type, compare_type, allocator_type> std_type;
     private:
-        typedef typename abstract_type::base_type abstract_container;
+        typedef typename abstract_type::abstract_container abstract_container;
     public:
         typedef typename abstract_type::size_type size_type;
         typedef container::const_iterator<abstract_value_type, typename std_type::const_iterator> container_const_iterator;
-- 
2.43.0


From 2d6221fdd48e65dfaa10984b2f5cfc60018b4690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 031/202] fix: unordered_map: unordered_multimap emplace must
 return the new entry

---
 include/neolib/core/unordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/unordered_map.hpp b/include/neolib/core/unordered_map.hpp
index 28ee4ca..e316ff3 100644
--- a/include/neolib/core/unordered_map.hpp
+++ b/include/neolib/core/unordered_map.hpp
@@ -321,7 +321,7 @@ namespace neolib
         {
             auto result = iMap.emplace(std::forward<Key2>(aKey),
                 typename std_type::mapped_type{ aKey, mapped_type{ std::forward<Args>(aArgs)... } });
-            return result.first->second;
+            return result->second;
         }
     private:
         abstract_iterator* do_insert(const abstract_key_type& aKey, const abstract_mapped_type& aMapped) final
-- 
2.43.0


From 6e6c23ced30e6fb13f63ccc7235b542ecf271aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:52 +0000
Subject: [PATCH 032/202] fix: mutable_set: iterators must be bidirectional so
 that sets can be traversed backwards

---
 include/neolib/core/mutable_set.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/neolib/core/mutable_set.hpp b/include/neolib/core/mutable_set.hpp
index 77053c0..9853d4d 100644
--- a/include/neolib/core/mutable_set.hpp
+++ b/include/neolib/core/mutable_set.hpp
@@ -66,6 +66,10 @@ namespace neolib
             iterator(typename std_type::iterator aIterator) : std_type::iterator(aIterator) {}
             pointer operator->() const { return &std_type::iterator::operator*().second; }
             reference operator*() const { return std_type::iterator::operator*().second; }
+            iterator& operator++() { std_type::iterator::operator++(); return *this; }
+            iterator operator++(int) { iterator old{ *this }; ++*this; return old; }
+            iterator& operator--() { std_type::iterator::operator--(); return *this; }
+            iterator operator--(int) { iterator old{ *this }; --*this; return old; }
         };
         class const_iterator : public std_type::const_iterator
         {
@@ -79,6 +83,10 @@ namespace neolib
             const_iterator(typename std_type::iterator aIterator) : std_type::const_iterator(aIterator) {}
             pointer operator->() const { return &std_type::const_iterator::operator*().second; }
             reference operator*() const { return std_type::const_iterator::operator*().second; }
+            const_iterator& operator++() { std_type::const_iterator::operator++(); return *this; }
+            const_iterator operator++(int) { const_iterator old{ *this }; ++*this; return old; }
+            const_iterator& operator--() { std_type::const_iterator::operator--(); return *this; }
+            const_iterator operator--(int) { const_iterator old{ *this }; --*this; return old; }
         };
         class reverse_iterator : public std_type::reverse_iterator
         {
-- 
2.43.0


From c6eaa036998f5d7b2a910947271b5d215b0e82bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:52 +0000
Subject: [PATCH 033/202] fix: i_pair: entries are deleted through the
 interface, so it needs a virtual destructor

---
 include/neolib/core/i_pair.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/neolib/core/i_pair.hpp b/include/neolib/core/i_pair.hpp
index 0555822..48ba230 100644
--- a/include/neolib/core/i_pair.hpp
+++ b/include/neolib/core/i_pair.hpp
@@ -47,6 +47,7 @@ namespace neolib
         typedef T1 first_type;
         typedef T2 second_type;
     public:
+        virtual ~i_pair() = default;
         virtual i_pair& operator=(const i_pair& aRhs) = 0;
     public:
         virtual const first_type& first() const = 0;
-- 
2.43.0


From ada5188248a23f95d03a04c2cb526712e458a56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 034/202] fix: plugin_variant: which_as_string must compile and
 name the held alternative

---
 include/neolib/plugin/plugin_variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/plugin/plugin_variant.hpp b/include/neolib/plugin/plugin_variant.hpp
index 56d1f0f..9790114 100644
--- a/include/neolib/plugin/plugin_variant.hpp
+++ b/include/neolib/plugin/plugin_variant.hpp
@@ -226,7 +226,7 @@ namespace neolib
         }
         std::string which_as_string() const
         {
-            return ids().enumerators().find(which())->second.to_std_string();
+            return ids().find(static_cast<std::underlying_type_t<id_t>>(which()))->second().to_std_string();
         }
         // implementation
     private:
-- 
2.43.0


From bdf78c75fdcd92f0b6f3af8c531f4d9014bd56ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:10 +0000
Subject: [PATCH 035/202] fix: any: pointer form of any_cast must compile and
 return the held object

---
 include/neolib/core/any.hpp   | 4 ++--
 include/neolib/core/i_any.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/any.hpp b/include/neolib/core/any.hpp
index 250cc06..e8f21b2 100644
--- a/include/neolib/core/any.hpp
+++ b/include/neolib/core/any.hpp
@@ -281,12 +281,12 @@ namespace neolib
     template<class T>
     inline const T* any_cast(const any* operand) noexcept
     {
-        return std::any_cast<const T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T* any_cast(any* operand) noexcept
     {
-        return std::any_cast<T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T unsafe_any_cast(const any& operand) noexcept
diff --git a/include/neolib/core/i_any.hpp b/include/neolib/core/i_any.hpp
index 9846fcb..75a514b 100644
--- a/include/neolib/core/i_any.hpp
+++ b/include/neolib/core/i_any.hpp
@@ -95,12 +95,12 @@ namespace neolib
     template<class T>
     inline const T* any_cast(const i_any* operand) noexcept
     {
-        return std::any_cast<const T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T* any_cast(i_any* operand) noexcept
     {
-        return std::any_cast<T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T unsafe_any_cast(const i_any& operand) noexcept
-- 
2.43.0


From d1bfc9506e7bc37698ce8ae55706206c8fe77c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:34 +0000
Subject: [PATCH 036/202] fix: any: emplace must accept any number of
 constructor arguments

---
 include/neolib/core/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/any.hpp b/include/neolib/core/any.hpp
index e8f21b2..5f19cc0 100644
--- a/include/neolib/core/any.hpp
+++ b/include/neolib/core/any.hpp
@@ -152,7 +152,7 @@ namespace neolib
         template<class ValueType, class... Args>
         std::decay_t<ValueType>& emplace(Args&&... args)
         {
-            auto& result = std::any::emplace<ValueType>(std::forward<Args...>(args...));
+            auto& result = std::any::emplace<ValueType>(std::forward<Args>(args)...);
             cptr = &any::do_cptr<std::decay_t<ValueType>>;
             ptr = &any::do_ptr<std::decay_t<ValueType>>;
             return result;
@@ -160,7 +160,7 @@ namespace neolib
         template<class ValueType, class U, class... Args>
         std::decay_t<ValueType>& emplace(std::initializer_list<U> il, Args&&... args)
         {
-            auto& result = std::any::emplace<ValueType>(il, std::forward<Args...>(args...));
+            auto& result = std::any::emplace<ValueType>(il, std::forward<Args>(args)...);
             cptr = &any::do_cptr<std::decay_t<ValueType>>;
             ptr = &any::do_ptr<std::decay_t<ValueType>>;
             return result;
-- 
2.43.0


From ceec709d05dfc268412bf7c9f80e6c765a4a89e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:15 +0000
Subject: [PATCH 037/202] fix: any: copying from a non-const any must copy the
 value, not nest it (infinite recursion)

---
 include/neolib/core/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/any.hpp b/include/neolib/core/any.hpp
index 5f19cc0..08eb855 100644
--- a/include/neolib/core/any.hpp
+++ b/include/neolib/core/any.hpp
@@ -100,7 +100,7 @@ namespace neolib
             aOther.ptr = nullptr;
         }
         template <typename ValueType>
-        any(ValueType&& aValue, std::enable_if_t<!is_variant_v<std::decay_t<ValueType>>, sfinae> = {}) :
+        any(ValueType&& aValue, std::enable_if_t<!is_variant_v<std::decay_t<ValueType>> && !std::is_base_of_v<i_any, std::decay_t<ValueType>>, sfinae> = {}) :
             std::any{ std::decay_t<ValueType>{aValue} },
             cptr{ &any::do_cptr<std::decay_t<ValueType>> },
             ptr{ &any::do_ptr<std::decay_t<ValueType>> }
@@ -140,7 +140,7 @@ namespace neolib
             aRhs.ptr = nullptr;
             return *this;
         }
-        template<typename ValueType>
+        template<typename ValueType, typename = std::enable_if_t<!std::is_base_of_v<i_any, std::decay_t<ValueType>>, sfinae>>
         any& operator=(ValueType&& aRhs)
         {
             std::any::operator=(std::decay_t<ValueType>{aRhs});
-- 
2.43.0


From c205aa79533ff576e9b43f4f5734bd790b0a25e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:43 +0000
Subject: [PATCH 038/202] fix: optional: reading an empty optional from a
 stream must empty the target

---
 include/neolib/core/optional.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/core/optional.hpp b/include/neolib/core/optional.hpp
index 533428a..7ad6a47 100644
--- a/include/neolib/core/optional.hpp
+++ b/include/neolib/core/optional.hpp
@@ -365,6 +365,8 @@ namespace neolib
             aOptional.emplace();
             aStream >> aOptional.value();
         }
+        else
+            aOptional.reset();
         return aStream;
     }
 }
-- 
2.43.0


From 6536630224383ff9c5773429671c580e3618edc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:10 +0000
Subject: [PATCH 039/202] fix: pair: a pair of scalars must be assignable

---
 include/neolib/core/pair.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/pair.hpp b/include/neolib/core/pair.hpp
index 50e8f90..9455643 100644
--- a/include/neolib/core/pair.hpp
+++ b/include/neolib/core/pair.hpp
@@ -73,8 +73,8 @@ namespace neolib
             if constexpr (!std::is_const_v<first_type> && !std::is_const_v<second_type>)
             {
                 if constexpr (
-                    std::is_assignable_v<decltype(std_type::first), decltype(aOther.first())> &&
-                    std::is_assignable_v<decltype(std_type::second), decltype(aOther.second())>)
+                    std::is_assignable_v<first_type&, decltype(aOther.first())> &&
+                    std::is_assignable_v<second_type&, decltype(aOther.second())>)
                 {
                     std_type::first = aOther.first();
                     std_type::second = aOther.second();
-- 
2.43.0


From 649943891671c6498190b249fccffdc8307e4b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 040/202] fix: plugin_variant: three-way comparison must not
 call itself

---
 include/neolib/plugin/plugin_variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/plugin/plugin_variant.hpp b/include/neolib/plugin/plugin_variant.hpp
index 9790114..55653b1 100644
--- a/include/neolib/plugin/plugin_variant.hpp
+++ b/include/neolib/plugin/plugin_variant.hpp
@@ -189,7 +189,7 @@ namespace neolib
         {
             if (*this == that)
                 return std::partial_ordering::equivalent;
-            else if (*this < that)
+            else if (*this < static_cast<const abstract_type&>(that))
                 return std::partial_ordering::less;
             else
                 return std::partial_ordering::greater;
-- 
2.43.0


From 8212abb50c043f355f0a34d56626ca81e4b2ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:18 +0000
Subject: [PATCH 041/202] fix: variant: assigning an empty abstract variant
 must empty the target

---
 include/neolib/core/variant.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/variant.hpp b/include/neolib/core/variant.hpp
index c07587c..cd7a685 100644
--- a/include/neolib/core/variant.hpp
+++ b/include/neolib/core/variant.hpp
@@ -284,7 +284,10 @@ namespace neolib
         };
         abstract_type& assign(std::size_t aIndex, void const* aPtr) final
         {
-            RuntimeTypeDispatchToEmplace<Types...>::assign(*this, aIndex, aPtr);
+            if (aIndex == 0)
+                std_type::operator=(none_t{});
+            else
+                RuntimeTypeDispatchToEmplace<Types...>::assign(*this, aIndex, aPtr);
             return *this;
         }
     };
-- 
2.43.0


From ea8245baebad0f2744dd08b22e9ec92110f71486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:59 +0000
Subject: [PATCH 042/202] fix: variant: assigning a variant its own value must
 keep it

---
 include/neolib/core/variant.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/variant.hpp b/include/neolib/core/variant.hpp
index cd7a685..de8b58d 100644
--- a/include/neolib/core/variant.hpp
+++ b/include/neolib/core/variant.hpp
@@ -277,7 +277,10 @@ namespace neolib
             static void assign(variant& aVariant, std::size_t aIndex, void const* aPtr) 
             {
                 if (aIndex == 1)
-                    aVariant.template emplace<T>(*static_cast<maybe_abstract_t<T> const*>(aPtr));
+                {
+                    T value(*static_cast<maybe_abstract_t<T> const*>(aPtr)); // the value may be the one held
+                    aVariant.template emplace<T>(std::move(value));
+                }
                 else
                     RuntimeTypeDispatchToEmplace<Ts...>::assign(aVariant, aIndex - 1, aPtr);
             }
-- 
2.43.0


From 339e557dd8b006b466316f448a9492cc2c5ddca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:50 +0000
Subject: [PATCH 043/202] fix: quick_string: a substring must stay within the
 string it views

---
 include/neolib/core/quick_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index b6c6075..1ed3aa4 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -98,7 +98,7 @@ namespace neolib
         {
         }
         basic_quick_string(const basic_quick_string& str, size_type pos, size_type n = npos) :
-            iContents{ view_contents_type{ string_view_type{ str.cbegin() + pos, (n == npos ? str.size() - pos : n) }, str.get_allocator() } } 
+            iContents{ view_contents_type{ str.to_std_string_view().substr(pos, n), str.get_allocator() } } 
         {
         }
         explicit basic_quick_string(const string_view_type& view, const Alloc& a = Alloc()) :
-- 
2.43.0


From 379a6fac47a235e1f528aecfdc16fa2740b7e08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:50 +0000
Subject: [PATCH 044/202] fix: quick_string: assigning a character must give
 that one character

---
 include/neolib/core/quick_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index 1ed3aa4..51a8944 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -157,7 +157,7 @@ namespace neolib
         }
         basic_quick_string& operator=(CharT c) 
         { 
-            iContents = string_type{ 1, c }; 
+            iContents = string_type(1, c); 
             return *this; 
         }
         // iterators
-- 
2.43.0


From e08cd849eed0659acb208cb12f78a9d8d25cff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:50 +0000
Subject: [PATCH 045/202] fix: quick_string: find_last_not_of must not search
 for the last match

---
 include/neolib/core/quick_string.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index 51a8944..671bc00 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -499,37 +499,37 @@ namespace neolib
         size_type find_last_not_of(const basic_quick_string& str, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(str.to_std_string_view(), pos);
+                return get_view_string().find_last_not_of(str.to_std_string_view(), pos);
             else
-                return get_string().find_last_of(str.to_std_string_view(), pos);
+                return get_string().find_last_not_of(str.to_std_string_view(), pos);
         }
         size_type find_last_not_of(const string_type& str, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(str, pos);
+                return get_view_string().find_last_not_of(str, pos);
             else
-                return get_string().find_last_of(str, pos);
+                return get_string().find_last_not_of(str, pos);
         }
         size_type find_last_not_of(const CharT* s, size_type pos, size_type n) const
         {
             if (is_view())
-                return get_view_string().find_last_of(s, pos, n);
+                return get_view_string().find_last_not_of(s, pos, n);
             else
-                return get_string().find_last_of(s, pos, n);
+                return get_string().find_last_not_of(s, pos, n);
         }
         size_type find_last_not_of(const CharT* s, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(s, pos);
+                return get_view_string().find_last_not_of(s, pos);
             else
-                return get_string().find_last_of(s, pos);
+                return get_string().find_last_not_of(s, pos);
         }
         size_type find_last_not_of(CharT c, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(c, pos);
+                return get_view_string().find_last_not_of(c, pos);
             else
-                return get_string().find_last_of(c, pos);
+                return get_string().find_last_not_of(c, pos);
         }
         string_type substr(size_type pos = 0, size_type n = npos) const
         {
-- 
2.43.0


From e45fc17fb12a842d8b3661088e79746f230a67cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:30 +0000
Subject: [PATCH 046/202] fix: quick_string: ordering must agree with compare
 for characters above 127

---
 include/neolib/core/quick_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index 671bc00..baaad20 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -579,7 +579,7 @@ namespace neolib
         }
         std::strong_ordering operator<=>(const basic_quick_string& that) const
         {
-            return std::lexicographical_compare_three_way(begin(), end(), that.begin(), that.end());
+            return compare(that) <=> 0;
         }
         // basic_quick_string specific operations
     public:
-- 
2.43.0


From 01736f4505632ca27b4a591ef5f65d3145bfc1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:43 +0000
Subject: [PATCH 047/202] fix: allocator: max_size must not use a
 std::allocator member removed in C++20

---
 include/neolib/core/allocator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/allocator.hpp b/include/neolib/core/allocator.hpp
index f6cc511..679a395 100644
--- a/include/neolib/core/allocator.hpp
+++ b/include/neolib/core/allocator.hpp
@@ -253,7 +253,7 @@ namespace neolib
         };
 
         // this should really return 1 but popular implementations assume otherwise
-        size_type max_size() const { return std::allocator<T>().max_size(); }
+        size_type max_size() const { return std::allocator_traits<std::allocator<T>>::max_size(std::allocator<T>{}); }
 
         bool operator==(const neo_pool_allocator&) const { return true; }
         bool operator!=(const neo_pool_allocator&) const { return false; }
@@ -365,7 +365,7 @@ namespace neolib
         };
 
         // this should really return 1 but popular implementations assume otherwise
-        size_type max_size() const { return std::allocator<T>().max_size(); }
+        size_type max_size() const { return std::allocator_traits<std::allocator<T>>::max_size(std::allocator<T>{}); }
 
         bool operator==(const reserve_allocator&) const { return true; }
         bool operator!=(const reserve_allocator&) const { return false; }
-- 
2.43.0


From 9f831f1d952195bb3eb66726268dbd41843ebfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:43 +0000
Subject: [PATCH 048/202] fix: allocator: a pool chunk must have room for a
 free list link

---
 include/neolib/core/allocator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/allocator.hpp b/include/neolib/core/allocator.hpp
index 679a395..19b1a32 100644
--- a/include/neolib/core/allocator.hpp
+++ b/include/neolib/core/allocator.hpp
@@ -66,10 +66,10 @@ namespace neolib
 
         static constexpr std::size_t chunk_size()
         {
-            if constexpr (ChunkSize > sizeof(T))
+            if constexpr (ChunkSize > element_size())
                 return ChunkSize;
             else
-                return sizeof(T);
+                return element_size();
         }
 
         static constexpr std::size_t element_size()
-- 
2.43.0


From 908c6e38018fc20686843d13668ecc30fa6e4df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:43 +0000
Subject: [PATCH 049/202] fix: allocator: recycling a pool that has never grown
 must not dereference null

---
 include/neolib/core/allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/allocator.hpp b/include/neolib/core/allocator.hpp
index 19b1a32..8ad55d7 100644
--- a/include/neolib/core/allocator.hpp
+++ b/include/neolib/core/allocator.hpp
@@ -134,7 +134,7 @@ namespace neolib
                         std::memset(start, 0xFF, last - start);
                         reinterpret_cast<link*>(last - element_size())->iNext = (n->iNext != nullptr ? reinterpret_cast<link*>(n->iNext->iMem) : nullptr);
                     }
-                    iHead = reinterpret_cast<link*>(iChunks->iMem);
+                    iHead = (iChunks != nullptr ? reinterpret_cast<link*>(iChunks->iMem) : nullptr);
                 }
             }
             template <typename CharT, typename Traits>
-- 
2.43.0


From 8953b1f669db96d4cfc2c60afbf8bde77bc6d0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:00 +0000
Subject: [PATCH 050/202] fix: jar: resetting a cookie reference must release
 it

---
 include/neolib/core/jar.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/jar.hpp b/include/neolib/core/jar.hpp
index a65b8e3..c53750d 100644
--- a/include/neolib/core/jar.hpp
+++ b/include/neolib/core/jar.hpp
@@ -139,6 +139,7 @@ namespace neolib
         }
         void reset() const
         {
+            release();
             iConsumer = nullptr;
             iCookie = no_cookie;
         }
@@ -153,8 +154,11 @@ namespace neolib
         {
             if (!valid())
                 return;
-            consumer().release(cookie(), count);
-            reset();
+            auto& releaseFrom = consumer();
+            auto const releaseCookie = cookie();
+            iConsumer = nullptr;
+            iCookie = no_cookie;
+            releaseFrom.release(releaseCookie, count);
         }
         bool have_consumer() const
         {
-- 
2.43.0


From 035c679f2b23afbd2ceaf79e30fb2e8646b1d3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:39 +0000
Subject: [PATCH 051/202] fix: jar: running out of cookies must not make the
 cookie counter wrap around

---
 include/neolib/core/jar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/jar.hpp b/include/neolib/core/jar.hpp
index c53750d..7f6fb34 100644
--- a/include/neolib/core/jar.hpp
+++ b/include/neolib/core/jar.hpp
@@ -414,9 +414,9 @@ namespace neolib
                 return nextCookie;
             }
             auto const nextCookie = static_cast<cookie_type>(static_cast<underlying_cookie_type>(iNextAvailableCookie.load()) + underlying_cookie_type{ 1 });
-            iNextAvailableCookie = nextCookie;
             if (nextCookie == INVALID_COOKIE)
                 throw cookies_exhausted();
+            iNextAvailableCookie = nextCookie;
             assert(std::find(free_cookies().begin(), free_cookies().end(), nextCookie) == free_cookies().end());
             return nextCookie;
         }
@@ -734,9 +734,9 @@ namespace neolib
                 return nextCookie;
             }
             auto const nextCookie = static_cast<cookie_type>(static_cast<underlying_cookie_type>(iNextAvailableCookie.load()) + underlying_cookie_type{ 1 });
-            iNextAvailableCookie = nextCookie;
             if (nextCookie == INVALID_COOKIE)
                 throw cookies_exhausted();
+            iNextAvailableCookie = nextCookie;
             assert(std::find(free_cookies().begin(), free_cookies().end(), nextCookie) == free_cookies().end());
             return nextCookie;
         }
-- 
2.43.0


From f57e87ce5a918331738a9a60d57448bee3940e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:00 +0000
Subject: [PATCH 052/202] fix: reference_counted: moving between references to
 one object must not leak or lose a count

---
 include/neolib/core/reference_counted.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/neolib/core/reference_counted.hpp b/include/neolib/core/reference_counted.hpp
index 9c9dfc9..00d3766 100644
--- a/include/neolib/core/reference_counted.hpp
+++ b/include/neolib/core/reference_counted.hpp
@@ -437,7 +437,20 @@ namespace neolib
         void reset(Interface2* aPtr, Interface2* aManagedPtr, bool aReferenceCounted, bool aAddRef)
         {
             if (iPtr == aPtr && iManagedPtr == aManagedPtr)
+            {
+                if (iManagedPtr && aReferenceCounted)
+                {
+                    if (!iReferenceCounted)
+                    {
+                        iReferenceCounted = true;
+                        if (aAddRef)
+                            iManagedPtr->add_ref();
+                    }
+                    else if (!aAddRef)
+                        iManagedPtr->release();
+                }
                 return;
+            }
             Interface* compatiblePtr = dynamic_cast<Interface*>(aPtr);
             if (aPtr != nullptr && compatiblePtr == nullptr)
                 throw std::bad_cast();
-- 
2.43.0


From d3223795045fecfe8a99108a4327560b14d68d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:25 +0000
Subject: [PATCH 053/202] fix: reference_counted: a reference moved from inside
 the object it replaces must not be touched after that object dies

---
 include/neolib/core/reference_counted.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/reference_counted.hpp b/include/neolib/core/reference_counted.hpp
index 00d3766..9963342 100644
--- a/include/neolib/core/reference_counted.hpp
+++ b/include/neolib/core/reference_counted.hpp
@@ -311,8 +311,9 @@ namespace neolib
         {
             if (&aOther == this)
                 return *this;
-            reset(aOther.ptr(), aOther.managed_ptr(), aOther.reference_counted(), false);
-            aOther.detach();
+            ref_ptr temp{ std::move(aOther) };
+            reset(temp.ptr(), temp.managed_ptr(), temp.reference_counted(), false);
+            temp.detach();
             return *this;
         }
         ref_ptr& operator=(abstract_type const& aOther)
@@ -331,8 +332,9 @@ namespace neolib
         template <typename Interface2, typename = std::enable_if_t<std::is_base_of_v<Interface, Interface2>, sfinae>>
         ref_ptr& operator=(ref_ptr<Interface2>&& aOther)
         {
-            reset(aOther.ptr(), aOther.managed_ptr(), aOther.reference_counted(), false);
-            aOther.detach();
+            ref_ptr<Interface2> temp{ std::move(aOther) };
+            reset(temp.ptr(), temp.managed_ptr(), temp.reference_counted(), false);
+            temp.detach();
             return *this;
         }
         template <typename Interface2, typename = std::enable_if_t<std::is_base_of_v<Interface, Interface2>, sfinae>>
-- 
2.43.0


From 6fa149219445e32be2ff4acb24fd01e33aefd89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:31 +0000
Subject: [PATCH 054/202] fix: lifetime: a copied object must have a lifetime
 of its own

---
 include/neolib/core/lifetime.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/neolib/core/lifetime.hpp b/include/neolib/core/lifetime.hpp
index 3f36f7f..6fbfd57 100644
--- a/include/neolib/core/lifetime.hpp
+++ b/include/neolib/core/lifetime.hpp
@@ -110,7 +110,10 @@ namespace neolib
         typedef neolib::destroyed_flag destroyed_flag;
     public:
         lifetime(lifetime_state aState = lifetime_state::Alive);
+        lifetime(lifetime const& aOther);
         virtual ~lifetime();
+    public:
+        lifetime& operator=(lifetime const& aOther);
     public:
         lifetime_state object_state() const final;
         i_ref_ptr<i_lifetime_control_block>& object_state_ptr() const final;
@@ -130,6 +133,19 @@ namespace neolib
     {
     }
 
+    template <typename Base>
+    inline lifetime<Base>::lifetime(lifetime const& aOther) : 
+        Base{ aOther }, iState{ make_ref<lifetime_control_block>(aOther.is_creating() ? lifetime_state::Creating : lifetime_state::Alive) }
+    {
+    }
+
+    template <typename Base>
+    inline lifetime<Base>& lifetime<Base>::operator=(lifetime const& aOther)
+    {
+        Base::operator=(aOther);
+        return *this;
+    }
+
     template <typename Base>
     inline lifetime<Base>::~lifetime()
     {
-- 
2.43.0


From b71459f4e15d20788f04755e66d2555d19dd9461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:41 +0000
Subject: [PATCH 055/202] fix: event: a trigger must not leave its slots and
 acceptance behind for the next one

---
 include/neolib/task/event.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index f003f02..9b721e4 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -175,6 +175,7 @@ namespace neolib
             if (workLists.size() < stack)
                 workLists.push_back(std::make_unique<work_list>());
             auto& workList = *workLists[stack - 1];
+            scoped_cleanup clearWorkList{ [&]() { workList.slots.clear(); workList.accepted = false; } };
             scoped_pointer<work_list> activeWorkList{ iActiveWorkList, &workList };
             workList.slots = iSlots;
             lock.unlock();
@@ -188,15 +189,9 @@ namespace neolib
                 if (destroyed)
                     return trigger_result::Unaccepted;
                 if (workList.accepted)
-                {
-                    workList.accepted = false;
                     return trigger_result::Accepted;
-                }
             }
 
-            workList.slots.clear();
-            workList.accepted = false;
-
             return trigger_result::Unaccepted;
         }
         void async_trigger(Args... aArgs) const final
-- 
2.43.0


From 9c18a47402471717aa81350906ee5f6c425d3f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:41 +0000
Subject: [PATCH 056/202] fix: event: an event destroyed by one of its slots
 must not be written to afterwards

---
 include/neolib/task/event.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index 9b721e4..4da9d80 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -176,7 +176,9 @@ namespace neolib
                 workLists.push_back(std::make_unique<work_list>());
             auto& workList = *workLists[stack - 1];
             scoped_cleanup clearWorkList{ [&]() { workList.slots.clear(); workList.accepted = false; } };
-            scoped_pointer<work_list> activeWorkList{ iActiveWorkList, &workList };
+            auto const outerWorkList = iActiveWorkList;
+            scoped_cleanup restoreWorkList{ [&]() { if (!destroyed) iActiveWorkList = outerWorkList; } };
+            iActiveWorkList = &workList;
             workList.slots = iSlots;
             lock.unlock();
 
-- 
2.43.0


From 7ef9766d56937854e2de9e441c9c09f85cee6bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:03 +0000
Subject: [PATCH 057/202] fix: event: destroying an event must release every
 slot it holds

---
 include/neolib/task/event.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index 4da9d80..583963c 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -141,6 +141,7 @@ namespace neolib
         }
         ~event()
         {
+            base_type::set_destroyed(); // slots going with us must not try to remove themselves from us
         }
     public:
         event& operator=(event const& aOther)
-- 
2.43.0


From 317ad80cffeff9c0bf39e560bc3e649cb1162f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:28 +0000
Subject: [PATCH 058/202] fix: event: assigning a sink to itself must keep its
 subscriptions

---
 include/neolib/task/i_event.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/task/i_event.hpp b/include/neolib/task/i_event.hpp
index 7ef64c5..29270a9 100644
--- a/include/neolib/task/i_event.hpp
+++ b/include/neolib/task/i_event.hpp
@@ -298,6 +298,8 @@ namespace neolib
     public:
         sink& operator=(sink const& aOther)
         {
+            if (&aOther == this)
+                return *this;
             std::scoped_lock lock{ iMutex, aOther.iMutex };
             clear();
             iSlots = aOther.iSlots;
-- 
2.43.0


From 0e71f37bed7f7ee6e2af33102700a694687070f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 059/202] fix: event: assigning to an event must release every
 slot it held

---
 include/neolib/task/event.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index 583963c..e5d36ff 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -146,9 +146,10 @@ namespace neolib
     public:
         event& operator=(event const& aOther)
         {
+            slot_list oldSlots;
             std::unique_lock lock{ iMutex };
             iTriggerType = aOther.iTriggerType;
-            iSlots = {};
+            iSlots.swap(oldSlots);
             iHasSlots = false;
             iActiveWorkList = {};
             return *this;
-- 
2.43.0


From 7fc3fcd663029510e00d7b1b5e17f0e3ed1dad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:12 +0000
Subject: [PATCH 060/202] fix: event: a slot removed while the event is being
 delivered must not be called

---
 include/neolib/task/event.hpp   | 2 ++
 include/neolib/task/i_event.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index e5d36ff..53a4be4 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -186,6 +186,8 @@ namespace neolib
 
             for (auto slot : workList.slots)
             {
+                if (slot->is_destroyed())
+                    continue; // removed by a slot called before it
                 if (slot->call_in_emitter_thread() || slot->call_thread() == std::this_thread::get_id())
                     slot->call(aArgs...);
                 else
diff --git a/include/neolib/task/i_event.hpp b/include/neolib/task/i_event.hpp
index 29270a9..9077de7 100644
--- a/include/neolib/task/i_event.hpp
+++ b/include/neolib/task/i_event.hpp
@@ -233,6 +233,7 @@ namespace neolib
         {
             if (!iEventDestroyed)
                 event().remove_slot(*this);
+            this->set_destroyed(); // whoever still holds us must not call us
         }
         i_event<Args...> const& event() const final
         {
-- 
2.43.0


From 77ba5230bbcd1b8480d74f032e1f3fa51ebd0e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:26 +0000
Subject: [PATCH 061/202] fix: async_event: a slot that throws while events are
 pumped must not cause others to be repeated

---
 include/neolib/task/event.hpp |  3 ++-
 src/task/event.cpp            | 28 +++++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index 53a4be4..1791c9c 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -71,10 +71,11 @@ namespace neolib
             destroyed_flag slotDestroyed;
             std::function<void()> callback;
         };
+        typedef std::pair<void const*, void const*> queue_key;
         struct queue
         {
             std::vector<queue_entry> multiple;
-            boost::unordered_flat_map<std::pair<void const*, void const*>, queue_entry> single;
+            boost::unordered_flat_map<queue_key, queue_entry> single;
         };
     public:
         static async_event_queue& instance();
diff --git a/src/task/event.cpp b/src/task/event.cpp
index 173b55f..d566721 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -110,17 +110,35 @@ namespace neolib
             workLists.push_back(std::make_unique<work_list>());
         auto& workList = *workLists[stack - 1];
         workList.swap(iQueue.multiple);
+        auto const multipleCount = workList.size();
         for (auto const& se : iQueue.single)
             workList.push_back(se.second);
         iQueue.single.clear();
         lock.unlock();
         bool didSome = false;
-        for (auto& entry : workList)
+        std::size_t next = 0;
+        try
         {
-            if (entry.eventDestroyed || entry.slotDestroyed)
-                continue;
-            entry.callback();
-            didSome = true;
+            while (next != workList.size())
+            {
+                auto& entry = workList[next++];
+                if (entry.eventDestroyed || entry.slotDestroyed)
+                    continue;
+                entry.callback();
+                didSome = true;
+            }
+        }
+        catch (...)
+        {
+            // the entries after the one that threw are still to be delivered, before any queued since
+            lock.lock();
+            auto const nextMultiple = std::min(next, multipleCount);
+            iQueue.multiple.insert(iQueue.multiple.begin(), workList.begin() + nextMultiple, workList.begin() + multipleCount);
+            for (next = std::max(next, multipleCount); next != workList.size(); ++next)
+                iQueue.single.emplace(queue_key{ workList[next].event, workList[next].slot }, workList[next]);
+            lock.unlock();
+            workList.clear();
+            throw;
         }
         workList.clear();
         return didSome;
-- 
2.43.0


From 015caae546e3b4037521c63c4fb61e3cd8f5ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:46 +0000
Subject: [PATCH 062/202] fix: async_event: destroying another queue of a
 thread must not unregister the thread's queue

---
 src/task/event.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/event.cpp b/src/task/event.cpp
index d566721..ed601f8 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -86,7 +86,7 @@ namespace neolib
     {
         std::scoped_lock lock{ iMutex };
         auto existing = instance_map().find(std::this_thread::get_id());
-        if (existing != instance_map().end())
+        if (existing != instance_map().end() && existing->second == this)
             instance_map().erase(existing);
         if (iTask && !*iTaskDestroyed)
             iTask->unregister_event_queue(*this);
-- 
2.43.0


From 45bb42ca6a755bd658fd94461dff93dc33e0aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:13 +0000
Subject: [PATCH 063/202] fix: async_event: a slot removed while it is being
 called must live until the call returns

---
 include/neolib/task/event.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index 1791c9c..c4861d1 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -91,6 +91,7 @@ namespace neolib
             std::tuple<Args...> args{ aArgs... };
             auto callback = [&, args]()
             {
+                ref_ptr<i_slot<Args...>> const keepSlot{ &aSlot }; // the slot may be removed by its own call
                 std::apply([&](Args... aArgs) { aSlot.call(aArgs...); }, args);
             };
             bool const single = (aNoDuplicates || aSlot.stateless());
-- 
2.43.0


From b1ec2feca48c5f34a2bb17a661235a06351cab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:54 +0000
Subject: [PATCH 064/202] fix: async_event: a new slot must get its calls when
 a removed one at the same address still has one queued

---
 include/neolib/task/event.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index c4861d1..c8daa61 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -102,7 +102,8 @@ namespace neolib
                 auto existing = iQueue.single.find(key);
                 if (existing != iQueue.single.end())
                 {
-                    existing->second.callback = callback;
+                    // replaced whole as it may be for an earlier event or slot, gone since, that had the same address
+                    existing->second = queue_entry{ &event, event, &aSlot, aSlot, callback };
                     return;
                 }
                 iQueue.single.emplace(key, queue_entry{ &event, event, &aSlot, aSlot, callback });
-- 
2.43.0


From 0da627f22763f448fbd32edb1a9a23def42b0a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 065/202] fix: async_event: threads starting and ending must
 not race on the map of queues

---
 src/task/event.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/task/event.cpp b/src/task/event.cpp
index ed601f8..e82c537 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -77,17 +77,20 @@ namespace neolib
 
     async_event_queue::async_event_queue()
     {
-        std::scoped_lock lock{ iMutex };
+        std::scoped_lock lock{ instance_map().mutex };
         if (instance_map().find(std::this_thread::get_id()) == instance_map().end())
             instance_map()[std::this_thread::get_id()] = this;
     }
 
     async_event_queue::~async_event_queue()
     {
+        {
+            std::scoped_lock lock{ instance_map().mutex };
+            auto existing = instance_map().find(std::this_thread::get_id());
+            if (existing != instance_map().end() && existing->second == this)
+                instance_map().erase(existing);
+        }
         std::scoped_lock lock{ iMutex };
-        auto existing = instance_map().find(std::this_thread::get_id());
-        if (existing != instance_map().end() && existing->second == this)
-            instance_map().erase(existing);
         if (iTask && !*iTaskDestroyed)
             iTask->unregister_event_queue(*this);
     }
-- 
2.43.0


From adad9a0ac282c50e04a50951f392324ff09f9403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:28 +0000
Subject: [PATCH 066/202] fix: event: accepting an event must affect the
 trigger of the accepting thread only

---
 include/neolib/task/event.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index c8daa61..80e076f 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -131,6 +131,7 @@ namespace neolib
         typedef std::vector<ref_ptr<i_slot<Args...>>> slot_list;
         struct work_list
         {
+            event const* source = nullptr;
             slot_list slots;
             bool accepted = false;
         };
@@ -154,7 +155,6 @@ namespace neolib
             iTriggerType = aOther.iTriggerType;
             iSlots.swap(oldSlots);
             iHasSlots = false;
-            iActiveWorkList = {};
             return *this;
         }
     public:
@@ -180,10 +180,9 @@ namespace neolib
             if (workLists.size() < stack)
                 workLists.push_back(std::make_unique<work_list>());
             auto& workList = *workLists[stack - 1];
-            scoped_cleanup clearWorkList{ [&]() { workList.slots.clear(); workList.accepted = false; } };
-            auto const outerWorkList = iActiveWorkList;
-            scoped_cleanup restoreWorkList{ [&]() { if (!destroyed) iActiveWorkList = outerWorkList; } };
-            iActiveWorkList = &workList;
+            active_work_lists().push_back(&workList);
+            scoped_cleanup clearWorkList{ [&]() { active_work_lists().pop_back(); workList.slots.clear(); workList.accepted = false; } };
+            workList.source = this;
             workList.slots = iSlots;
             lock.unlock();
 
@@ -211,9 +210,10 @@ namespace neolib
         }
         void accept() const final
         {
-            std::unique_lock lock{ iMutex };
-            if (iActiveWorkList)
-                iActiveWorkList->accepted = true;
+            auto const& workLists = active_work_lists();
+            auto const current = std::find_if(workLists.rbegin(), workLists.rend(), [&](auto const& w) { return w->source == this; });
+            if (current != workLists.rend())
+                (*current)->accepted = true;
         }
     public:
         bool has_slots() const final
@@ -238,6 +238,12 @@ namespace neolib
             iHasSlots = !iSlots.empty();
         }
     private:
+        // the triggers this thread is in the middle of; other threads may be triggering the same event
+        static std::vector<work_list*>& active_work_lists()
+        {
+            thread_local std::vector<work_list*> tActiveWorkLists;
+            return tActiveWorkLists;
+        }
         void async_trigger(async_event_queue& aQueue, i_slot<Args...>& aSlot, bool aNoDuplicates, Args... aArgs) const
         {
             aQueue.enqueue<Args...>(aSlot, aNoDuplicates, aArgs...);
@@ -247,7 +253,6 @@ namespace neolib
         neolib::trigger_type iTriggerType = neolib::trigger_type::Synchronous;
         mutable slot_list iSlots;
         mutable std::atomic<bool> iHasSlots = false;
-        mutable work_list* iActiveWorkList = nullptr;
     };
 
     #define define_declared_event( name, declName, ... ) \
-- 
2.43.0


From 93429ce078b4cde510e19f54d371de83255f8313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:45 +0000
Subject: [PATCH 067/202] fix: thread_pool: every thread in wait() must be
 woken when the pool becomes idle or stops

---
 src/task/thread_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/thread_pool.cpp b/src/task/thread_pool.cpp
index aeb5f77..117c10c 100644
--- a/src/task/thread_pool.cpp
+++ b/src/task/thread_pool.cpp
@@ -322,7 +322,7 @@ namespace neolib
                 std::unique_lock lk(iWaitMutex);
                 iStopped = true;
             }
-            iWaitConditionVariable.notify_one();
+            iWaitConditionVariable.notify_all();
         }
     }
 
@@ -355,7 +355,7 @@ namespace neolib
     void thread_pool::thread_gone_idle()
     {
         update_idle();
-        iWaitConditionVariable.notify_one();
+        iWaitConditionVariable.notify_all();
     }
 
     void thread_pool::thread_gone_busy()
-- 
2.43.0


From dede059603ce80d4603a0739a78017093868ffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:00 +0000
Subject: [PATCH 068/202] fix: thread_pool: an exception thrown by a function
 given to run() must reach its future

---
 include/neolib/task/task.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/neolib/task/task.hpp b/include/neolib/task/task.hpp
index b812a18..9a0512c 100644
--- a/include/neolib/task/task.hpp
+++ b/include/neolib/task/task.hpp
@@ -97,7 +97,14 @@ namespace neolib
         }
         void run(yield_type) override
         {
-            iPromise.set_value(iFunction());
+            try
+            {
+                iPromise.set_value(iFunction());
+            }
+            catch (...)
+            {
+                iPromise.set_exception(std::current_exception());
+            }
         }
     private:
         std::function<T()> iFunction;
@@ -107,7 +114,14 @@ namespace neolib
     template <>
     inline void function_task<void>::run(yield_type)
     {
-        iFunction();
-        iPromise.set_value();
+        try
+        {
+            iFunction();
+            iPromise.set_value();
+        }
+        catch (...)
+        {
+            iPromise.set_exception(std::current_exception());
+        }
     }
 }
-- 
2.43.0


From 5d03a5f98389d7ce8a08dfecb82c1c9f08d4c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:12 +0000
Subject: [PATCH 069/202] fix: thread: asking for the id of a thread that is
 starting must not race with it

---
 include/neolib/task/thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/task/thread.hpp b/include/neolib/task/thread.hpp
index 47306b2..1cd7e0e 100644
--- a/include/neolib/task/thread.hpp
+++ b/include/neolib/task/thread.hpp
@@ -135,7 +135,7 @@ namespace neolib
         std::optional<std::function<void()>> iExecFunction;
         std::atomic<thread_state> iState;
         thread_object_pointer iThreadObject;
-        id_type iId;
+        std::atomic<id_type> iId;
         std::atomic<std::size_t> iBlockedCount;
     };
 }
-- 
2.43.0


From a0afbe1c032c1abe570db4168a2b97b833d70043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:33 +0000
Subject: [PATCH 070/202] fix: timer: a cancelled timer is no longer waiting

cancel() left iWaiting set, so waiting() stayed true and reset(), set_duration()
with immediate effect and disable() followed by again() threw already_waiting.
---
 src/task/timer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index 67773f6..c7f31f8 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -157,6 +157,7 @@ namespace neolib
             return;
         if (!iTaskDestroying && !iTaskDestroyed)
             timer_object().cancel();
+        iWaiting = false;
     }
 
     void timer::reset()
-- 
2.43.0


From 4c293f71da1e3dc8e5a5c073073b0b052380e8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:15 +0000
Subject: [PATCH 071/202] fix: timer: a throwing callback leaves no stale work
 list behind

The thread-local list of subscribers (or timer objects) being polled was only
cleared on the normal path, so after an exception the next poll called them again.
---
 src/task/async_task.cpp   | 4 +---
 src/task/timer_object.cpp | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/task/async_task.cpp b/src/task/async_task.cpp
index c36a999..9bb56cb 100644
--- a/src/task/async_task.cpp
+++ b/src/task/async_task.cpp
@@ -158,6 +158,7 @@ namespace neolib
             if (workListStack.size() < stack)
                 workListStack.push_back(std::make_unique<work_list_t>());
             work_list_t& workList = *workListStack[stack - 1];
+            scoped_cleanup clearWorkList{ [&workList]() { workList.clear(); } };
 
             std::unique_lock lock{ iMutex };
             iObjects.erase(std::remove_if(iObjects.begin(), iObjects.end(), [](auto const& o) { return o == nullptr; }), iObjects.end());
@@ -176,9 +177,6 @@ namespace neolib
                 }
             }
 
-            lock.lock();
-            workList.clear();
-
             if (!didSomeThisIteration)
                 break;
 
diff --git a/src/task/timer_object.cpp b/src/task/timer_object.cpp
index 4121be2..38137e1 100644
--- a/src/task/timer_object.cpp
+++ b/src/task/timer_object.cpp
@@ -114,6 +114,7 @@ namespace neolib
         if (workListStack.size() < stack)
             workListStack.push_back(std::make_unique<work_list_t>());
         work_list_t& workList = *workListStack[stack - 1];
+        scoped_cleanup clearWorkList{ [&workList]() { workList.clear(); } };
 
         std::unique_lock lock{ iSubscribersMutex };
         std::transform(iSubscribers.begin(), iSubscribers.end(), std::back_inserter(workList), [](auto const& s) { return std::make_pair(s, destroyed_flag{ *s }); });
@@ -125,8 +126,6 @@ namespace neolib
             auto& subscriber = *s.first;
             subscriber.timer_expired(*this);
         }
-        lock.lock();
-        workList.clear();
         return true;
     }
 
-- 
2.43.0


From fc1f7698c7f8bbd9054607b29d69d0cbc4bac523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:39 +0000
Subject: [PATCH 072/202] fix: timer: a callback may destroy its own timer

The std::function being called was a member of the timer it destroyed.
---
 src/task/timer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index c7f31f8..0a29ddf 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -273,6 +273,7 @@ namespace neolib
 
     void callback_timer::ready()
     {
-        iCallback(*this);
+        auto callback = iCallback; // the callback may destroy this timer
+        callback(*this);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 2f20799d71712410a7734c806a4443fbbbd3b077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:54 +0000
Subject: [PATCH 073/202] fix: timer: a callback that destroys its timer may
 throw

The handler wrote to the destroyed timer on its way out.
---
 src/task/timer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index 0a29ddf..1b3a95e 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -231,10 +231,10 @@ namespace neolib
         iWaiting = false;
         if (ok)
         {
+            destroyed_flag destroyed{ *this };
             try
             {
                 iInReady = true;
-                destroyed_flag destroyed{ *this };
                 if (std::uncaught_exceptions() == 0)
                     ready();
                 else
@@ -245,6 +245,8 @@ namespace neolib
             }
             catch (...)
             {
+                if (destroyed)
+                    throw;
                 iInReady = false;
                 throw;
             }
-- 
2.43.0


From 7db22bdf74632973e769ab0aff73b52f6f8f86bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:29 +0000
Subject: [PATCH 074/202] fix: time_slice: a slice pushed while a task is
 running has its own tasks

Entering a task in a nested slice looked the outer slice's running task up in
the inner slice and threw std::out_of_range.
---
 include/neolib/task/time_slice.hpp | 1 +
 src/task/time_slice.cpp            | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/task/time_slice.hpp b/include/neolib/task/time_slice.hpp
index 839903d..3970a7a 100644
--- a/include/neolib/task/time_slice.hpp
+++ b/include/neolib/task/time_slice.hpp
@@ -78,6 +78,7 @@ namespace neolib
             std::chrono::microseconds duration = {};
             std::optional<std::size_t> splitCount;
             std::unordered_map<time_slice_task*, task> tasks;
+            std::vector<time_slice_task*> entered;
         };
     public:
         bool active() const final;
diff --git a/src/task/time_slice.cpp b/src/task/time_slice.cpp
index 118cd40..3399575 100644
--- a/src/task/time_slice.cpp
+++ b/src/task/time_slice.cpp
@@ -133,8 +133,7 @@ namespace neolib
 
     std::vector<time_slice_task*>& time_slice::tasks()
     {
-        thread_local std::vector<time_slice_task*> tTasks;
-        return tTasks;
+        return slices().back()->entered;
     }
 }
 
-- 
2.43.0


From 5deabfc735de2a46c127c2ccbd761bcf0a51dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:56 +0000
Subject: [PATCH 075/202] fix: thread: cancelling or aborting a thread ends it,
 not the process

The cancellation exception thrown by cancel(), block() and unblock() was rethrown
out of the thread's entry point, which calls std::terminate.
---
 src/task/thread.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 2b606be..f655697 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -396,6 +396,9 @@ namespace neolib
                     iState = thread_state::Finished;
             }
         }
+        catch(const cancellation&)
+        {
+        }
         catch(const std::exception& aException)
         {
             std::cerr << std::string("Thread terminating due to an uncaught exception being thrown (") + aException.what() + ")." << std::endl;
-- 
2.43.0


From 00583b6eec4f0494fa5fee934ae6baf9003aede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:23 +0000
Subject: [PATCH 076/202] fix: waitable_event: a timed wait neither loses nor
 invents a signal

A signal arriving as the wait timed out was cleared without being reported, and
a wake-up whose signal another thread had taken was reported as one.
---
 src/task/waitable_event.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/task/waitable_event.cpp b/src/task/waitable_event.cpp
index 10835fe..e5690b9 100644
--- a/src/task/waitable_event.cpp
+++ b/src/task/waitable_event.cpp
@@ -73,13 +73,11 @@ namespace neolib
 
     bool waitable_event::wait(uint32_t aTimeout_ms) const
     {
-        bool result = true;
         std::unique_lock<std::mutex> lock(iMutex);
         ++iTotalWaiting;
-        if (!iReady)
-            result = (iCondVar.wait_for(lock, std::chrono::milliseconds(aTimeout_ms)) == std::cv_status::no_timeout);
+        bool const result = iCondVar.wait_for(lock, std::chrono::milliseconds(aTimeout_ms), [this]() { return iReady; });
         --iTotalWaiting;
-        if (result && iSignalType == SignalOne || iTotalWaiting == 0)
+        if (result && (iSignalType == SignalOne || iTotalWaiting == 0))
             iReady = false;
         return result;
     }
-- 
2.43.0


From c39ce46a0b1270f8517246f0be885c6263bc64fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:32 +0000
Subject: [PATCH 077/202] fix: thread: a thread that was never started can be
 destroyed

The destructor aborted it, which throws thread_not_started and so terminates.
---
 src/task/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index f655697..129666b 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -124,7 +124,7 @@ namespace neolib
 
     thread::~thread()
     {
-        if (!finished() && !using_existing_thread())
+        if (started() && !finished() && !using_existing_thread())
             abort();
         if (has_thread_object() && thread_object().joinable())
             thread_object().join();
-- 
2.43.0


From a16c4b99e3c7c50ea37c17c1aa0fe5434f9fbbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:47 +0000
Subject: [PATCH 078/202] fix: thread: a wait for a thread with events or
 messages ends when the thread does

A std::thread keeps its id until joined, so a finished thread was never ready
and wait(event list) and msg_wait() did not return.
---
 src/task/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 129666b..d097e4b 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -361,7 +361,7 @@ namespace neolib
 
     bool thread::waitable_ready() const noexcept
     {
-        return thread_object().get_id() == std::thread::id();
+        return finished();
     }
 
     void thread::exec_preamble()
-- 
2.43.0


From fb1bd7663912df87c97eff5685be32aa91327b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:21 +0000
Subject: [PATCH 079/202] fix: utf: a four-byte sequence beyond U+10FFFF is
 malformed

It was accepted as valid UTF-8, decoded to a value that is not a code point and
turned into a meaningless pair of UTF-16 units.
---
 include/neolib/core/string_utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utf.hpp b/include/neolib/core/string_utf.hpp
index 1a7eaaf..13190d9 100644
--- a/include/neolib/core/string_utf.hpp
+++ b/include/neolib/core/string_utf.hpp
@@ -246,7 +246,7 @@ namespace neolib
                 }
             }
             static const unicode_char_t sMaxCodePoint[] = { 0x7F, 0x7FF, 0xFFFF, 0x10FFFF };
-            if (unicodeChar <= sMaxCodePoint[aCount - 1]) // overlong sequences
+            if (unicodeChar <= sMaxCodePoint[aCount - 1] || unicodeChar > 0x10FFFF) // overlong sequences, not a code point
             {
                 aCurrent = start;
                 return INVALID_CHAR32;
-- 
2.43.0


From 0fbfcfb4f1cde063d3145b2290cfe24bfc99736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:21 +0000
Subject: [PATCH 080/202] fix: utf: U+FFFD itself is well-formed text

check_utf8 took a correctly encoded replacement character for a decoding error.
---
 include/neolib/core/string_utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utf.hpp b/include/neolib/core/string_utf.hpp
index 13190d9..67f0a84 100644
--- a/include/neolib/core/string_utf.hpp
+++ b/include/neolib/core/string_utf.hpp
@@ -422,7 +422,7 @@ namespace neolib
                     uch = detail::next_utf_bits(static_cast<unicode_char_t>(nch & ~0xF8), 3, i, end);
                 else
                     uch = INVALID_CHAR32;
-                if (i == old || uch == INVALID_CHAR32)
+                if (i == old) // not advanced over a well-formed sequence
                     return false;
             }
         }
-- 
2.43.0


From 4cbdb4393566b0c4025400a0af7b15fd0b31454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:21 +0000
Subject: [PATCH 081/202] fix: string_utils: replacing an empty search text
 returns

replace_string found the empty text everywhere and never ended.
---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 5198ddb..0af0678 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -244,7 +244,7 @@ namespace neolib
     template <typename CharT, typename Traits, typename Alloc>
     inline bool replace_string(std::basic_string<CharT, Traits, Alloc>& aString, const std::basic_string<CharT, Traits, Alloc>& aSearch, const std::basic_string<CharT, Traits, Alloc>& aReplace, string_spans* aSpans, const string_span::type* aNewSpanType)
     {
-        if (aString.empty())
+        if (aString.empty() || aSearch.empty())
             return false;
         typedef std::basic_string<CharT, Traits, Alloc> string;
         typename string::size_type pos = 0;
-- 
2.43.0


From 2cc837eb7965aef10323c24f3daf4b75f5e2c252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:44 +0000
Subject: [PATCH 082/202] fix: string_utils: tokens() keeps to the maximum
 number of tokens

An empty piece after the last permitted token was appended all the same.
---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 0af0678..49499e7 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -164,7 +164,7 @@ namespace neolib
             aTokens.push_back(value_type{ b, e });
             b = e;
         }
-        else if (b == e && last && last.value() != e && !aSkipEmptyTokens)
+        else if (b == e && last && last.value() != e && !aSkipEmptyTokens && (aMaxTokens == 0 || tokens < aMaxTokens))
             aTokens.push_back(value_type{ e, e });
         return b;
     }
-- 
2.43.0


From 370e49aaefdc92c21d4bff13dac2680073229920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:43 +0000
Subject: [PATCH 083/202] fix: wildcard: wildcard_match tries every expansion
 of an asterisk

Each run between asterisks was matched at its first occurrence only, so '*ab'
did not match 'abab'; an empty pattern matched everything.
---
 include/neolib/core/string_utils.hpp | 41 +++++++++++++++-------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 49499e7..92a4ab2 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -527,28 +527,31 @@ namespace neolib
     template <typename CharT, typename Traits, typename FwdIter>
     inline bool do_wildcard_match(FwdIter aTextBegin, FwdIter aTextEnd, FwdIter aPatternBegin, FwdIter aPatternEnd)
     {
-        typedef std::pair<FwdIter, FwdIter> substring_t;
-        typedef std::vector<substring_t> substrings_t;
-        substrings_t substrings;
-        CharT any_string = detail::wildcard_match_any_string<CharT>();
-        neolib::tokens(aPatternBegin, aPatternEnd, &any_string, &any_string + 1, substrings);
-
-        FwdIter previousMatch = aTextBegin;
-        for (typename substrings_t::const_iterator i = substrings.begin(); i != substrings.end();)
+        CharT const any_string = detail::wildcard_match_any_string<CharT>();
+        detail::wildcard_compare<Traits> const compare;
+        FwdIter text = aTextBegin;
+        FwdIter pattern = aPatternBegin;
+        std::optional<std::pair<FwdIter, FwdIter>> retry; // text and pattern following the last any_string
+        while (text != aTextEnd)
         {
-            substring_t theSubstring = *i++;
-            FwdIter nextMatch = std::search(previousMatch, aTextEnd, theSubstring.first, theSubstring.second, detail::wildcard_compare<Traits>());
-            if (nextMatch == aTextEnd)
-                return false;
-            if (theSubstring.first == aPatternBegin && nextMatch != aTextBegin)
-                return false;
-            if (theSubstring.second == aPatternEnd && !std::equal(aTextEnd - (theSubstring.second - theSubstring.first), aTextEnd, theSubstring.first, detail::wildcard_compare<Traits>()))
-                return false;
-            if (theSubstring.second == aPatternEnd && aTextEnd - nextMatch != theSubstring.second - theSubstring.first)
+            if (pattern != aPatternEnd && Traits::eq(*pattern, any_string))
+                retry.emplace(text, ++pattern);
+            else if (pattern != aPatternEnd && compare(*text, *pattern))
+            {
+                ++text;
+                ++pattern;
+            }
+            else if (retry) // let the last any_string match one more character
+            {
+                text = ++retry->first;
+                pattern = retry->second;
+            }
+            else
                 return false;
-            previousMatch = nextMatch + (theSubstring.second - theSubstring.first);
         }
-        return true;
+        while (pattern != aPatternEnd && Traits::eq(*pattern, any_string))
+            ++pattern;
+        return pattern == aPatternEnd;
     }
 
     template <typename CharT, typename FwdIter>
-- 
2.43.0


From baae076bed3bc4a8784311b66e18b978c72f214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:57 +0000
Subject: [PATCH 084/202] fix: wildcard: the string form of wildcard_match
 compiles

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 92a4ab2..c0524c6 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -563,7 +563,7 @@ namespace neolib
     template <typename CharT, typename Traits, typename Alloc>
     inline bool wildcard_match(const std::basic_string<CharT, Traits, Alloc>& aText, const std::basic_string<CharT, Traits, Alloc>& aPattern)
     {
-        return do_wildcard_match<CharT, Traits, std::basic_string<CharT, Traits, Alloc>::const_iterator>(aText.begin(), aText.end(), aPattern.begin(), aPattern.end());
+        return do_wildcard_match<CharT, Traits, typename std::basic_string<CharT, Traits, Alloc>::const_iterator>(aText.begin(), aText.end(), aPattern.begin(), aPattern.end());
     }
 
     class string_search_fsa
-- 
2.43.0


From fd7c30a9a6d547117f72c2c17e26903dab1d01e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:16 +0000
Subject: [PATCH 085/202] fix: string_search: a match always has a beginning

A single-character pattern, and * on its own, reported a null begin pointer.
---
 src/core/string_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/string_utils.cpp b/src/core/string_utils.cpp
index 818186f..19d2a0d 100644
--- a/src/core/string_utils.cpp
+++ b/src/core/string_utils.cpp
@@ -84,7 +84,7 @@ namespace neolib
             auto wildcard = aState.match.find('*');
             if (wildcard != aState.match.end() && wildcard->second.match.empty())
                 for (auto const& action : wildcard->second.actions)
-                    aResults.insert(std::make_tuple(&action, aStart, aEnd));
+                    aResults.insert(std::make_tuple(&action, aStart == nullptr ? aEnd : aStart, aEnd));
             return;
         }
         auto const nonWildcardSearch = { aState.match.find(*aNext), aState.match.find('?'), aState.match.find('*') };
@@ -95,7 +95,7 @@ namespace neolib
                 bool const wildcard = (existing->first == '*');
                 if (!wildcard && existing->second.match.empty())
                     for (auto const& action : existing->second.actions)
-                        aResults.insert(std::make_tuple(&action, aStart, std::next(aNext)));
+                        aResults.insert(std::make_tuple(&action, aStart == nullptr ? aNext : aStart, std::next(aNext)));
                 search(existing->second, aStart == nullptr ? aNext : aStart, std::next(aNext), aEnd, false, aResults);
                 if (wildcard)
                 {
-- 
2.43.0


From d62b3602dbb2b932d6dbd063e612fb2827975ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:22 +0000
Subject: [PATCH 086/202] fix: string_search: a pattern is found when another
 one continues it

With 'fo' and 'foo' both added, 'fo' was never reported.
---
 src/core/string_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/string_utils.cpp b/src/core/string_utils.cpp
index 19d2a0d..af89796 100644
--- a/src/core/string_utils.cpp
+++ b/src/core/string_utils.cpp
@@ -82,7 +82,7 @@ namespace neolib
         if (aNext == aEnd)
         {
             auto wildcard = aState.match.find('*');
-            if (wildcard != aState.match.end() && wildcard->second.match.empty())
+            if (wildcard != aState.match.end())
                 for (auto const& action : wildcard->second.actions)
                     aResults.insert(std::make_tuple(&action, aStart == nullptr ? aEnd : aStart, aEnd));
             return;
@@ -93,7 +93,7 @@ namespace neolib
             if (existing != aState.match.end())
             {
                 bool const wildcard = (existing->first == '*');
-                if (!wildcard && existing->second.match.empty())
+                if (!wildcard)
                     for (auto const& action : existing->second.actions)
                         aResults.insert(std::make_tuple(&action, aStart == nullptr ? aNext : aStart, std::next(aNext)));
                 search(existing->second, aStart == nullptr ? aNext : aStart, std::next(aNext), aEnd, false, aResults);
-- 
2.43.0


From 5d904f8c8e2ac235f29b2ea9a0f9010c968cf612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:38 +0000
Subject: [PATCH 087/202] fix: string_search: several asterisks at the end of a
 pattern match nothing too

---
 src/core/string_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/string_utils.cpp b/src/core/string_utils.cpp
index af89796..bc7b412 100644
--- a/src/core/string_utils.cpp
+++ b/src/core/string_utils.cpp
@@ -83,8 +83,11 @@ namespace neolib
         {
             auto wildcard = aState.match.find('*');
             if (wildcard != aState.match.end())
+            {
                 for (auto const& action : wildcard->second.actions)
                     aResults.insert(std::make_tuple(&action, aStart == nullptr ? aEnd : aStart, aEnd));
+                search(wildcard->second, aStart, aNext, aEnd, false, aResults);
+            }
             return;
         }
         auto const nonWildcardSearch = { aState.match.find(*aNext), aState.match.find('?'), aState.match.find('*') };
-- 
2.43.0


From 9da7c3213e9a7ac7f8db44f15d35d7753f0c898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:42 +0000
Subject: [PATCH 088/202] fix: numeric: string_to_number reads the whole text

It accepted any text starting with digits, so that 1.5 became the integer 1 and
a double was hardly ever returned.
---
 include/neolib/core/string_numeric.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/neolib/core/string_numeric.hpp b/include/neolib/core/string_numeric.hpp
index 2f941cd..a1412d0 100644
--- a/include/neolib/core/string_numeric.hpp
+++ b/include/neolib/core/string_numeric.hpp
@@ -120,29 +120,34 @@ namespace neolib
     inline number_t string_to_number(const std::basic_string_view<CharT, Traits>& aStringView)
     {
         namespace qi = boost::spirit::qi;
+        auto const parse = [&](auto const& aParser, auto& aResult)
+        {
+            auto next = aStringView.begin();
+            return qi::parse(next, aStringView.end(), aParser, aResult) && next == aStringView.end();
+        };
         {
             std::int32_t result = 0;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::int_, result))
+            if (parse(qi::int_, result))
                 return result;
         }
         {
             std::uint32_t result = 0u;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::uint_, result))
+            if (parse(qi::uint_, result))
                 return result;
         }
         {
             std::int64_t result = 0ll;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::long_long, result))
+            if (parse(qi::long_long, result))
                 return result;
         }
         {
             std::uint64_t result = 0ull;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::ulong_long, result))
+            if (parse(qi::ulong_long, result))
                 return result;
         }
         {
             double result = 0.0;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::double_, result))
+            if (parse(qi::double_, result))
                 return result;
         }
         throw string_to_number_failure();
-- 
2.43.0


From ba905ccfbec6e72754386ec0d93b3d0593e9a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:42 +0000
Subject: [PATCH 089/202] fix: numeric: string_to_int32 reads decimals as the
 other conversions do

The result of the parse was discarded and strtol used instead, so that values
out of range were truncated.
---
 include/neolib/core/string_numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_numeric.hpp b/include/neolib/core/string_numeric.hpp
index a1412d0..27a69e1 100644
--- a/include/neolib/core/string_numeric.hpp
+++ b/include/neolib/core/string_numeric.hpp
@@ -57,7 +57,7 @@ namespace neolib
     inline std::int32_t string_to_int32(const std::basic_string<CharT, Traits, Alloc>& aString, int aBase = 10)
     {
         if (aBase == 10) // todo: does spirit provide other bases?
-            string_to_int32(static_cast<std::basic_string_view<CharT, Traits>>(aString));
+            return string_to_int32(static_cast<std::basic_string_view<CharT, Traits>>(aString));
         return strtol(aString.c_str(), nullptr, aBase);
     }
         
-- 
2.43.0


From 58ba20cd879886d5f30f6bb4573a85655b581c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:20 +0000
Subject: [PATCH 090/202] fix: numeric: zero padding goes between the sign and
 the digits

Padded negative numbers came out as 00-5, which does not denote a number.
---
 include/neolib/core/string_numeric.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/core/string_numeric.hpp b/include/neolib/core/string_numeric.hpp
index 27a69e1..900378b 100644
--- a/include/neolib/core/string_numeric.hpp
+++ b/include/neolib/core/string_numeric.hpp
@@ -189,6 +189,8 @@ namespace neolib
         {
             string.width(aWidth);
             string.fill(aFill);
+            if (aFill == CharT{ '0' })
+                string << std::internal; // the sign precedes the zeros
         }
         string << aInt;
         return string.str();
@@ -232,6 +234,8 @@ namespace neolib
         {
             string.width(aWidth);
             string.fill(aFill);
+            if (aFill == CharT{ '0' })
+                string << std::internal; // the sign precedes the zeros
         }
         string << aDouble;
         return string.str();
-- 
2.43.0


From 21558f5e9e40897b8ea89ff642c0e5531334cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:22 +0000
Subject: [PATCH 091/202] fix: numeric: a negative 64-bit integer survives base
 16 and 8

---
 include/neolib/core/string_numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_numeric.hpp b/include/neolib/core/string_numeric.hpp
index 900378b..e80ebea 100644
--- a/include/neolib/core/string_numeric.hpp
+++ b/include/neolib/core/string_numeric.hpp
@@ -75,7 +75,7 @@ namespace neolib
     {
         if (aBase == 10) // todo: does spirit provide other bases?
             return string_to_int64(static_cast<std::basic_string_view<CharT, Traits>>(aString));
-        return strtoll(aString.c_str(), nullptr, aBase);
+        return static_cast<std::int64_t>(strtoull(aString.c_str(), nullptr, aBase));
     }
 
     template <typename CharT, typename Traits>
-- 
2.43.0


From b5a2a1fec6ef19eaed08ad6e70c12707a4b63eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:41 +0000
Subject: [PATCH 092/202] fix: format: an automatically numbered placeholder
 takes its own argument

---
 include/neolib/core/string_utils.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index c0524c6..4959a4e 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -678,7 +678,10 @@ namespace neolib
                         argId = static_cast<std::size_t>(std::stoi(std::string{ std::next(nextArg), argIdEnd }));
                     if (argId)
                         result.args.emplace_back(argId.value(), result.size());
-                    result.append(std::vformat(std::string_view{ nextArg, nextArgEnd }, std::make_format_args(aArgs...)));
+                    std::string placeholder{ nextArg, nextArgEnd };
+                    if (argIdEnd - nextArg == 1)
+                        placeholder.insert(1, std::to_string(argId.value())); // vformat would start counting again
+                    result.append(std::vformat(placeholder, std::make_format_args(aArgs...)));
                     if (argId)
                         result.args.back().end = result.size();
                 }
-- 
2.43.0


From 69c36291763bb4f28e8cdd428184bcf5623d9179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:41 +0000
Subject: [PATCH 093/202] fix: format: a placeholder may contain nested
 placeholders

---
 include/neolib/core/string_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 4959a4e..6bcfc67 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -662,7 +662,8 @@ namespace neolib
             else
             {
                 result.append(next, nextArg);
-                auto nextArgEnd = std::find(nextArg, aFormat.end(), '}');
+                std::size_t level = 0u;
+                auto nextArgEnd = std::find_if(nextArg, aFormat.end(), [&](char ch) { return ch == '{' ? (++level, false) : ch == '}' && --level == 0u; });
                 if (nextArgEnd == aFormat.end())
                     throw std::format_error("neolib::format");
                 else
-- 
2.43.0


From e6516a7666c72deae1b011d26d0d55a60c501492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:41 +0000
Subject: [PATCH 094/202] fix: format: a percent sign that starts no URL escape
 is kept

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 6bcfc67..1ed6df0 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -467,7 +467,7 @@ namespace neolib
     {
         std::string ret = aString;
         for (std::string::size_type pos = 0; pos != ret.length(); ++pos)
-            if (ret[pos] == '%' && pos + 2 < ret.length())
+            if (ret[pos] == '%' && pos + 2 < ret.length() && std::isxdigit(static_cast<unsigned char>(ret[pos + 1])) && std::isxdigit(static_cast<unsigned char>(ret[pos + 2])))
                 ret.replace(pos, 3, 1, static_cast<char>(string_to_int32(ret.substr(pos + 1, 2), 16)));
         return ret;
     }
-- 
2.43.0


From 1eadf7fbb6a581d1f2921bc2a744afde850f4c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 095/202] fix: json: reading a document discards what the
 previous one left behind

---
 include/neolib/file/json.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 15b3593..c7c0614 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1107,6 +1107,9 @@ namespace neolib
     inline void basic_json<Syntax, Alloc, CharT, Traits, CharAlloc>::clear()
     {
         iCursor = decltype(iCursor){};
+        iErrorText.clear();
+        iCompositeValueStack.clear();
+        iRoot.reset(); // its strings may refer to the document
         document().clear();
         iUtf16HighSurrogate = std::nullopt;
     }
-- 
2.43.0


From 3ca7e4749a30bd252b537a1b51fc9a855f8849ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 096/202] fix: json: an element's text ends where it was
 decoded to, not where an earlier one was

---
 include/neolib/file/json.hpp |  1 +
 include/neolib/file/json.inl | 24 ++++++++++++++++--------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/neolib/file/json.hpp b/include/neolib/file/json.hpp
index 895e832..ef8fc84 100644
--- a/include/neolib/file/json.hpp
+++ b/include/neolib/file/json.hpp
@@ -979,6 +979,7 @@ namespace neolib
             type_e auxType;
             character_type* start;
             character_type* auxStart;
+            bool decoded; ///< the element's text ends at the output position
             typename json_value::name_t name;
         };
     public:
diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index c7c0614..42c7b26 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1290,8 +1290,11 @@ namespace neolib
                         skippingComment = (nextState == json_detail::state::CppStyleComment || nextState == json_detail::state::CStyleComment);
                         if (skippingComment)
                         {
-                            if (tempState != nextState && currentElement.start != nullptr && nextOutputCh == currentElement.start)
+                            if (tempState != nextState && currentElement.start != nullptr && !currentElement.decoded)
+                            {
                                 nextOutputCh = (currentState != json_detail::state::StringEnd ? nextInputCh : nextInputCh - 1);
+                                currentElement.decoded = true;
+                            }
                             tempState = nextState;
                             increment_cursor();
                         }
@@ -1349,7 +1352,7 @@ namespace neolib
                         case json_detail::state::String:
                         case json_detail::state::Keyword:
                         case json_detail::state::Name:
-                            if (currentElement.start != nextOutputCh)
+                            if (currentElement.decoded)
                                 *nextOutputCh++ = *nextInputCh;
                             // fall through
                         default:
@@ -1373,20 +1376,20 @@ namespace neolib
                         break;
                     case element::String:
                         {
-                            json_string newString{ currentElement.start, currentElement.start == nextOutputCh ? nextInputCh - 1 : nextOutputCh };
+                            json_string newString{ currentElement.start, !currentElement.decoded ? nextInputCh - 1 : nextOutputCh };
                             buy_value(currentElement, newString);
                         }
                         break;
                     case element::Name:
                         if (context() == json_type::Object && std::holds_alternative<std::monostate>(currentElement.name))
                         {
-                            json_string newString{ currentElement.start, currentElement.start == nextOutputCh ? nextInputCh - 1 : nextOutputCh };
+                            json_string newString{ currentElement.start, !currentElement.decoded ? nextInputCh - 1 : nextOutputCh };
                             currentElement.name = newString;
                         }
                         break;
                     case element::Number:
                         {
-                            json_string newNumber{ currentElement.start, currentElement.start == nextOutputCh ? nextInputCh : nextOutputCh };
+                            json_string newNumber{ currentElement.start, !currentElement.decoded ? nextInputCh : nextOutputCh };
                             if (currentState == json_detail::state::NumberInt)
                             {
                                 std::visit([this, &currentElement](auto&& arg)
@@ -1406,7 +1409,7 @@ namespace neolib
                                 { "false", json_detail::keyword::False },
                                 { "null",  json_detail::keyword::Null },
                             };
-                            auto keywordText = json_string{ currentElement.start, currentElement.start == nextOutputCh ? nextInputCh : nextOutputCh };
+                            auto keywordText = json_string{ currentElement.start, !currentElement.decoded ? nextInputCh : nextOutputCh };
                             auto keyword = sJsonKeywords.find(keywordText);
                             if (keyword != sJsonKeywords.end())
                             {
@@ -1493,6 +1496,7 @@ namespace neolib
                     }
                     currentElement.type = element::Unknown;
                     currentElement.start = nullptr;
+                    currentElement.decoded = false;
                     break;
                 case json_detail::state::String:
                     currentElement.type = element::String;
@@ -1508,9 +1512,10 @@ namespace neolib
                         json_string newName
                         {
                             currentElement.start,
-                            currentElement.start == nextOutputCh ? nextInputCh : nextOutputCh
+                            !currentElement.decoded ? nextInputCh : nextOutputCh
                         };
                         currentElement.name = newName;
+                        currentElement.decoded = false;
                     }
                     break;
                 case json_detail::state::NumberIntNeedDigit:
@@ -1550,8 +1555,11 @@ namespace neolib
                     }
                     break;
                 case json_detail::state::Escaped:
-                    if (nextOutputCh == currentElement.start)
+                    if (!currentElement.decoded)
+                    {
                         nextOutputCh = (currentState != json_detail::state::EscapingUnicode ? nextInputCh - 1 : nextInputCh - 2);
+                        currentElement.decoded = true;
+                    }
                     if (currentState == json_detail::state::Escaping)
                     {
                         switch (*(nextInputCh))
-- 
2.43.0


From 5412ef1255990cc31f80a6453cc064f05a3a8100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 097/202] fix: json: a Unicode escape in a name stays in the
 name

---
 include/neolib/file/json.inl | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 42c7b26..62863f4 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1609,8 +1609,7 @@ namespace neolib
                             {
                                 iUtf16HighSurrogate = u16ch;
                                 currentElement.auxType = element::Unknown;
-                                currentElement.type = element::String;
-                                nextState = json_detail::state::String;
+                                nextState = currentElement.type == element::String ? json_detail::state::String : json_detail::state::Name;
                                 break;
                             }
                             else if (utf16::is_low_surrogate(u16ch) && iUtf16HighSurrogate != std::nullopt)
@@ -1664,7 +1663,7 @@ namespace neolib
                                 }
                             }
                             currentElement.auxType = element::Unknown;
-                            nextState = json_detail::state::String;
+                            nextState = currentElement.type == element::String ? json_detail::state::String : json_detail::state::Name;
                         }
                         else
                         {
-- 
2.43.0


From 2ebf25cd524abab6c5bdee7b974e6a3c82cfa410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 098/202] fix: json_parse: brackets must balance

---
 include/neolib/file/json.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 62863f4..9a2095e 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1338,7 +1338,7 @@ namespace neolib
                     create_parse_error();
                     return false;
                 case json_detail::state::EndOfParse:
-                    if (nextInputCh != &iDocumentText.back())
+                    if (nextInputCh != &iDocumentText.back() || !iCompositeValueStack.empty())
                     {
                         create_parse_error();
                         return false;
@@ -1452,7 +1452,14 @@ namespace neolib
                         break;
                     }
                     if (nextState == json_detail::state::Close)
+                    {
+                        if (context() != (*nextInputCh == '}' ? json_type::Object : json_type::Array))
+                        {
+                            create_parse_error("unbalanced brackets");
+                            return false;
+                        }
                         iCompositeValueStack.pop_back();
+                    }
                     switch (context())
                     {
                     case json_type::Object:
-- 
2.43.0


From a07fda30dbcea4065be4a63013ea2e0f9ccd7c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 099/202] fix: json_parse: nothing but white space follows the
 document's value

---
 include/neolib/file/json.inl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 9a2095e..8781bdc 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1497,8 +1497,12 @@ namespace neolib
                             nextState = json_detail::state::Value;
                         break;
                     default:
-                        if (nextState == json_detail::state::Close)
-                            nextState = json_detail::state::Value;
+                        if (*nextInputCh == ',')
+                        {
+                            create_parse_error("unexpected separator");
+                            return false;
+                        }
+                        nextState = json_detail::state::Element;
                         break;
                     }
                     currentElement.type = element::Unknown;
-- 
2.43.0


From 4d2788d18fc3f0b602825717196e5deacbc3354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 100/202] fix: json_parse: a document without a value is not a
 document

---
 include/neolib/file/json.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 8781bdc..98bd5d1 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1343,6 +1343,11 @@ namespace neolib
                         create_parse_error();
                         return false;
                     }
+                    if (!has_root())
+                    {
+                        create_parse_error("empty document");
+                        return false;
+                    }
                     return true;
                 default:
                     if (currentState == nextState)
-- 
2.43.0


From a33f90847fa0fbe97e04745f42f547ba4b53eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 101/202] fix: json: an unquoted name is followed by a colon

---
 include/neolib/file/json.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 98bd5d1..d22ebde 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1480,7 +1480,7 @@ namespace neolib
                                     nextState = json_detail::state::NeedObjectValueSeparator;
                             }
                             else
-                                nextState = json_detail::state::NeedValue;
+                                nextState = *nextInputCh != ':' ? json_detail::state::EndName : json_detail::state::NeedValue;
                         }
                         else
                         {
-- 
2.43.0


From 6a78ab2e88c8bb99f5194cdb3042a8c9783e1e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 102/202] fix: json_parse: a field needs a value before its
 object is closed

---
 include/neolib/file/json.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index d22ebde..ea847df 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1463,6 +1463,11 @@ namespace neolib
                             create_parse_error("unbalanced brackets");
                             return false;
                         }
+                        if (!std::holds_alternative<std::monostate>(currentElement.name))
+                        {
+                            create_parse_error("object field has no value");
+                            return false;
+                        }
                         iCompositeValueStack.pop_back();
                     }
                     switch (context())
-- 
2.43.0


From e6790954bc32a483206d312e86267ff4c6115452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 103/202] fix: json_parse: a colon follows only a name

---
 include/neolib/file/json.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index ea847df..a49cd02 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1456,6 +1456,11 @@ namespace neolib
                     default:
                         break;
                     }
+                    if (*nextInputCh == ':' && std::holds_alternative<std::monostate>(currentElement.name))
+                    {
+                        create_parse_error("unexpected colon");
+                        return false;
+                    }
                     if (nextState == json_detail::state::Close)
                     {
                         if (context() != (*nextInputCh == '}' ? json_type::Object : json_type::Array))
-- 
2.43.0


From 5e438620bf60b5de02833c362f82a1d23dba38a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 104/202] fix: json_parse: an object does not start with a
 comma

---
 include/neolib/file/json.inl | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index a49cd02..803506f 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -255,7 +255,16 @@ namespace neolib
         template <json_syntax Syntax>
         constexpr inline std::array<state, TOKEN_COUNT> object_state()
         {
-            if constexpr (Syntax != json_syntax::Functional)
+            if constexpr (Syntax == json_syntax::Standard)
+            {
+                return
+                    // state::Object
+                    std::array<state, TOKEN_COUNT>
+                    {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
+                        SXXX, SXXX, SCLO, SXXX, SXXX, SXXX, SXXX, SNAM, SKEY, SXXX, SKEY, SKEY, SXXX, SXXX, SXXX, SKEY, SKEY, SXXX, SKEY, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
+                    }};
+            }
+            else if constexpr (Syntax != json_syntax::Functional)
             {
                 return
                     // state::Object
-- 
2.43.0


From 41017aafdfb6eaa9143ceb98672457f39fcedcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 105/202] fix: json: a path into an array is a path that is not
 found

---
 include/neolib/file/json.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 803506f..1c357a1 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1935,7 +1935,7 @@ namespace neolib
             return *node;
         do
         {
-            auto existing = std::find_if(node->begin(), node->end(), [&](auto&& child) { return child.name() == std::string_view{ &*bitStart, static_cast<std::string_view::size_type>(std::distance(bitStart, bitEnd)) };  });
+            auto existing = std::find_if(node->begin(), node->end(), [&](auto&& child) { return child.has_name() && child.name() == std::string_view{ &*bitStart, static_cast<std::string_view::size_type>(std::distance(bitStart, bitEnd)) };  });
             if (existing == node->end())
                 throw json_path_not_found(aPath.to_std_string());
             node = &*existing;
-- 
2.43.0


From 83c16e50b245d366c0b89f5c6d58be568b08f210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 106/202] fix: json: names are escaped on writing

---
 include/neolib/file/json.inl | 73 ++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 1c357a1..a06a572 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1748,6 +1748,41 @@ namespace neolib
             for (int32_t l = 0; l < level; ++l)
                 aOutput << aIndent;
         };
+        auto writeString = [&aOutput](auto const& aString)
+        {
+            aOutput << '\"';
+            for (auto const& ch : aString)
+                switch (ch)
+                {
+                case '\"':
+                    aOutput << "\\\"";
+                    break;
+                case '\\':
+                    aOutput << "\\\\";
+                    break;
+                case '\b':
+                    aOutput << "\\b";
+                    break;
+                case '\f':
+                    aOutput << "\\f";
+                    break;
+                case '\n':
+                    aOutput << "\\n";
+                    break;
+                case '\r':
+                    aOutput << "\\r";
+                    break;
+                case '\t':
+                    aOutput << "\\t";
+                    break;
+                default:
+                    if (static_cast<std::uint32_t>(ch) >= 32u)
+                        aOutput << ch;
+                    else
+                        aOutput << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int)ch;
+                }
+            aOutput << '\"';
+        };
         for (auto i = cbegin(); i != end; ++i)
         {
             auto const& v = **i;
@@ -1755,7 +1790,10 @@ namespace neolib
             if (i.value().has_name())
             {
                 if (!i.value().name_is_keyword())
-                    aOutput << '\"' << i.value().name() << "\": ";
+                {
+                    writeString(i.value().name());
+                    aOutput << ": ";
+                }
                 else
                     aOutput << i.value().name() << ": ";
             }
@@ -1797,38 +1835,7 @@ namespace neolib
                 aOutput << std::get<json_uint>(v);
                 break;
             case json_type::String:
-                aOutput << '\"';
-                for (auto const& ch : std::get<json_string>(v))
-                    switch (ch)
-                    {
-                    case '\"':
-                        aOutput << "\\\"";
-                        break;
-                    case '\\':
-                        aOutput << "\\\\";
-                        break;
-                    case '\b':
-                        aOutput << "\\b";
-                        break;
-                    case '\f':
-                        aOutput << "\\f";
-                        break;
-                    case '\n':
-                        aOutput << "\\n";
-                        break;
-                    case '\r':
-                        aOutput << "\\r";
-                        break;
-                    case '\t':
-                        aOutput << "\\t";
-                        break;
-                    default:
-                        if (static_cast<std::uint32_t>(ch) >= 32u)
-                            aOutput << ch;
-                        else
-                            aOutput << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int)ch;
-                    }
-                aOutput << '\"';
+                writeString(std::get<json_string>(v));
                 break;
             case json_type::Bool:
                 aOutput << (std::get<json_bool>(v) ? trueString : falseString);
-- 
2.43.0


From 18cbede77982d7693cbb381f8f916d74102c4610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 107/202] fix: json: a written control character does not turn
 later numbers hexadecimal

---
 include/neolib/file/json.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index a06a572..c256e37 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1779,7 +1779,7 @@ namespace neolib
                     if (static_cast<std::uint32_t>(ch) >= 32u)
                         aOutput << ch;
                     else
-                        aOutput << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int)ch;
+                        aOutput << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int)ch << std::dec;
                 }
             aOutput << '\"';
         };
-- 
2.43.0


From ccc45766622b6fb130bad69b852f569a1556fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 108/202] fix: json: doubles are written with all of their
 digits

---
 include/neolib/file/json.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index c256e37..d5fc6da 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1820,7 +1820,7 @@ namespace neolib
                     aOutput << ']';
                 break;
             case json_type::Double:
-                aOutput << std::get<json_double>(v);
+                aOutput << boost::lexical_cast<string_type>(std::get<json_double>(v)); // all of its digits
                 break;
             case json_type::Int64:
                 aOutput << std::get<json_int64>(v);
-- 
2.43.0


From 18786e1213747cb37afa17b2e6bdba59e4fb788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 109/202] fix: json_parse: destroying a deeply nested document
 must not exhaust the stack

---
 include/neolib/file/json.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/json.hpp b/include/neolib/file/json.hpp
index ef8fc84..1812354 100644
--- a/include/neolib/file/json.hpp
+++ b/include/neolib/file/json.hpp
@@ -175,8 +175,17 @@ namespace neolib
             }
             ~basic_json_node()
             {
-                while (iLastChild != nullptr)
-                    destruct_child(iLastChild);
+                // destroy leaf by leaf so that a deeply nested tree does not exhaust the stack
+                auto node = this;
+                while (node != this || iLastChild != nullptr)
+                {
+                    if (node->iLastChild == nullptr)
+                        node = &node->iParent->iNode;
+                    else if (node->iLastChild->iNode.iLastChild != nullptr)
+                        node = &node->iLastChild->iNode;
+                    else
+                        node->destruct_child(node->iLastChild);
+                }
             }
         public:
             json_value* buy_child(json_value& aParent, const value_type& aValue)
-- 
2.43.0


From 0bf5af98b13c6e64fdbe861f2a6035a5d8a098b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 110/202] fix: json: comment openings within relaxed strings
 are text

---
 include/neolib/file/json.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index d5fc6da..a78305e 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -630,6 +630,11 @@ namespace neolib
                     else if (token == json_detail::token::EndOfInput)
                         return state::Error;
                     return state::CStyleComment;
+                case state::String:
+                case state::Name:
+                case state::Escaping:
+                case state::EscapingUnicode:
+                    break; // not a comment
                 default:
                     if (token == json_detail::token::ForwardSlash)
                     {
-- 
2.43.0


From 944f7a757c35e196c5d385ab1975c0dbf9325142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 111/202] fix: json: the star that opens a relaxed comment does
 not close it

---
 include/neolib/file/json.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index a78305e..789c3c2 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1309,6 +1309,8 @@ namespace neolib
                                 nextOutputCh = (currentState != json_detail::state::StringEnd ? nextInputCh : nextInputCh - 1);
                                 currentElement.decoded = true;
                             }
+                            if (tempState != nextState)
+                                increment_cursor(); // the opening has two characters
                             tempState = nextState;
                             increment_cursor();
                         }
-- 
2.43.0


From 8dfef1bc5bbf5d4e152bfa8a07e72ec1cea222a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 112/202] fix: json: a relaxed string or name ends with the
 quote it started with

---
 include/neolib/file/json.inl | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 789c3c2..a80445a 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1549,6 +1549,17 @@ namespace neolib
                     currentElement.start = (nextOutputCh = nextInputCh + 1);
                     break;
                 case json_detail::state::EndName:
+                    if constexpr (syntax == json_syntax::Relaxed)
+                    {
+                        // relaxed: support for three different quote characters
+                        if (*nextInputCh != *(currentElement.start - 1))
+                        {
+                            nextState = json_detail::state::Name;
+                            if (currentElement.decoded)
+                                *nextOutputCh++ = *nextInputCh;
+                            break;
+                        }
+                    }
                     if (std::holds_alternative<std::monostate>(currentElement.name))
                     {
                         json_string newName
@@ -1593,7 +1604,11 @@ namespace neolib
                     {
                         // relaxed: support for three different quote characters
                         if (*nextInputCh != *(currentElement.start - 1))
+                        {
                             nextState = json_detail::state::String;
+                            if (currentElement.decoded)
+                                *nextOutputCh++ = *nextInputCh;
+                        }
                     }
                     break;
                 case json_detail::state::Escaped:
-- 
2.43.0


From 4c1b25f9c14a6d3290ad5b5b3c576863039eae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:39 +0000
Subject: [PATCH 113/202] fix: json_parse: a field needs a value before the
 comma

---
 include/neolib/file/json.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index a80445a..0d66084 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1491,6 +1491,11 @@ namespace neolib
                         }
                         iCompositeValueStack.pop_back();
                     }
+                    if (*nextInputCh == ',' && !std::holds_alternative<std::monostate>(currentElement.name))
+                    {
+                        create_parse_error("object field has no value");
+                        return false;
+                    }
                     switch (context())
                     {
                     case json_type::Object:
-- 
2.43.0


From cca502366daccede0b02ca99c2aa07aeecbae52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 114/202] fix: json: the first element pushed onto an array
 appears once

---
 include/neolib/file/json.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/json.hpp b/include/neolib/file/json.hpp
index 1812354..ee80ae1 100644
--- a/include/neolib/file/json.hpp
+++ b/include/neolib/file/json.hpp
@@ -499,14 +499,16 @@ namespace neolib
     public:
         json_value& push_back(const value_type& aValue)
         {
+            auto& elements = cache(); // of the elements so far
             auto& newChild = contents().emplace_back(aValue);
-            cache().emplace_back(&newChild);
+            elements.emplace_back(&newChild);
             return back();
         }
         json_value& push_back(value_type&& aValue)
         {
+            auto& elements = cache(); // of the elements so far
             auto& newChild = contents().emplace_back(std::move(aValue));
-            cache().emplace_back(&newChild);
+            elements.emplace_back(&newChild);
             return back();
         }
         json_value& back()
-- 
2.43.0


From c8c13d740d4288d061e168ba575a7e7bf11c2d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:00 +0000
Subject: [PATCH 115/202] fix: json: the reader without keywords separates
 elements as the standard one does

---
 include/neolib/file/json.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 0d66084..8e4dfb3 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -255,7 +255,7 @@ namespace neolib
         template <json_syntax Syntax>
         constexpr inline std::array<state, TOKEN_COUNT> object_state()
         {
-            if constexpr (Syntax == json_syntax::Standard)
+            if constexpr (Syntax == json_syntax::Standard || Syntax == json_syntax::StandardNoKeywords)
             {
                 return
                     // state::Object
@@ -1499,7 +1499,7 @@ namespace neolib
                     switch (context())
                     {
                     case json_type::Object:
-                        if constexpr (syntax == json_syntax::Standard)
+                        if constexpr (syntax == json_syntax::Standard || syntax == json_syntax::StandardNoKeywords)
                         {
                             if (std::holds_alternative<std::monostate>(currentElement.name))
                             {
@@ -1522,7 +1522,7 @@ namespace neolib
                         }
                         break;
                     case json_type::Array:
-                        if constexpr (syntax == json_syntax::Standard)
+                        if constexpr (syntax == json_syntax::Standard || syntax == json_syntax::StandardNoKeywords)
                         {
                             if (*nextInputCh == ',')
                                 nextState = json_detail::state::NeedValue;
-- 
2.43.0


From 56eac1e0d14236f2fc86b6cfe406214e910b9f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:00 +0000
Subject: [PATCH 116/202] fix: json: white space may precede a relaxed array's
 comma

---
 include/neolib/file/json.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 8e4dfb3..113cd2d 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -348,7 +348,7 @@ namespace neolib
                     // state::Value
                     std::array<state, TOKEN_COUNT>
                     {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
-                        SXXX, SOBJ, SCLO, SARR, SCLO, SXXX, SXXX, SSTR, SKEY, SXXX, SKEY, SKEY, SKEY, SNU1, SNU2, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SIGN, SIGN, SZZZ
+                        SXXX, SOBJ, SCLO, SARR, SCLO, SXXX, SIGN, SSTR, SKEY, SXXX, SKEY, SKEY, SKEY, SNU1, SNU2, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SIGN, SIGN, SZZZ
                     }};
             }
         }
-- 
2.43.0


From 39ce12013db70dd63f85a666d98c280f9e6ac2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:09 +0000
Subject: [PATCH 117/202] fix: json_parse: a comma is followed by another
 element, white space or not

---
 include/neolib/file/json.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 113cd2d..abea50e 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -425,7 +425,7 @@ namespace neolib
             // state::NeedValueSeparator
             std::array<state, TOKEN_COUNT>
             {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
-                SXXX, SXXX, SCLO, SXXX, SCLO, SXXX, SVAL, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
+                SXXX, SXXX, SCLO, SXXX, SCLO, SXXX, SNVA, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
             }},
             // state::NeedValue
             need_value_state<Syntax>(),
-- 
2.43.0


From 7e1d59a8c0310711b35e5bd940909dc3e2d73e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:04 +0000
Subject: [PATCH 118/202] fix: xml: an element left open at the end of the
 document is an error

---
 include/neolib/file/xml.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index a7e1d36..26287a1 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -645,7 +645,7 @@ namespace neolib
                     token contentToken = next_token(sTagDelimeter, true, next, aDocumentEnd);
                     next = contentToken.second;
                     if (next == aDocumentEnd)
-                        return next;
+                        break;
                     string content(contentToken.first, contentToken.second);
                     strip_if(content);
                     bool hasContent = false;
@@ -710,7 +710,8 @@ namespace neolib
                     }
                     next = parse(theElement.back(), nextTag, aDocumentEnd);
                 }
-                return next;
+                iError = true; // the element was not closed
+                return aDocumentEnd;
             }
             // no break required here due to return above (warning dampening)
         case node::Comment:
-- 
2.43.0


From d59579974b391bb28b909b72d5508bcf77ae52d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:04 +0000
Subject: [PATCH 119/202] fix: xml: a tag without an end is not read past the
 end of the document

---
 include/neolib/file/xml.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 26287a1..afb9329 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -517,7 +517,9 @@ namespace neolib
         if (nextTag.first != aDocumentEnd)
             ++nextTag.first;
         nextTag.second = std::find(nextTag.first, aDocumentEnd, CharT(characters<CharT>::sElementTagEnd));
-        if (static_cast<typename string::size_type>(nextTag.second - nextTag.first) >= sCommentStart.size() && std::equal(nextTag.first, nextTag.first+sCommentStart.size(), sCommentStart.begin()))
+        if (nextTag.second == aDocumentEnd)
+            nextTag.first = aDocumentEnd;
+        else if (static_cast<typename string::size_type>(nextTag.second - nextTag.first) >= sCommentStart.size() && std::equal(nextTag.first, nextTag.first+sCommentStart.size(), sCommentStart.begin()))
         {
             nextTag.iType = node::Comment;
             nextTag.first += sCommentStart.size();
-- 
2.43.0


From 0f498859a3d39d395d6e15ce251f05a54f386a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:04 +0000
Subject: [PATCH 120/202] fix: xml: an element without a name is an error

---
 include/neolib/file/xml.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index afb9329..87fcc26 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -585,7 +585,7 @@ namespace neolib
 
                 /* get element name */
                 token elementName = next_token(sNameDelimeter, false, aStartTag.first, aStartTag.second);
-                if (elementName.first == aStartTag.second)
+                if (elementName.first == elementName.second)
                 {
                     iError = true;
                     return aDocumentEnd;
-- 
2.43.0


From 5a60bb80b03f34a2244cc82bdb41be178d412477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:27 +0000
Subject: [PATCH 121/202] fix: xml: an empty comment, CDATA section or
 declaration is a node, not text

---
 include/neolib/file/xml.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 87fcc26..c7e19d5 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -569,7 +569,8 @@ namespace neolib
     template <typename CharT, typename Alloc>
     typename basic_xml<CharT, Alloc>::string::view_const_iterator basic_xml<CharT, Alloc>::parse(node& aNode, const tag& aStartTag, typename basic_xml<CharT, Alloc>::string::view_const_iterator aDocumentEnd)
     {
-        if (aStartTag.first == aDocumentEnd || aStartTag.first >= aStartTag.second)
+        if (aStartTag.first == aDocumentEnd || aStartTag.first > aStartTag.second ||
+            (aStartTag.first == aStartTag.second && aStartTag.type() == node::Element))
             return aDocumentEnd;
 
         switch(aStartTag.type())
@@ -675,7 +676,7 @@ namespace neolib
                     tag nextTag = next_tag(next, aDocumentEnd); 
                     if (nextTag.first > nextTag.second)
                         return next;
-                    if (nextTag.first == nextTag.second)
+                    if (nextTag.first == aDocumentEnd || (nextTag.first == nextTag.second && nextTag.type() == node::Element))
                     {
                         next= nextTag.first;
                         continue;
@@ -789,7 +790,7 @@ namespace neolib
         tag nextTag = next_tag(document.cbegin(), document.cend());        
         while (nextTag.first != document.cend())
         {
-            while(nextTag.first != document.cend() && nextTag.first == nextTag.second)
+            while(nextTag.first != document.cend() && nextTag.first == nextTag.second && nextTag.type() == node::Element)
                 nextTag = next_tag(nextTag.first, document.cend());
             nextTag = next_tag(parse(iDocument, nextTag, document.cend()), document.cend());
         };
-- 
2.43.0


From 598f2b6c4e0da911c53f83dc50c38f15b71c0b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 122/202] fix: xml: a character reference denotes a code point,
 not a byte

---
 include/neolib/file/xml.inl | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index c7e19d5..3139f92 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -42,6 +42,7 @@
 #include <cstdlib>
 #include <cwchar>
 #include <neolib/core/quick_string.hpp>
+#include <neolib/core/string_utf.hpp>
 
 namespace neolib
 {
@@ -974,15 +975,25 @@ namespace neolib
                         return wcstol(aString.c_str(), 0, aBase);
                     }
                 };
+                long codePoint;
                 if (characterValue[0] != characters<CharT>::sHexChar)
-                    character += static_cast<CharT>(converter::string_to_integer(characterValue, 10));
+                    codePoint = converter::string_to_integer(characterValue, 10);
                 else
                 {
                     characterValue.erase(0, 1);
-                    character += static_cast<CharT>(converter::string_to_integer(characterValue, 16));
+                    codePoint = converter::string_to_integer(characterValue, 16);
                 }
+                if (codePoint <= 0 || codePoint > 0x10FFFF || (codePoint >= 0xD800 && codePoint <= 0xDFFF))
+                {
+                    iError = true;
+                    return aString;
+                }
+                if constexpr (sizeof(CharT) == 1)
+                    character = utf32_to_utf8(std::u32string(1, static_cast<char32_t>(codePoint)));
+                else
+                    character += static_cast<CharT>(codePoint);
                 newString.replace(pos, (endPos - pos) + 1, character);
-                ++pos;
+                pos += character.size();
                 replaced = true;
             }
             else
-- 
2.43.0


From 786dcfee21aa5a96ba3572e955910b302e712803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:55 +0000
Subject: [PATCH 123/202] fix: xml: a document nested too deeply is an error,
 not a stack overflow

---
 include/neolib/file/xml.hpp |  3 ++-
 include/neolib/file/xml.inl | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/neolib/file/xml.hpp b/include/neolib/file/xml.hpp
index 69a371e..7be4906 100644
--- a/include/neolib/file/xml.hpp
+++ b/include/neolib/file/xml.hpp
@@ -497,7 +497,7 @@ namespace neolib
             token() : iHasEntities(false) {}
         };
         tag next_tag(typename string::view_const_iterator aNext, typename string::view_const_iterator aDocumentEnd);
-        typename string::view_const_iterator parse(node& aNode, const tag& aStartTag, typename string::view_const_iterator aDocumentEnd);
+        typename string::view_const_iterator parse(node& aNode, const tag& aStartTag, typename string::view_const_iterator aDocumentEnd, std::size_t aDepth = 0);
         struct node_writer
         {
             std::basic_ostream<CharT>& iStream;
@@ -518,6 +518,7 @@ namespace neolib
 
         // attributes
     private:
+        static constexpr std::size_t sMaxDepth = 1024; // parsing, writing and destroying a tree are recursive
         std::basic_ostream<CharT>& (&endl)(std::basic_ostream<CharT>&);
         mutable bool iError;
         node iDocument;
diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 3139f92..a8aeae3 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -568,8 +568,14 @@ namespace neolib
     }
 
     template <typename CharT, typename Alloc>
-    typename basic_xml<CharT, Alloc>::string::view_const_iterator basic_xml<CharT, Alloc>::parse(node& aNode, const tag& aStartTag, typename basic_xml<CharT, Alloc>::string::view_const_iterator aDocumentEnd)
+    typename basic_xml<CharT, Alloc>::string::view_const_iterator basic_xml<CharT, Alloc>::parse(node& aNode, const tag& aStartTag, typename basic_xml<CharT, Alloc>::string::view_const_iterator aDocumentEnd, std::size_t aDepth)
     {
+        if (aDepth >= sMaxDepth)
+        {
+            iError = true;
+            return aDocumentEnd;
+        }
+
         if (aStartTag.first == aDocumentEnd || aStartTag.first > aStartTag.second ||
             (aStartTag.first == aStartTag.second && aStartTag.type() == node::Element))
             return aDocumentEnd;
@@ -712,7 +718,7 @@ namespace neolib
                     default:
                         break;
                     }
-                    next = parse(theElement.back(), nextTag, aDocumentEnd);
+                    next = parse(theElement.back(), nextTag, aDocumentEnd, aDepth + 1);
                 }
                 iError = true; // the element was not closed
                 return aDocumentEnd;
-- 
2.43.0


From 3c8400380602e65dbbbf93af88d89d25344c362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:15 +0000
Subject: [PATCH 124/202] fix: xml: only a line end is left out after text that
 ends a line

---
 include/neolib/file/xml.hpp | 1 +
 include/neolib/file/xml.inl | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.hpp b/include/neolib/file/xml.hpp
index 7be4906..6f04e3a 100644
--- a/include/neolib/file/xml.hpp
+++ b/include/neolib/file/xml.hpp
@@ -506,6 +506,7 @@ namespace neolib
             template <typename T>
             node_writer& operator<<(const T& aData);
             node_writer& operator<<(const string& aData);
+            node_writer& operator<<(std::basic_ostream<CharT>& (&aEndl)(std::basic_ostream<CharT>&));
         private:
             node_writer& operator=(const node_writer&); // undefined
         };
diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index a8aeae3..ac0598f 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -424,9 +424,16 @@ namespace neolib
     template <typename CharT, typename Alloc>
         template <typename T>
     typename basic_xml<CharT, Alloc>::node_writer& basic_xml<CharT, Alloc>::node_writer::operator<<(const T& aData)
+    {
+        iStream << aData;
+        iLastWasNewLine = false;
+        return *this;
+    }
+    template <typename CharT, typename Alloc>
+    typename basic_xml<CharT, Alloc>::node_writer& basic_xml<CharT, Alloc>::node_writer::operator<<(std::basic_ostream<CharT>& (&aEndl)(std::basic_ostream<CharT>&))
     {
         if (!iLastWasNewLine)
-            iStream << aData;
+            iStream << aEndl;
         iLastWasNewLine = false;
         return *this;
     }
-- 
2.43.0


From 4c9f38847d8cc8c60c07e4d987b75ef8985f944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:46 +0000
Subject: [PATCH 125/202] fix: xml: no line break is added to text that an
 element, comment or section follows

---
 include/neolib/file/xml.hpp |  2 +-
 include/neolib/file/xml.inl | 25 +++++++++++++++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/neolib/file/xml.hpp b/include/neolib/file/xml.hpp
index 6f04e3a..1205e5b 100644
--- a/include/neolib/file/xml.hpp
+++ b/include/neolib/file/xml.hpp
@@ -510,7 +510,7 @@ namespace neolib
         private:
             node_writer& operator=(const node_writer&); // undefined
         };
-        void write_node(node_writer& aStream, const node& aNode, std::size_t aIndent) const;
+        void write_node(node_writer& aStream, const node& aNode, std::size_t aIndent, bool aAfterText = false) const;
         string parse_entities(const string& aString) const;
         string generate_entities(const string& aString) const;
         void strip(string& aString) const;
diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index ac0598f..3c900fa 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -837,7 +837,7 @@ namespace neolib
     }
 
     template <typename CharT, typename Alloc>
-    void basic_xml<CharT, Alloc>::write_node(node_writer& aStream, const node& aNode, std::size_t aIndent) const
+    void basic_xml<CharT, Alloc>::write_node(node_writer& aStream, const node& aNode, std::size_t aIndent, bool aAfterText) const
     {
         switch(aNode.type())
         {
@@ -852,9 +852,12 @@ namespace neolib
             {
                 const element& theElement = static_cast<const element&>(aNode);
 
-                if (&theElement != &root())
-                    aStream << endl;
-                aStream << string(aIndent*iIndentCount, iIndentChar);
+                if (!aAfterText)
+                {
+                    if (&theElement != &root())
+                        aStream << endl;
+                    aStream << string(aIndent*iIndentCount, iIndentChar);
+                }
                 aStream << characters<CharT>::sLessThanChar;
                 aStream << theElement.name();
 
@@ -865,6 +868,7 @@ namespace neolib
                 if (!aNode.empty())
                 {
                     aStream << characters<CharT>::sGreaterThanChar;
+                    bool afterText = false; // white space added here would become part of the text
                     for (typename node::const_iterator i = aNode.begin(); i != aNode.end(); ++i)
                     {
                         switch(i->type())
@@ -881,17 +885,22 @@ namespace neolib
                             break;
                         case node::Comment:
                         case node::Declaration:
-                            aStream << endl;
-                            aStream << string((aIndent+1)*iIndentCount, iIndentChar);
+                            if (!afterText)
+                            {
+                                aStream << endl;
+                                aStream << string((aIndent+1)*iIndentCount, iIndentChar);
+                            }
                             break;
                         case node::Cdata:
                         case node::Dtd:
-                            aStream << endl;
+                            if (!afterText)
+                                aStream << endl;
                             break;
                         default:
                             break;
                         }
-                        write_node(aStream, *i, aIndent+1);
+                        write_node(aStream, *i, aIndent+1, afterText);
+                        afterText = (i->type() == node::Text && !iStripWhitespace);
                     }
                     if (aNode.back().type() != node::Text)
                         aStream << endl << string(aIndent*iIndentCount, iIndentChar);
-- 
2.43.0


From f1166ac2fc21b174788d8ddb982d9111d0788475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 126/202] fix: zip: header fields are 32 and 16 bits wide on
 every platform

---
 include/neolib/file/zip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/zip.hpp b/include/neolib/file/zip.hpp
index 94cbbdd..da55c17 100644
--- a/include/neolib/file/zip.hpp
+++ b/include/neolib/file/zip.hpp
@@ -73,8 +73,8 @@ namespace neolib
         struct dir_header;
         struct dir_file_header;
         struct local_header;
-        typedef unsigned long dword;
-        typedef unsigned short word;
+        typedef std::uint32_t dword;
+        typedef std::uint16_t word;
         typedef unsigned char byte;
         std::vector<const dir_file_header*> iDirEntries;
         std::vector<std::string> iFiles;
-- 
2.43.0


From 90ba6585dacc0bc31fd642779b94780e16784fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 127/202] fix: zip: an empty file is an error, not undefined
 behaviour

---
 src/file/zip.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index b2c6fc3..12d55e8 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -114,21 +114,21 @@ namespace neolib
         if (fileSize > iZipFile.max_size())
             throw zip_file_too_big();
         iZipFile.resize(static_cast<std::size_t>(fileSize));
-        iZipFileData = &iZipFile[0];
+        iZipFileData = iZipFile.data();
         iZipFileDataLength = iZipFile.size();
         std::ifstream input(aZipFilePath, std::ios::binary | std::ios::in);
-        if (input.read(reinterpret_cast<char*>(&iZipFile[0]), iZipFile.size()))
+        if (input.read(reinterpret_cast<char*>(iZipFile.data()), iZipFile.size()))
             parse();
         else
             iError = true;
     }
 
-    zip::zip(const buffer_type& aZipFile) : iZipFile{aZipFile}, iZipFileData{&iZipFile[0]}, iZipFileDataLength{iZipFile.size()}, iError{false}
+    zip::zip(const buffer_type& aZipFile) : iZipFile{aZipFile}, iZipFileData{iZipFile.data()}, iZipFileDataLength{iZipFile.size()}, iError{false}
     {
         parse();
     }
 
-    zip::zip(buffer_type&& aZipFile) : iZipFile{std::move(aZipFile)}, iZipFileData{&iZipFile[0]}, iZipFileDataLength{iZipFile.size()}, iError{false}
+    zip::zip(buffer_type&& aZipFile) : iZipFile{std::move(aZipFile)}, iZipFileData{iZipFile.data()}, iZipFileDataLength{iZipFile.size()}, iError{false}
     {
         parse();
     }
-- 
2.43.0


From 977a5c6b86f746234067bbc1e1826bbd6e5b6f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 128/202] fix: zip: a damaged directory is an error

---
 src/file/zip.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index 12d55e8..795fab2 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -262,12 +262,12 @@ namespace neolib
             if (byte_cast(fh) < byte_cast(data_front()) ||
                 byte_cast(fh) + sizeof(fh->iSignature) >= byte_cast(dh))
             {
-                iError = false;
+                iError = true;
                 return false;
             }
             if (fh->iSignature != dir_file_header::Signature)
             {
-                iError = false;
+                iError = true;
                 return false;
             }
             else
@@ -275,7 +275,7 @@ namespace neolib
                 if (byte_cast(reinterpret_cast<const char*>(fh) + sizeof(*fh) + fh->iFilenameLength + fh->iExtraLength + fh->iCommentLength) > 
                     byte_cast(dh))
                 {
-                    iError = false;
+                    iError = true;
                     return false;
                 }
                 iDirEntries.push_back(fh);
-- 
2.43.0


From 5d54d4583ed8f2742cf309ef3c8c7b36867a2ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 129/202] fix: zip: a directory entry is read only when all of
 it is there

---
 src/file/zip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index 795fab2..d737976 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -260,7 +260,7 @@ namespace neolib
         for (size_t i = 0; i < dh->iDirEntries; ++i)
         {
             if (byte_cast(fh) < byte_cast(data_front()) ||
-                byte_cast(fh) + sizeof(fh->iSignature) >= byte_cast(dh))
+                byte_cast(fh) + sizeof(*fh) > byte_cast(dh))
             {
                 iError = true;
                 return false;
-- 
2.43.0


From a77f67c8be96ce2839c5d51cf80ea7741b9d6515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 130/202] fix: zip: the index after the last file is refused

---
 src/file/zip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index d737976..1c595a8 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -164,7 +164,7 @@ namespace neolib
     {
         if (iError)
             return false;
-        if (aIndex > iFiles.size())
+        if (aIndex >= iFiles.size())
             return false;
         const local_header* lh = reinterpret_cast<const local_header*>(data_front() + iDirEntries[aIndex]->iHeaderOffset);
         if (byte_cast(lh) < byte_cast(data_front()) ||
-- 
2.43.0


From 72c24fa94989389cd447c6d3ca1f7302f03f2381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 131/202] fix: zip: extracting to a directory writes the
 extracted data

---
 src/file/zip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index 1c595a8..e32385c 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -152,7 +152,7 @@ namespace neolib
         if (extract_to(aIndex, data))
         {
             std::ofstream out(aTargetDirectory + "/" + file_path(aIndex), std::ios::out | std::ios::binary);
-            out.write(reinterpret_cast<const char*>(data[0]), data.size());
+            out.write(reinterpret_cast<const char*>(data.data()), data.size());
             if (out)
                 return true;
         }
-- 
2.43.0


From ace074bcd9e7ff29c13aff9d41856e8aa30d1e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 132/202] fix: zip: sizes and checksums come from the
 directory, as archives with data descriptors need

---
 src/file/zip.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index e32385c..c301e30 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -166,6 +166,8 @@ namespace neolib
             return false;
         if (aIndex >= iFiles.size())
             return false;
+        // the sizes and checksum in the local header are zero if they follow the data
+        const dir_file_header& fh = *iDirEntries[aIndex];
         const local_header* lh = reinterpret_cast<const local_header*>(data_front() + iDirEntries[aIndex]->iHeaderOffset);
         if (byte_cast(lh) < byte_cast(data_front()) ||
             byte_cast(lh) > byte_cast(data_back()) - sizeof(local_header) + 1)
@@ -180,20 +182,20 @@ namespace neolib
         }
         const uint8_t* compressedData = reinterpret_cast<const uint8_t*>(lh + 1) + lh->iFilenameLength + lh->iExtraLength;
         if (byte_cast(compressedData) < byte_cast(data_front()) ||
-            byte_cast(compressedData) + lh->iCompressedSize - 1 > byte_cast(data_back()))
+            byte_cast(compressedData) + fh.iCompressedSize - 1 > byte_cast(data_back()))
         {
             iError = true;
             return false;
         }
         if (lh->iCompression == Z_NO_COMPRESSION)
         {
-            if (crc32(reinterpret_cast<const uint8_t*>(compressedData), lh->iCompressedSize) != lh->iCrc32)
+            if (crc32(reinterpret_cast<const uint8_t*>(compressedData), fh.iCompressedSize) != fh.iCrc32)
             {
                 iError = true;
                 return false;
             }
-            aBuffer.resize(lh->iCompressedSize);
-            std::copy(compressedData, compressedData + aBuffer.size(), &aBuffer[0]);
+            aBuffer.resize(fh.iCompressedSize);
+            std::copy(compressedData, compressedData + aBuffer.size(), aBuffer.begin());
             return true;
         }
         else if (lh->iCompression != Z_DEFLATED)
@@ -203,8 +205,8 @@ namespace neolib
         }
         z_stream stream;
         stream.next_in = static_cast<Bytef*>(const_cast<uint8_t*>(compressedData));
-        stream.avail_in = static_cast<uInt>(lh->iCompressedSize);
-        aBuffer.resize(lh->iUncompressedSize);
+        stream.avail_in = static_cast<uInt>(fh.iCompressedSize);
+        aBuffer.resize(fh.iUncompressedSize);
         stream.next_out = static_cast<Bytef*>(&aBuffer[0]);
         stream.avail_out = static_cast<uInt>(aBuffer.size());
         stream.zalloc = static_cast<alloc_func>(0);
@@ -223,7 +225,7 @@ namespace neolib
             iError = true;
             return false;
         }
-        if (crc32(reinterpret_cast<const uint8_t*>(&aBuffer[0]), static_cast<uint32_t>(aBuffer.size())) != lh->iCrc32)
+        if (crc32(reinterpret_cast<const uint8_t*>(&aBuffer[0]), static_cast<uint32_t>(aBuffer.size())) != fh.iCrc32)
         {
             iError = true;
             return false;
-- 
2.43.0


From 7571e0afe985c7d8db0301c93711f8a7582c0019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 133/202] fix: zip: an empty deflated file can be extracted

---
 src/file/zip.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index c301e30..7776431 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -207,7 +207,8 @@ namespace neolib
         stream.next_in = static_cast<Bytef*>(const_cast<uint8_t*>(compressedData));
         stream.avail_in = static_cast<uInt>(fh.iCompressedSize);
         aBuffer.resize(fh.iUncompressedSize);
-        stream.next_out = static_cast<Bytef*>(&aBuffer[0]);
+        Bytef none;
+        stream.next_out = (!aBuffer.empty() ? static_cast<Bytef*>(aBuffer.data()) : &none);
         stream.avail_out = static_cast<uInt>(aBuffer.size());
         stream.zalloc = static_cast<alloc_func>(0);
         stream.zfree = static_cast<free_func>(0);
@@ -225,7 +226,7 @@ namespace neolib
             iError = true;
             return false;
         }
-        if (crc32(reinterpret_cast<const uint8_t*>(&aBuffer[0]), static_cast<uint32_t>(aBuffer.size())) != fh.iCrc32)
+        if (crc32(reinterpret_cast<const uint8_t*>(aBuffer.data()), static_cast<uint32_t>(aBuffer.size())) != fh.iCrc32)
         {
             iError = true;
             return false;
-- 
2.43.0


From 6e345d66cbd147c577985a93550cad7187ab7634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:13 +0000
Subject: [PATCH 134/202] fix: zip: a file is not extracted outside the target
 directory

---
 src/file/zip.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index 7776431..58bd1a7 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -53,6 +53,12 @@ namespace neolib
         {
             return reinterpret_cast<const char*>(p);
         }
+
+        inline bool is_contained(const std::string& aFilePath)
+        {
+            const std::filesystem::path path = std::filesystem::path{ aFilePath }.lexically_normal();
+            return !path.has_root_path() && (path.empty() || *path.begin() != "..");
+        }
     }
 
     struct zip::local_header
@@ -149,7 +155,7 @@ namespace neolib
     bool zip::extract(size_t aIndex, const std::string& aTargetDirectory)
     {
         buffer_type data;
-        if (extract_to(aIndex, data))
+        if (extract_to(aIndex, data) && is_contained(file_path(aIndex)))
         {
             std::ofstream out(aTargetDirectory + "/" + file_path(aIndex), std::ios::out | std::ios::binary);
             out.write(reinterpret_cast<const char*>(data.data()), data.size());
-- 
2.43.0


From aa4168bdb53e784f08163453696671739e952870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:13 +0000
Subject: [PATCH 135/202] fix: zip: a damaged file size does not allocate
 gigabytes

---
 src/file/zip.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index 58bd1a7..7f782d4 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -48,6 +48,9 @@ namespace neolib
 {
     namespace
     {
+        // deflate cannot compress data more than this
+        constexpr uint32_t MaxDeflateRatio = 1032;
+
         template <typename T>
         inline const char* byte_cast(const T* p)
         {
@@ -212,6 +215,11 @@ namespace neolib
         z_stream stream;
         stream.next_in = static_cast<Bytef*>(const_cast<uint8_t*>(compressedData));
         stream.avail_in = static_cast<uInt>(fh.iCompressedSize);
+        if (fh.iUncompressedSize / MaxDeflateRatio > fh.iCompressedSize)
+        {
+            iError = true;
+            return false;
+        }
         aBuffer.resize(fh.iUncompressedSize);
         Bytef none;
         stream.next_out = (!aBuffer.empty() ? static_cast<Bytef*>(aBuffer.data()) : &none);
-- 
2.43.0


From e0f3ef66e308352e9b34f033d91d0feddd5fe1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:13 +0000
Subject: [PATCH 136/202] fix: zip: an archive can end with a comment

---
 src/file/zip.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index 7f782d4..c5dd6d9 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -267,13 +267,17 @@ namespace neolib
             iError = true;
             return false;
         }
-        const dir_header* dh = reinterpret_cast<const dir_header*>(data_back() - sizeof(dir_header) + 1);
-        if (dh->iSignature != dir_header::Signature)
+        const uint8_t* end = data_back() - sizeof(dir_header) + 1;
+        const dir_header* dh = reinterpret_cast<const dir_header*>(end);
+        // an archive can end with a comment
+        while ((dh->iSignature != dir_header::Signature || dh->iCommentLength != data_back() - end - (sizeof(dir_header) - 1)) && end != data_front())
+            dh = reinterpret_cast<const dir_header*>(--end);
+        if (dh->iSignature != dir_header::Signature || dh->iCommentLength != data_back() - end - (sizeof(dir_header) - 1))
         {
             iError = true;
             return false;
         }
-        const dir_file_header* fh = reinterpret_cast<const dir_file_header*>(data_back() - (dh->iDirSize + sizeof(dir_header)) + 1);
+        const dir_file_header* fh = reinterpret_cast<const dir_file_header*>(end - dh->iDirSize);
         for (size_t i = 0; i < dh->iDirEntries; ++i)
         {
             if (byte_cast(fh) < byte_cast(data_front()) ||
-- 
2.43.0


From c13c62291c3735de1ab242927c6f76d0e9c67201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:49 +0000
Subject: [PATCH 137/202] fix: gunzip: the size and checksum are 32 bit
 unsigned numbers

---
 src/file/gunzip.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/file/gunzip.cpp b/src/file/gunzip.cpp
index b78ffa2..08b5eb8 100644
--- a/src/file/gunzip.cpp
+++ b/src/file/gunzip.cpp
@@ -100,15 +100,15 @@ namespace neolib
         const char* compressedData = &*i;
         std::size_t compressedSize = aGzipData.end() - i - 8;
         i += compressedSize; 
-        unsigned long crc32 = static_cast<unsigned char>(*i++);
-        crc32 += (static_cast<unsigned char>(*i++) << 8);
-        crc32 += (static_cast<unsigned char>(*i++) << 16); 
-        crc32 += (static_cast<unsigned char>(*i++) << 24);    
-        unsigned long isize = static_cast<unsigned char>(*i++); 
-        isize += (static_cast<unsigned char>(*i++) << 8);
-        isize += (static_cast<unsigned char>(*i++) << 16); 
-        isize += (static_cast<unsigned char>(*i++) << 24);
-        unsigned long uncompressedSize = isize;
+        uint32_t crc32 = static_cast<unsigned char>(*i++);
+        crc32 += (static_cast<uint32_t>(static_cast<unsigned char>(*i++)) << 8);
+        crc32 += (static_cast<uint32_t>(static_cast<unsigned char>(*i++)) << 16); 
+        crc32 += (static_cast<uint32_t>(static_cast<unsigned char>(*i++)) << 24);    
+        uint32_t isize = static_cast<unsigned char>(*i++); 
+        isize += (static_cast<uint32_t>(static_cast<unsigned char>(*i++)) << 8);
+        isize += (static_cast<uint32_t>(static_cast<unsigned char>(*i++)) << 16); 
+        isize += (static_cast<uint32_t>(static_cast<unsigned char>(*i++)) << 24);
+        uint32_t uncompressedSize = isize;
         z_stream stream;
         stream.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(compressedData));
         stream.avail_in = static_cast<uInt>(compressedSize);
-- 
2.43.0


From 596552228429d88c4d4ecb70a0109d7fa203f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:49 +0000
Subject: [PATCH 138/202] fix: gunzip: empty data is data

---
 src/file/gunzip.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file/gunzip.cpp b/src/file/gunzip.cpp
index 08b5eb8..d4783ce 100644
--- a/src/file/gunzip.cpp
+++ b/src/file/gunzip.cpp
@@ -113,7 +113,8 @@ namespace neolib
         stream.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(compressedData));
         stream.avail_in = static_cast<uInt>(compressedSize);
         iUncompressedData.resize(uncompressedSize);
-        stream.next_out = reinterpret_cast<Bytef*>(&iUncompressedData[0]);
+        Bytef none;
+        stream.next_out = (!iUncompressedData.empty() ? reinterpret_cast<Bytef*>(iUncompressedData.data()) : &none);
         stream.avail_out = static_cast<uInt>(iUncompressedData.size());
         stream.zalloc = static_cast<alloc_func>(0);
         stream.zfree = static_cast<free_func>(0);
-- 
2.43.0


From 0f1345b6f94134746a70cdfadcbb6c229f464f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:49 +0000
Subject: [PATCH 139/202] fix: gunzip: a damaged size does not allocate
 gigabytes

---
 src/file/gunzip.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file/gunzip.cpp b/src/file/gunzip.cpp
index d4783ce..bb7fed4 100644
--- a/src/file/gunzip.cpp
+++ b/src/file/gunzip.cpp
@@ -109,6 +109,9 @@ namespace neolib
         isize += (static_cast<uint32_t>(static_cast<unsigned char>(*i++)) << 16); 
         isize += (static_cast<uint32_t>(static_cast<unsigned char>(*i++)) << 24);
         uint32_t uncompressedSize = isize;
+        // deflate cannot compress data more than 1032 times
+        if (uncompressedSize / 1032 > compressedSize)
+            return;
         z_stream stream;
         stream.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(compressedData));
         stream.avail_in = static_cast<uInt>(compressedSize);
-- 
2.43.0


From f8d2847a632ee8c6789ac58f20a5e9189ad9cb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:49 +0000
Subject: [PATCH 140/202] fix: gunzip: the data must have the size and checksum
 that were stored with it

---
 src/file/gunzip.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file/gunzip.cpp b/src/file/gunzip.cpp
index bb7fed4..c9e7b24 100644
--- a/src/file/gunzip.cpp
+++ b/src/file/gunzip.cpp
@@ -130,7 +130,8 @@ namespace neolib
                 result = Z_OK;
             inflateEnd(&stream);
         }
-        iOk = (result == Z_OK);
+        iOk = (result == Z_OK && stream.avail_in == 0 && stream.avail_out == 0 &&
+            ::crc32(::crc32(0, NULL, 0), stream.next_out - stream.total_out, static_cast<uInt>(stream.total_out)) == crc32);
         if (!iOk)
         {
             iUncompressedData.clear();
-- 
2.43.0


From a65f3206814ecc762f9cf0dc67adcdb0637d221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:49 +0000
Subject: [PATCH 141/202] fix: gunzip: a stream with reserved flags is refused

---
 src/file/gunzip.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file/gunzip.cpp b/src/file/gunzip.cpp
index c9e7b24..911d35d 100644
--- a/src/file/gunzip.cpp
+++ b/src/file/gunzip.cpp
@@ -61,7 +61,9 @@ namespace neolib
             return;
         if (cm != 8)
             return;
-        enum flg_e { FTEXT = 0x1, FHCRC = 0x2, FEXTRA = 0x4, FNAME = 0x8, FCOMMENT = 0x10 };
+        enum flg_e { FTEXT = 0x1, FHCRC = 0x2, FEXTRA = 0x4, FNAME = 0x8, FCOMMENT = 0x10, FRESERVED = 0xE0 };
+        if (flg & FRESERVED)
+            return;
         if (flg & FEXTRA)
         {
             if (aGzipData.end() - i < 2)
-- 
2.43.0


From dd477cbe95104d0872d723ed72f0387473b2c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:49 +0000
Subject: [PATCH 142/202] fix: gunzip: a damaged header is an error if it has a
 checksum

---
 src/file/gunzip.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file/gunzip.cpp b/src/file/gunzip.cpp
index 911d35d..822f2d4 100644
--- a/src/file/gunzip.cpp
+++ b/src/file/gunzip.cpp
@@ -94,8 +94,11 @@ namespace neolib
         {
             if (aGzipData.end() - i < 2)
                 return;
+            const uInt headerSize = static_cast<uInt>(i - aGzipData.begin());
             unsigned short crc16 = static_cast<unsigned char>(*i++);
             crc16 += (static_cast<unsigned char>(*i++) << 8);
+            if ((::crc32(::crc32(0, NULL, 0), reinterpret_cast<const Bytef*>(aGzipData.data()), headerSize) & 0xFFFF) != crc16)
+                return;
         }
         if (aGzipData.end() - i < 8)
                 return;
-- 
2.43.0


From c94daa890dddad9f46a5c7cbfe708b157fff39c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:56 +0000
Subject: [PATCH 143/202] fix: uri: a component is everything between its
 delimiters, and can be empty

---
 src/io/uri.cpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index eaa6d99..9abe204 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -206,30 +206,26 @@ namespace neolib
 
     std::string uri::parse_path(const std::string& aRest)
     {
-        neolib::vecarray<std::pair<std::string::const_iterator, std::string::const_iterator>, 2> bits;
-        std::string sep{ "/" };
-        neolib::tokens(aRest.begin(), aRest.end(), sep.begin(), sep.end(), bits, 2, false, false);
-        if (bits.size() == 2)
-            iPath = unescaped(std::string{ bits[1].first, aRest.end() });
-        return std::string{ bits[0].first, bits[0].second };
+        auto const separator = aRest.find('/');
+        if (separator != std::string::npos)
+            iPath = unescaped(aRest.substr(separator + 1));
+        return aRest.substr(0, separator);
     }
 
     std::string uri::parse_query(const std::string& aRest)
     {
-        neolib::vecarray<std::string, 2> bits;
-        neolib::tokens(aRest, std::string{ "?" }, bits, 2, false, false);
-        if (bits.size() == 2)
-            iQuery = unescaped(bits[1]);
-        return bits.front();
+        auto const separator = aRest.find('?');
+        if (separator != std::string::npos)
+            iQuery = unescaped(aRest.substr(separator + 1));
+        return aRest.substr(0, separator);
     }
 
     std::string uri::parse_fragment(const std::string& aRest)
     {
-        neolib::vecarray<std::string, 2> bits;
-        neolib::tokens(aRest, std::string{ "#" }, bits, 2, false, false);
-        if (bits.size() == 2)
-            iFragment = unescaped(bits[1]);
-        return bits.front();
+        auto const separator = aRest.find('#');
+        if (separator != std::string::npos)
+            iFragment = unescaped(aRest.substr(separator + 1));
+        return aRest.substr(0, separator);
     }
 
     std::string uri::parse_scheme(const std::string& aRest)
-- 
2.43.0


From 804c03b505a1f060dc94da5822622e69bca8f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:56 +0000
Subject: [PATCH 144/202] fix: uri: a scheme separator can occur after the
 scheme

---
 src/io/uri.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 9abe204..d0cdbb4 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -230,10 +230,10 @@ namespace neolib
 
     std::string uri::parse_scheme(const std::string& aRest)
     {
-        neolib::vecarray<std::string, 2> bits;
-        neolib::tokens(aRest, std::string{ "://" }, bits, 2, false, true);
-        if (bits.size() == 2)
-            iScheme = unescaped(bits[0]);
-        return bits.back();
+        auto const separator = aRest.find("://");
+        if (separator == std::string::npos || separator != aRest.find_first_of(":/?#"))
+            return aRest;
+        iScheme = unescaped(aRest.substr(0, separator));
+        return aRest.substr(separator + 3);
     }
 }
-- 
2.43.0


From d2cc5ed9ce54315ce88b4c74129584c57cdc0b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:56 +0000
Subject: [PATCH 145/202] fix: uri: user information is not a host if there is
 no host

---
 src/io/uri.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index d0cdbb4..eb28244 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -66,18 +66,11 @@ namespace neolib
 
     std::string uri_authority::parse_user_information(const std::string& aRest)
     {
-        neolib::vecarray<std::pair<std::string::const_iterator, std::string::const_iterator>, 2> bits;
-        std::string sep("@");
-        neolib::tokens(aRest.begin(), aRest.end(), sep.begin(), sep.end(), bits, 2, false, false);
-        if (bits.size() == 2)
-        {
-            iUserInformation = std::string{ bits[0].first, bits[0].second };
-            return std::string{ bits[1].first, bits[1].second };
-        }
-        else if (bits.size() == 1)
-            return std::string{ bits[0].first, bits[0].second };
-        else
-            return {};
+        auto const separator = aRest.find('@');
+        if (separator == std::string::npos)
+            return aRest;
+        iUserInformation = aRest.substr(0, separator);
+        return aRest.substr(separator + 1);
     }
 
     std::string uri_authority::parse_host(const std::string& aRest)
-- 
2.43.0


From c5174a3924b880c699042c2d6050afb16cce1711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:56 +0000
Subject: [PATCH 146/202] fix: uri: a host can be an IPv6 address

---
 src/io/uri.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index eb28244..8d98669 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -75,17 +75,12 @@ namespace neolib
 
     std::string uri_authority::parse_host(const std::string& aRest)
     {
-        neolib::vecarray<std::pair<std::string::const_iterator, std::string::const_iterator>, 2> bits;
-        std::string sep(":");
-        neolib::tokens(aRest.begin(), aRest.end(), sep.begin(), sep.end(), bits, 2, false, false);
-        if (bits.size() == 2)
-        {
-            iHost = std::string{ bits[0].first, bits[0].second };
-            return std::string(bits[1].first, bits[1].second);
-        }
-        else if (bits.size() == 1)
-            iHost = std::string(bits[0].first, bits[0].second);
-        return {};
+        if (aRest.empty())
+            return {};
+        // an IP literal such as [::1] contains colons
+        auto const separator = aRest.find(':', aRest.front() == '[' ? std::min(aRest.find(']'), aRest.size()) : 0);
+        iHost = aRest.substr(0, separator);
+        return separator != std::string::npos ? aRest.substr(separator + 1) : std::string{};
     }
 
     void uri_authority::parse_port(const std::string& aRest)
-- 
2.43.0


From efe6f319de8c67204630e1d76cda2f49761ed8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:56 +0000
Subject: [PATCH 147/202] fix: uri: a port out of range is an error, not
 another port

---
 src/io/uri.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 8d98669..0429c25 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -86,7 +86,12 @@ namespace neolib
     void uri_authority::parse_port(const std::string& aRest)
     {
         if (!aRest.empty())
-            iPort = static_cast<port_type>(std::stoi(aRest));
+        {
+            auto const port = std::stoi(aRest);
+            if (port < 0 || port > std::numeric_limits<port_type>::max())
+                throw std::out_of_range("neolib::uri_authority::parse_port");
+            iPort = static_cast<port_type>(port);
+        }
     }
 
     uri::uri()
-- 
2.43.0


From 82e8b9e2757fdc116b384b42d4c64044e3a6cd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:56 +0000
Subject: [PATCH 148/202] fix: uri: the last escape is unescaped too

---
 src/io/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 0429c25..2f16cdf 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -189,7 +189,7 @@ namespace neolib
         for (auto i = aString.begin(); i != aString.end(); ++i)
             if (*i != '%')
                 escaped += *i;
-            else if (i < aString.end() - 3)
+            else if (aString.end() - i >= 3)
             {
                 escaped += static_cast<char>(string_to_uint32(std::string{ i + 1, i + 3 }, 16));
                 i += 2;
-- 
2.43.0


From fa97c468ab0fff8784ec36aeb74b0bc2c4ce13d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:56 +0000
Subject: [PATCH 149/202] fix: uri: a percent sign that starts no escape is
 itself

---
 src/io/uri.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 2f16cdf..3c364b0 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -189,11 +189,13 @@ namespace neolib
         for (auto i = aString.begin(); i != aString.end(); ++i)
             if (*i != '%')
                 escaped += *i;
-            else if (aString.end() - i >= 3)
+            else if (aString.end() - i >= 3 && std::isxdigit(static_cast<unsigned char>(i[1])) && std::isxdigit(static_cast<unsigned char>(i[2])))
             {
                 escaped += static_cast<char>(string_to_uint32(std::string{ i + 1, i + 3 }, 16));
                 i += 2;
             }
+            else
+                escaped += *i;
         return escaped;
     }
 
-- 
2.43.0


From 0e9ec79fc07151ad9087628b32a41234180c2734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:56 +0000
Subject: [PATCH 150/202] fix: uri: a component is written so that it is read
 back

---
 include/neolib/io/uri.hpp |  7 ++++---
 src/io/uri.cpp            | 11 +++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/neolib/io/uri.hpp b/include/neolib/io/uri.hpp
index c8a2256..dab027d 100644
--- a/include/neolib/io/uri.hpp
+++ b/include/neolib/io/uri.hpp
@@ -87,6 +87,7 @@ namespace neolib
     public:
         static std::string escaped(const std::string& aString);
         static std::string unescaped(const std::string& String);
+        static std::string escaped_component(const std::string& aComponent, const std::string& aDelimiters);
     private:
         void parse_authority(const std::string& aRest);
         std::string parse_path(const std::string& aRest);
@@ -116,11 +117,11 @@ namespace neolib
     template <typename Elem, typename Traits>
     inline std::basic_ostream<Elem, Traits>& operator<<(std::basic_ostream<Elem, Traits>& aStream, const uri& aUri)
     {
-        aStream << uri::escaped(aUri.scheme()) << "://" << aUri.authority() << "/" << uri::escaped(aUri.path());
+        aStream << uri::escaped(aUri.scheme()) << "://" << aUri.authority() << "/" << uri::escaped_component(aUri.path(), "?#");
         if (!aUri.query().empty())
-            aStream << "?" << uri::escaped(aUri.query());
+            aStream << "?" << uri::escaped_component(aUri.query(), "#");
         if (!aUri.fragment().empty())
-            aStream << "#" << uri::escaped(aUri.fragment());
+            aStream << "#" << uri::escaped_component(aUri.fragment(), "");
         return aStream;
     }
 }
diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 3c364b0..1061a79 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -183,6 +183,17 @@ namespace neolib
         return escaped;
     }
 
+    std::string uri::escaped_component(const std::string& aComponent, const std::string& aDelimiters)
+    {
+        std::string result;
+        for (auto ch : aComponent)
+            if (ch == '%' || aDelimiters.find(ch) != std::string::npos)
+                result += "%" + uint32_to_string<char>(static_cast<uint8_t>(ch), 16, 2);
+            else
+                result += escaped(std::string(1, ch));
+        return result;
+    }
+
     std::string uri::unescaped(const std::string& aString)
     {
         std::string escaped;
-- 
2.43.0


From f890d672899117fd35aa6c06c6ed6e081c39a4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 151/202] fix: packet: a delimiter ends a line whichever read
 it arrives in

---
 include/neolib/io/string_packet.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neolib/io/string_packet.hpp b/include/neolib/io/string_packet.hpp
index 07c5a9e..fe10c77 100644
--- a/include/neolib/io/string_packet.hpp
+++ b/include/neolib/io/string_packet.hpp
@@ -135,7 +135,10 @@ namespace neolib
             if (aFirst == aLast)
                 return false;
 
-            if (skip_delimiters(aFirst, aLast))
+            bool const pending = !contents().empty();
+            bool const delimited = traits::is_delimiter(*aFirst);
+
+            if (skip_delimiters(aFirst, aLast) || (pending && delimited))
                 return true;
 
             if (aFirst == aLast)
-- 
2.43.0


From 1519f2dd8d26b3deb1dc10a98a60eb69ab4f4968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 152/202] fix: packet: packets discarded when a connection
 closes are not sent by the next one

---
 include/neolib/io/packet_connection.hpp | 2 ++
 include/neolib/io/packet_stream.hpp     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index e9ff670..3da9bd3 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -256,6 +256,8 @@ namespace neolib
             iSocketHolder = none;
             bool wasConnected = iConnected;
             iConnected = false;
+            iSendQueue.clear();
+            iPacketBeingSent = nullptr;
             iReceiveBufferPtr = &buffer()[0];
             if (wasConnected)
                 iOwner.handle_connection_closed();
diff --git a/include/neolib/io/packet_stream.hpp b/include/neolib/io/packet_stream.hpp
index c7b8147..52e509e 100644
--- a/include/neolib/io/packet_stream.hpp
+++ b/include/neolib/io/packet_stream.hpp
@@ -173,6 +173,7 @@ namespace neolib
         }
         void handle_connection_closed() override
         {
+            remove_all_packets();
             ConnectionClosed.trigger();
         }
         orphaned_queue_item remove_packet(const packet_type& aPacket)
-- 
2.43.0


From 98b3001e69c0d4c5b356ca2a8d66de9e01fdb069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 153/202] fix: packet: text left over from a closed connection
 is not part of the next one's

---
 include/neolib/io/packet_connection.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index 3da9bd3..7712b5b 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -226,6 +226,7 @@ namespace neolib
         {
             if (opened())
                 throw already_open();
+            iReceivePacket->clear();
             if (!secure())
             {
                 iSocketHolder = socket_pointer(new socket_type(iIoTask.io_context().native_object<boost::asio::io_context>()));
-- 
2.43.0


From 0fea247fb187b664bc460719c9ca4356eadd3007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 154/202] fix: packet: nothing arrives on a closed connection

---
 include/neolib/io/packet_connection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index 7712b5b..8ba93f6 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -588,7 +588,7 @@ namespace neolib
                     if (!iReceivePacket->empty())
                     {
                         iOwner.handle_packet_arrived(*iReceivePacket);
-                        if (destroyed)
+                        if (destroyed || closed())
                             return;
                         iReceivePacket->clear();
                     }
-- 
2.43.0


From 2bd41a342bd80319b9b056005c565831d2549396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:24 +0000
Subject: [PATCH 155/202] fix: packet: the TCP server can be given a host name

---
 include/neolib/io/tcp_packet_stream_server.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/neolib/io/tcp_packet_stream_server.hpp b/include/neolib/io/tcp_packet_stream_server.hpp
index 64a1cd0..798155c 100644
--- a/include/neolib/io/tcp_packet_stream_server.hpp
+++ b/include/neolib/io/tcp_packet_stream_server.hpp
@@ -147,20 +147,20 @@ namespace neolib
         // implementation
     private:
         // own
-        static endpoint_type resolve(async_task& aIoTask, const std::string& aHostname, unsigned short aPort, protocol_type aProtocolFamily)
+        static endpoint_type resolve(i_async_task& aIoTask, const std::string& aHostname, unsigned short aPort, protocol_type aProtocolFamily)
         {
-            resolver_type resolver(aIoTask.io_context().native_object());
+            resolver_type resolver(aIoTask.io_context().native_object<boost::asio::io_context>());
             boost::system::error_code ec;
-            typename resolver_type::iterator result = resolver.resolve(resolver_type::query(aHostname, std::to_string(aPort), ec));
-            if (!ec)
+            auto result = resolver.resolve(aHostname, std::to_string(aPort), ec);
+            if (!ec && !result.empty())
             {
-                for (typename resolver_type::iterator i = result; i != resolver_type::iterator(); ++i)
+                for (auto i = result.begin(); i != result.end(); ++i)
                 {
                     endpoint_type endpoint = *i;
                     if (endpoint.protocol() == aProtocolFamily)
                         return endpoint;
                 }
-                return *result;
+                return *result.begin();
             }
             throw failed_to_resolve_local_host();
         }
-- 
2.43.0


From 21ed1155b1c07058b864a1fe0afa33c0e87d036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:15 +0000
Subject: [PATCH 156/202] fix: crc: writing a UUID does not change how the
 stream writes numbers

---
 include/neolib/core/uuid.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/uuid.hpp b/include/neolib/core/uuid.hpp
index a5b9ee8..74affa3 100644
--- a/include/neolib/core/uuid.hpp
+++ b/include/neolib/core/uuid.hpp
@@ -87,13 +87,14 @@ namespace neolib
     inline std::ostream& operator<<(std::ostream& aStream, const uuid& aId)
     {
         char oldFill = aStream.fill('0');
+        auto const oldFlags = aStream.flags();
         aStream << std::hex << std::uppercase << std::setw(8) << aId.part1 << "-";
         aStream << std::hex << std::uppercase << std::setw(4) << aId.part2 << "-";
         aStream << std::hex << std::uppercase << std::setw(4) << aId.part3 << "-";
         aStream << std::hex << std::uppercase << std::setw(4) << aId.part4 << "-";
         for (size_t i = 0; i <= 5; ++i)
             aStream << std::hex << std::uppercase << std::setw(2) << static_cast<uint32_t>(aId.part5[i]);
-        aStream << std::dec;
+        aStream.flags(oldFlags);
         aStream.fill(oldFill);
         return aStream;
     }
-- 
2.43.0


From 80f8c07d1bc71c59a5bf90a5695a929416ec875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:15 +0000
Subject: [PATCH 157/202] fix: random: a range of signed numbers can start
 below zero

---
 include/neolib/core/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/random.hpp b/include/neolib/core/random.hpp
index bf538ee..9f51df5 100644
--- a/include/neolib/core/random.hpp
+++ b/include/neolib/core/random.hpp
@@ -55,7 +55,7 @@ namespace neolib
         template <>
         struct distribution_selector<true>
         {
-            typedef generator_result_type interval_value_type;
+            typedef std::conditional_t<std::is_signed_v<value_type>, std::intmax_t, generator_result_type> interval_value_type;
             typedef std::uniform_int_distribution<interval_value_type> distribution_type;
             static std::pair<interval_value_type, interval_value_type> interval(interval_value_type aLower, interval_value_type aUpper)
             {
-- 
2.43.0


From 247fb5a4cfabdad38fe4d5c377636965d27fcbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:15 +0000
Subject: [PATCH 158/202] fix: random: a floating point draw is not rounded
 beyond its range

---
 include/neolib/core/random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/random.hpp b/include/neolib/core/random.hpp
index 9f51df5..d084ea9 100644
--- a/include/neolib/core/random.hpp
+++ b/include/neolib/core/random.hpp
@@ -138,13 +138,13 @@ namespace neolib
         value_type get(T2 aUpper)
         {
             increment_counter();
-            return static_cast<value_type>(distribution(static_cast<value_type>(0), static_cast<value_type>(aUpper))(iGen));
+            return std::min(static_cast<value_type>(distribution(static_cast<value_type>(0), static_cast<value_type>(aUpper))(iGen)), static_cast<value_type>(aUpper));
         }
         template <typename T2>
         value_type get(T2 aLower, T2 aUpper)
         {
             increment_counter();
-            return static_cast<value_type>(distribution(static_cast<value_type>(aLower), static_cast<value_type>(aUpper))(iGen));
+            return std::min(static_cast<value_type>(distribution(static_cast<value_type>(aLower), static_cast<value_type>(aUpper))(iGen)), static_cast<value_type>(aUpper));
         }
         // implementation
     private:
-- 
2.43.0


From bca0be3c2f50238ffb93f205bb3f694fd8b08d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:15 +0000
Subject: [PATCH 159/202] fix: random: the progress of a long traversal does
 not overflow

---
 include/neolib/core/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/random.hpp b/include/neolib/core/random.hpp
index d084ea9..561ac85 100644
--- a/include/neolib/core/random.hpp
+++ b/include/neolib/core/random.hpp
@@ -233,7 +233,7 @@ namespace neolib
         // operations
     public:
         bool done() const { return iSearches == iPrime || iNumElements == 0; }
-        unsigned int percent() const { return iSearches * 100 / iPrime; }
+        unsigned int percent() const { return static_cast<unsigned int>(static_cast<uint64_t>(iSearches) * 100 / iPrime); }
         int next()
         {
             if (done())
-- 
2.43.0


From 7d3864c36e496c0a31880c327a319a1ff9e24408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:15 +0000
Subject: [PATCH 160/202] fix: version: maintenance numbers are compared

---
 include/neolib/app/version.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/app/version.hpp b/include/neolib/app/version.hpp
index 2cd76ab..d0eef04 100644
--- a/include/neolib/app/version.hpp
+++ b/include/neolib/app/version.hpp
@@ -78,7 +78,7 @@ namespace neolib
     public:
         bool operator<(const version& aOther) const
         {
-            return std::make_tuple(iMajor, iMinor, iMaintenance, iBuild) < std::make_tuple(aOther.iMajor, aOther.iMinor, iMaintenance, aOther.iBuild);
+            return std::make_tuple(iMajor, iMinor, iMaintenance, iBuild) < std::make_tuple(aOther.iMajor, aOther.iMinor, aOther.iMaintenance, aOther.iBuild);
         }
         bool operator>(const version& aOther) const
         {
-- 
2.43.0


From 80ccb932a9c1bb211611532aaf48ba3955d952bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:15 +0000
Subject: [PATCH 161/202] fix: version: the name is parsed

---
 include/neolib/app/version.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/neolib/app/version.hpp b/include/neolib/app/version.hpp
index d0eef04..06efd8c 100644
--- a/include/neolib/app/version.hpp
+++ b/include/neolib/app/version.hpp
@@ -56,8 +56,9 @@ namespace neolib
         version(const std::string& aVersionString = "") :
             iMajor(0), iMinor(0), iMaintenance(0), iBuild(0), iName("")
         {
-            neolib::vecarray<std::string, 5> bits;
-            neolib::tokens(aVersionString, std::string(". "), bits, 4);
+            auto const nameSeparator = aVersionString.find(' ');
+            neolib::vecarray<std::string, 4> bits;
+            neolib::tokens(aVersionString.substr(0, nameSeparator), std::string("."), bits, 4);
             if (bits.size() > 0)
                 iMajor = neolib::string_to_uint32(bits[0]);
             if (bits.size() > 1)
@@ -66,8 +67,8 @@ namespace neolib
                 iMaintenance = neolib::string_to_uint32(bits[2]);
             if (bits.size() > 3)
                 iBuild = neolib::string_to_uint32(bits[3]);
-            if (bits.size() > 4)
-                iName = bits[3];
+            if (nameSeparator != std::string::npos)
+                iName = aVersionString.substr(nameSeparator + 1);
         }
         version(const i_version& aOther) :
             iMajor(aOther.version_major()), iMinor(aOther.version_minor()), iMaintenance(aOther.version_maintenance()), iBuild(aOther.version_build()), iName(aOther.version_name())
-- 
2.43.0


From 5a8db7ffd388b7636ea7b9c5d0943ee0521b29b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:45 +0000
Subject: [PATCH 162/202] fix: random: the header is standard C++

---
 include/neolib/core/random.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/neolib/core/random.hpp b/include/neolib/core/random.hpp
index 561ac85..427022f 100644
--- a/include/neolib/core/random.hpp
+++ b/include/neolib/core/random.hpp
@@ -50,10 +50,10 @@ namespace neolib
         typedef typename generator_type::result_type generator_result_type;
         static const std::size_t state_size = generator_type::state_size;
     private:
-        template <bool IsInteger>
+        template <bool IsInteger, typename = void>
         struct distribution_selector;
-        template <>
-        struct distribution_selector<true>
+        template <typename Unused>
+        struct distribution_selector<true, Unused>
         {
             typedef std::conditional_t<std::is_signed_v<value_type>, std::intmax_t, generator_result_type> interval_value_type;
             typedef std::uniform_int_distribution<interval_value_type> distribution_type;
@@ -62,8 +62,8 @@ namespace neolib
                 return std::make_pair(aLower, aUpper);
             }
         };
-        template <>
-        struct distribution_selector<false>
+        template <typename Unused>
+        struct distribution_selector<false, Unused>
         {
             typedef value_type interval_value_type;
             typedef std::uniform_real_distribution<interval_value_type> distribution_type;
@@ -72,7 +72,7 @@ namespace neolib
                 return std::make_pair(aLower, std::nextafter(aUpper, std::numeric_limits<interval_value_type>::max()));
             }
         };
-        typedef typename distribution_selector<std::is_integral<value_type>::value> distribution_selector_type;
+        typedef distribution_selector<std::is_integral<value_type>::value> distribution_selector_type;
     public:
         typedef typename distribution_selector_type::distribution_type distribution_type;
         typedef typename distribution_selector_type::interval_value_type interval_value_type;
-- 
2.43.0


From 1e78c4fc2c40c9fe216e12ca674493ac2cbd327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:14 +0000
Subject: [PATCH 163/202] fix: logger: whether a category is enabled is
 answered

---
 include/neolib/app/i_logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/app/i_logger.hpp b/include/neolib/app/i_logger.hpp
index 1445b73..ae6ad54 100644
--- a/include/neolib/app/i_logger.hpp
+++ b/include/neolib/app/i_logger.hpp
@@ -170,9 +170,9 @@ namespace neolib
                 register_category(static_cast<category_id>(aId), string{ aName });
             }
             template <typename IdType>
-            void category_enabled(IdType aId)
+            bool category_enabled(IdType aId)
             {
-                category_enabled(static_cast<category_id>(aId));
+                return category_enabled(static_cast<category_id>(aId));
             }
             template <typename IdType>
             void enable_category(IdType aId)
-- 
2.43.0


From b7c4c22ce0858acabab0633d9d559a6bfe7a1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:14 +0000
Subject: [PATCH 164/202] fix: logger: what a thread logged is not lost when
 the thread ends

---
 include/neolib/app/logger.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/neolib/app/logger.hpp b/include/neolib/app/logger.hpp
index abb534c..b0e9dc4 100644
--- a/include/neolib/app/logger.hpp
+++ b/include/neolib/app/logger.hpp
@@ -379,8 +379,10 @@ namespace neolib
                         if (!parentDestroyed)
                         {
                             parent.wait();
-                            std::lock_guard<std::recursive_mutex> lg{ parent.mutex() };
-                            parent.buffers().erase(std::this_thread::get_id());
+                            std::scoped_lock lg{ parent.mutex(), parent.commit_signal_mutex() };
+                            auto existing = parent.buffers().find(std::this_thread::get_id());
+                            if (existing != parent.buffers().end() && existing->second.first->empty() && existing->second.second->empty())
+                                parent.buffers().erase(existing);
                         }
                     }
                 } cleanup{ *this, *this };
-- 
2.43.0


From d6b34035f0bb410a853e2a01e3056c288d7ec90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:14 +0000
Subject: [PATCH 165/202] fix: logger: messages can be logged and committed
 while others are committed

---
 include/neolib/app/logger.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/neolib/app/logger.hpp b/include/neolib/app/logger.hpp
index b0e9dc4..fe15392 100644
--- a/include/neolib/app/logger.hpp
+++ b/include/neolib/app/logger.hpp
@@ -245,13 +245,11 @@ namespace neolib
             {
                 if (!iLoggingThread || std::this_thread::get_id() == iLoggingThread->get_id())
                 {
+                    std::lock_guard<std::recursive_mutex> lg{ mutex() };
+                    for (auto& entry : buffers())
                     {
-                        std::lock_guard<std::recursive_mutex> lg{ mutex() };
-                        for (auto& entry : buffers())
-                        {
-                            auto& buffers = entry.second;
-                            std::swap(buffers.first, buffers.second);
-                        }
+                        auto& buffers = entry.second;
+                        std::swap(buffers.first, buffers.second);
                     }
                     thread_local buffer_t tempBuffer;
                     for (auto& entry : buffers())
-- 
2.43.0


From d628aa64cea1be052e946150339f7943576195ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:14 +0000
Subject: [PATCH 166/202] fix: logger: a logger can be finalized before it is
 destroyed

---
 include/neolib/app/logger.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neolib/app/logger.hpp b/include/neolib/app/logger.hpp
index fe15392..3ec4e2e 100644
--- a/include/neolib/app/logger.hpp
+++ b/include/neolib/app/logger.hpp
@@ -216,7 +216,10 @@ namespace neolib
             void join_logging_thread()
             {
                 if (iLoggingThread)
+                {
                     iLoggingThread->join();
+                    iLoggingThread = std::nullopt;
+                }
             }
             severity message_severity() const
             {
-- 
2.43.0


From 1bbf17c517104d7d020100e79439c698d944cb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:31 +0000
Subject: [PATCH 167/202] fix: logger: asking whether a category is enabled
 returns instead of recursing without end

---
 include/neolib/app/i_logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/app/i_logger.hpp b/include/neolib/app/i_logger.hpp
index ae6ad54..7dec4f6 100644
--- a/include/neolib/app/i_logger.hpp
+++ b/include/neolib/app/i_logger.hpp
@@ -170,7 +170,7 @@ namespace neolib
                 register_category(static_cast<category_id>(aId), string{ aName });
             }
             template <typename IdType>
-            bool category_enabled(IdType aId)
+            bool category_enabled(IdType aId) const
             {
                 return category_enabled(static_cast<category_id>(aId));
             }
-- 
2.43.0


From 8f720aa1a11afaca215988462c2ca9599e05a103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:57 +0000
Subject: [PATCH 168/202] fix: ecs: the time system's clock header is standard
 C++

---
 include/neolib/chrono/tsc_clock.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/neolib/chrono/tsc_clock.hpp b/include/neolib/chrono/tsc_clock.hpp
index fa295d1..e1f9f68 100644
--- a/include/neolib/chrono/tsc_clock.hpp
+++ b/include/neolib/chrono/tsc_clock.hpp
@@ -446,7 +446,12 @@ namespace neolib::chrono
         // one thread per logical CPU). It is STRONGLY recommended to call init() once
         // explicitly at start-up; otherwise the very first now() pays this whole cost
         // lazily (and serialises any other thread that calls now() concurrently).
-        static void init(options opt = {}) noexcept
+        static void init() noexcept
+        {
+            init(options{});
+        }
+
+        static void init(options opt) noexcept
         {
             (void)calibrate_once(opt);
         }
-- 
2.43.0


From bc050b9c06acd608c4d93064332e05aa82225f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:50 +0000
Subject: [PATCH 169/202] fix: ecs_component: a shared record can be read by
 name from a constant component

---
 include/neolib/ecs/component.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neolib/ecs/component.hpp b/include/neolib/ecs/component.hpp
index 81c9f71..dae9d54 100644
--- a/include/neolib/ecs/component.hpp
+++ b/include/neolib/ecs/component.hpp
@@ -633,7 +633,10 @@ namespace neolib::ecs
         }
         const mapped_type& operator[](const std::string& aName) const
         {
-            return component_data()[aName];
+            auto existing = component_data().find(aName);
+            if (existing == component_data().end())
+                throw entity_record_not_found();
+            return existing->second;
         }
         mapped_type& operator[](const std::string& aName)
         {
-- 
2.43.0


From 1d5bbb6f100a0ce481f6453c68b6664d92ffabf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:54 +0000
Subject: [PATCH 170/202] fix: ecs: a new handle has room in the table

---
 src/ecs/ecs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 0d5d91c..df7ee22 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -539,7 +539,7 @@ namespace neolib::ecs
         std::unique_lock lock{ mutex() };
         auto nextHandleId = next_handle_id();
         if (iHandles.size() <= nextHandleId)
-            iHandles.resize(nextHandleId);
+            iHandles.resize(nextHandleId + 1);
         iHandles[nextHandleId] = aHandle;
         return nextHandleId;
     }
-- 
2.43.0


From af2e4bbd34a7a96fdd434461e119564a46668fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:54 +0000
Subject: [PATCH 171/202] fix: ecs: looking up a handle that never was is
 refused

---
 src/ecs/ecs.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index df7ee22..8d60a4b 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -531,6 +531,8 @@ namespace neolib::ecs
     ecs::handle_t ecs::to_handle(handle_id aId) const
     {
         std::unique_lock lock{ mutex() };
+        if (iHandles.size() <= aId)
+            throw invalid_handle_id();
         return iHandles[aId];
     }
 
-- 
2.43.0


From 05172d56f437e997a33eb406ba61a9baf1cbd81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:15 +0000
Subject: [PATCH 172/202] fix: ecs_component: the handles of a record are freed
 once when there is a snapshot

---
 include/neolib/ecs/component.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/neolib/ecs/component.hpp b/include/neolib/ecs/component.hpp
index dae9d54..b1ed1ba 100644
--- a/include/neolib/ecs/component.hpp
+++ b/include/neolib/ecs/component.hpp
@@ -360,6 +360,19 @@ namespace neolib::ecs
                 throw entity_record_not_found();
             if constexpr (data_meta_type::has_handles)
                 data_meta_type::free_handles(base_type::component_data()[reverseIndex], ecs());
+            remove_entity_record(aEntity, reverseIndex);
+            if (have_snapshot())
+            {
+                // the snapshot's record is a copy that owns no handles
+                auto ss = snapshot();
+                if (ss.data().has_entity_record(aEntity))
+                    ss.data().remove_entity_record(aEntity, ss.data().reverse_index(aEntity));
+            }
+        }
+    private:
+        void remove_entity_record(entity_id aEntity, reverse_index_t reverseIndex)
+        {
+            std::scoped_lock<component_mutex<Data>> lock{ mutex() };
             std::swap(base_type::component_data()[reverseIndex], base_type::component_data().back());
             base_type::component_data().pop_back();
             auto tailEntity = entities().back();
@@ -367,13 +380,8 @@ namespace neolib::ecs
             entities().pop_back();
             reverse_indices()[tailEntity] = reverseIndex;
             reverse_indices()[aEntity] = invalid;
-            if (have_snapshot())
-            {
-                auto ss = snapshot();
-                if (ss.data().has_entity_record(aEntity))
-                    ss.data().destroy_entity_record(aEntity);
-            }
         }
+    public:
         value_type& populate(entity_id aEntity, const value_type& aData)
         {
             std::scoped_lock<component_mutex<Data>> lock{ mutex() };
-- 
2.43.0


From ffdb8a87f4a7fcbcf24b583e30727a56e57b58ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:48 +0000
Subject: [PATCH 173/202] fix: ecs: the fields of a clock are numbered from
 nought to three

---
 include/neolib/ecs/clock.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/ecs/clock.hpp b/include/neolib/ecs/clock.hpp
index c09e13c..a5cc9bd 100644
--- a/include/neolib/ecs/clock.hpp
+++ b/include/neolib/ecs/clock.hpp
@@ -128,9 +128,9 @@ namespace neolib::ecs
                     return component_data_field_type::Int64 | component_data_field_type::Atomic;
                 case 1:
                     return component_data_field_type::Int64;
-                case 3:
+                case 2:
                     return component_data_field_type::Float64;
-                case 4:
+                case 3:
                     return component_data_field_type::Int64;
                 default:
                     throw invalid_field_index();
-- 
2.43.0


From a9d86d9d374b021a2d174df217fefba04bb032ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:39 +0000
Subject: [PATCH 174/202] fix: ecs: an entity to be destroyed later is
 destroyed once

---
 src/ecs/ecs.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 8d60a4b..5d08b21 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -410,7 +410,10 @@ namespace neolib::ecs
         {
             auto next = entitiesToDestroy.back();
             entitiesToDestroy.pop_back();
-            destroy_entity(next.first, next.second);
+            // it may have been destroyed since, or its destruction asked for twice, and its id may have a new owner
+            auto& infos = component<entity_info>();
+            if (infos.has_entity_record(next.first) && infos.entity_record(next.first).destroyed)
+                destroy_entity(next.first, next.second);
         }
     }
 
-- 
2.43.0


From dd0712f6db51f34f19b244c8a2c685fce9a9276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:08 +0000
Subject: [PATCH 175/202] fix: ecs: components can be instantiated while others
 are locked

---
 include/neolib/ecs/ecs.hpp |  1 +
 src/ecs/ecs.cpp            | 28 ++++++++++++++++++++++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/neolib/ecs/ecs.hpp b/include/neolib/ecs/ecs.hpp
index 168a46f..866f6db 100644
--- a/include/neolib/ecs/ecs.hpp
+++ b/include/neolib/ecs/ecs.hpp
@@ -154,6 +154,7 @@ namespace neolib::ecs
         handle_t update_handle(handle_id aId, const std::type_info& aTypeInfo, handle_t aHandle) final;
         handle_t release_handle(handle_id aId) final;
     private:
+        std::vector<proxy_mutex<i_lockable>> component_mutexes() const;
         handle_id next_handle_id();
         void free_handle_id(handle_id aId);
     public:
diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 5d08b21..632ebbf 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -359,7 +359,8 @@ namespace neolib::ecs
                 return;
             entitiesToCreate.swap(iEntitiesToCreate);
         }
-        scoped_multi_lock<decltype(iComponentMutexes)> lock{ iComponentMutexes };
+        auto componentMutexes = component_mutexes();
+        scoped_multi_lock<decltype(componentMutexes)> lock{ componentMutexes };
         while (!entitiesToCreate.empty())
         {
             auto next = entitiesToCreate.back();
@@ -373,10 +374,17 @@ namespace neolib::ecs
         if (aNotify)
             EntityDestroyed.trigger(aEntityId);
         {
-            scoped_multi_lock<decltype(iComponentMutexes)> lock{ iComponentMutexes };
-            for (auto& component : iComponents)
-                if (component.second->has_entity_record(aEntityId))
-                    component.second->destroy_entity_record(aEntityId);
+            auto componentMutexes = component_mutexes();
+            scoped_multi_lock<decltype(componentMutexes)> lock{ componentMutexes };
+            std::vector<i_component*> components;
+            {
+                std::unique_lock lock2{ component_mutex() };
+                for (auto& component : iComponents)
+                    components.push_back(&*component.second);
+            }
+            for (auto component : components)
+                if (component->has_entity_record(aEntityId))
+                    component->destroy_entity_record(aEntityId);
         }
         {
             std::unique_lock lock{ entity_mutex() };
@@ -405,7 +413,8 @@ namespace neolib::ecs
                 return;
             entitiesToDestroy.swap(iEntitiesToDestroy);
         }
-        scoped_multi_lock<decltype(iComponentMutexes)> lock{ iComponentMutexes };
+        auto componentMutexes = component_mutexes();
+        scoped_multi_lock<decltype(componentMutexes)> lock{ componentMutexes };
         while (!entitiesToDestroy.empty())
         {
             auto next = entitiesToDestroy.back();
@@ -569,6 +578,13 @@ namespace neolib::ecs
         return handle;
     }
 
+    std::vector<proxy_mutex<i_lockable>> ecs::component_mutexes() const
+    {
+        // a copy, as components can be instantiated while the mutexes are held
+        std::unique_lock lock{ component_mutex() };
+        return iComponentMutexes;
+    }
+
     handle_id ecs::next_handle_id()
     {
         std::unique_lock lock{ mutex() };
-- 
2.43.0


From 0f5cb8bf0334c59ecc402b1291d4ab6ee3bc2b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:38 +0000
Subject: [PATCH 176/202] fix: ecs: threads can be the first to use a
 component, system or archetype together

---
 include/neolib/ecs/i_ecs.hpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/neolib/ecs/i_ecs.hpp b/include/neolib/ecs/i_ecs.hpp
index 497fe40..4d5230a 100644
--- a/include/neolib/ecs/i_ecs.hpp
+++ b/include/neolib/ecs/i_ecs.hpp
@@ -268,8 +268,11 @@ namespace neolib::ecs
         template <typename ComponentData>
         neolib::ecs::component<ComponentData>& component()
         {
-            if (!component_registered<ecs_data_type_t<ComponentData>>())
-                register_component<ecs_data_type_t<ComponentData>>();
+            {
+                std::scoped_lock<neolib::i_lockable> lock{ component_factory_mutex() };
+                if (!component_registered<ecs_data_type_t<ComponentData>>())
+                    register_component<ecs_data_type_t<ComponentData>>();
+            }
             return const_cast<neolib::ecs::component<ecs_data_type_t<ComponentData>>&>(to_const(*this).component<ecs_data_type_t<ComponentData>>());
         }
         template <typename ComponentData>
@@ -285,8 +288,11 @@ namespace neolib::ecs
         template <typename ComponentData>
         neolib::ecs::shared_component<ComponentData>& shared_component()
         {
-            if (!shared_component_registered<ecs_data_type_t<ComponentData>>())
-                register_shared_component<ecs_data_type_t<ComponentData>>();
+            {
+                std::scoped_lock<neolib::i_lockable> lock{ shared_component_factory_mutex() };
+                if (!shared_component_registered<ecs_data_type_t<ComponentData>>())
+                    register_shared_component<ecs_data_type_t<ComponentData>>();
+            }
             return const_cast<neolib::ecs::shared_component<ecs_data_type_t<ComponentData>>&>(to_const(*this).shared_component<ecs_data_type_t<ComponentData>>());
         }
         template <typename System>
@@ -302,8 +308,11 @@ namespace neolib::ecs
         template <typename System>
         ecs_data_type_t<System>& system()
         {
-            if (!system_registered<ecs_data_type_t<System>>())
-                register_system<ecs_data_type_t<System>>();
+            {
+                std::scoped_lock<neolib::i_lockable> lock{ system_factory_mutex() };
+                if (!system_registered<ecs_data_type_t<System>>())
+                    register_system<ecs_data_type_t<System>>();
+            }
             return const_cast<ecs_data_type_t<System>&>(to_const(*this).system<ecs_data_type_t<System>>());
         }
     public:
@@ -683,8 +692,11 @@ namespace neolib::ecs
     template <typename Archetype, typename... ComponentData>
     inline entity_id i_ecs::create_entity(const Archetype& aArchetype, ComponentData&&... aComponentData)
     {
-        if (!archetype_registered(aArchetype))
-            register_archetype(aArchetype);
+        {
+            std::scoped_lock<neolib::i_lockable> lock{ archetype_mutex() };
+            if (!archetype_registered(aArchetype))
+                register_archetype(aArchetype);
+        }
         return create_entity(aArchetype.id(), std::forward<ComponentData>(aComponentData)...);
     }
 
@@ -703,8 +715,6 @@ namespace neolib::ecs
     {
         auto creator = [=, this, &aArchetype]()
         {
-            if (!archetype_registered(aArchetype))
-                register_archetype(aArchetype);
             create_entity(aArchetype, aComponentData...);
         };
         async_create_entity(std::function<void()>{ creator });
-- 
2.43.0


From 7f362d9471a1af53aa5f167051c7eb897b468f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:06 +0000
Subject: [PATCH 177/202] fix: timer: a destroyed timer leaves no timer object
 in its task's service

---
 src/task/timer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index 1b3a95e..e843c57 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -94,6 +94,8 @@ namespace neolib
     {
         cancel();
         unsubscribe();
+        if (iTimerObject && !iTaskDestroying && !iTaskDestroyed)
+            iTask.timer_service().remove_timer_object(*iTimerObject);
     }
 
     i_async_task& timer::owner_task() const
-- 
2.43.0


From 6a6bfdbef89b19bca9695652883ba9c0d6223bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 178/202] fix: ecs: nobody instantiates components while
 another has all of them locked

---
 include/neolib/ecs/ecs.hpp |  2 +-
 src/ecs/ecs.cpp            | 54 ++++++++++++++++++++++----------------
 2 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/include/neolib/ecs/ecs.hpp b/include/neolib/ecs/ecs.hpp
index 866f6db..bca6f43 100644
--- a/include/neolib/ecs/ecs.hpp
+++ b/include/neolib/ecs/ecs.hpp
@@ -154,7 +154,7 @@ namespace neolib::ecs
         handle_t update_handle(handle_id aId, const std::type_info& aTypeInfo, handle_t aHandle) final;
         handle_t release_handle(handle_id aId) final;
     private:
-        std::vector<proxy_mutex<i_lockable>> component_mutexes() const;
+        class scoped_components_lock;
         handle_id next_handle_id();
         void free_handle_id(handle_id aId);
     public:
diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 632ebbf..f6fb1bf 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -237,6 +237,32 @@ namespace neolib::ecs
         iFreedEntityIds.push_back(aId);
     }
 
+    // Locks every component; only the thread that holds the lock can instantiate more components meanwhile.
+    class ecs::scoped_components_lock
+    {
+    public:
+        scoped_components_lock(const ecs& aEcs)
+        {
+            for (;;)
+            {
+                {
+                    std::unique_lock lock{ aEcs.component_mutex() };
+                    iMutexes = aEcs.iComponentMutexes;
+                }
+                auto const count = iMutexes.size();
+                iMutexes.emplace_back(aEcs.component_mutex());
+                iMutexes.emplace_back(aEcs.system_mutex());
+                iLock.emplace(iMutexes);
+                if (aEcs.iComponentMutexes.size() == count)
+                    break;
+                iLock.reset();
+            }
+        }
+    private:
+        std::vector<proxy_mutex<i_lockable>> iMutexes;
+        std::optional<scoped_multi_lock<std::vector<proxy_mutex<i_lockable>>>> iLock;
+    };
+
     ecs::ecs(ecs_flags aCreationFlags) :
         iFlags{ aCreationFlags }, iNextEntityId { null_entity }, iNextHandleId{ null_id },
         iSystemTimer
@@ -359,8 +385,7 @@ namespace neolib::ecs
                 return;
             entitiesToCreate.swap(iEntitiesToCreate);
         }
-        auto componentMutexes = component_mutexes();
-        scoped_multi_lock<decltype(componentMutexes)> lock{ componentMutexes };
+        scoped_components_lock lock{ *this };
         while (!entitiesToCreate.empty())
         {
             auto next = entitiesToCreate.back();
@@ -374,17 +399,10 @@ namespace neolib::ecs
         if (aNotify)
             EntityDestroyed.trigger(aEntityId);
         {
-            auto componentMutexes = component_mutexes();
-            scoped_multi_lock<decltype(componentMutexes)> lock{ componentMutexes };
-            std::vector<i_component*> components;
-            {
-                std::unique_lock lock2{ component_mutex() };
-                for (auto& component : iComponents)
-                    components.push_back(&*component.second);
-            }
-            for (auto component : components)
-                if (component->has_entity_record(aEntityId))
-                    component->destroy_entity_record(aEntityId);
+            scoped_components_lock lock{ *this };
+            for (auto& component : iComponents)
+                if (component.second->has_entity_record(aEntityId))
+                    component.second->destroy_entity_record(aEntityId);
         }
         {
             std::unique_lock lock{ entity_mutex() };
@@ -413,8 +431,7 @@ namespace neolib::ecs
                 return;
             entitiesToDestroy.swap(iEntitiesToDestroy);
         }
-        auto componentMutexes = component_mutexes();
-        scoped_multi_lock<decltype(componentMutexes)> lock{ componentMutexes };
+        scoped_components_lock lock{ *this };
         while (!entitiesToDestroy.empty())
         {
             auto next = entitiesToDestroy.back();
@@ -578,13 +595,6 @@ namespace neolib::ecs
         return handle;
     }
 
-    std::vector<proxy_mutex<i_lockable>> ecs::component_mutexes() const
-    {
-        // a copy, as components can be instantiated while the mutexes are held
-        std::unique_lock lock{ component_mutex() };
-        return iComponentMutexes;
-    }
-
     handle_id ecs::next_handle_id()
     {
         std::unique_lock lock{ mutex() };
-- 
2.43.0


From 2acc781e26b70a8268ec9a3fe51c3dd19d486e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:45 +0000
Subject: [PATCH 179/202] fix: settings: an element that only holds other
 settings has no value to read

---
 src/app/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/settings.cpp b/src/app/settings.cpp
index 32e72cb..3f04afe 100644
--- a/src/app/settings.cpp
+++ b/src/app/settings.cpp
@@ -86,7 +86,7 @@ namespace neolib
                 if (!node)
                     break;
             }
-            if (node)
+            if (node && (**node).has_attribute("value"))
             {
                 aSetting.set_value_from_string(string{ (**node).attribute_value("value") });
                 aSetting.apply_change();
-- 
2.43.0


From d6948c23ea8f69ce6f865ef6a24a0468712da889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:04 +0000
Subject: [PATCH 180/202] fix: settings: the text of a small integer is its
 number and that of a fraction is exact

---
 include/neolib/app/setting.hpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/neolib/app/setting.hpp b/include/neolib/app/setting.hpp
index a2be373..3b489eb 100644
--- a/include/neolib/app/setting.hpp
+++ b/include/neolib/app/setting.hpp
@@ -36,6 +36,8 @@
 #pragma once
 
 #include <neolib/neolib.hpp>
+#include <array>
+#include <charconv>
 #include <neolib/core/reference_counted.hpp>
 #include <neolib/core/string.hpp>
 #include <neolib/core/string_utils.hpp>
@@ -47,6 +49,30 @@
 
 namespace neolib
 {
+    // the text of a value, from which the same value can be read back
+    template <typename T>
+    inline string setting_value_to_string(T const& aValue)
+    {
+        if constexpr (std::is_same_v<T, std::int8_t> || std::is_same_v<T, std::uint8_t>)
+            return to_string(static_cast<int>(aValue));
+        else if constexpr (std::is_floating_point_v<T>)
+        {
+            std::array<char, 64> text;
+            return string{ std::string{ text.data(), std::to_chars(text.data(), text.data() + text.size(), aValue).ptr } };
+        }
+        else
+            return to_string(aValue);
+    }
+
+    template <typename T>
+    inline T setting_value_from_string(i_string const& aText)
+    {
+        if constexpr (std::is_same_v<T, std::int8_t> || std::is_same_v<T, std::uint8_t>)
+            return static_cast<T>(from_string<int>(aText));
+        else
+            return from_string<T>(aText);
+    }
+
     template <typename T>
     class setting : public reference_counted<i_setting>
     {
@@ -159,7 +185,7 @@ namespace neolib
         using i_setting::value_as_string;
         void value_as_string(i_string& aValue, bool aUnappliedNew = false) const override
         {
-            aValue = to_string(value(aUnappliedNew).template get<T>());
+            aValue = setting_value_to_string<T>(value(aUnappliedNew).template get<T>());
         }
         using i_setting::set_default_value;
         void set_default_value(i_setting_value const& aDefaultValue) override
@@ -195,7 +221,7 @@ namespace neolib
         }
         void set_value_from_string(i_string const& aNewValue) override
         {
-            set_value(setting_value<T>{ from_string<T>(aNewValue) });
+            set_value(setting_value<T>{ setting_value_from_string<T>(aNewValue) });
         }
         void clear() override
         {
-- 
2.43.0


From 24e94e0db98c66c72d5125752da0065c8ada6e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:19 +0000
Subject: [PATCH 181/202] fix: numeric: text without a number is read as nought

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 1ed6df0..6e2bdbb 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -107,7 +107,7 @@ namespace neolib
             return aValueAsString;
         else
         {
-            T result;
+            T result{};
             std::istringstream iss{ aValueAsString };
             iss >> result;
             return result;
-- 
2.43.0


From 4ef5b3db17f0b85f0ff175505d411b43f3683e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:05 +0000
Subject: [PATCH 182/202] fix: vector_math: the outer product of four
 dimensional vectors puts each product in its place

---
 include/neolib/core/simd.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/neolib/core/simd.hpp b/include/neolib/core/simd.hpp
index b5f284d..41a8ef3 100644
--- a/include/neolib/core/simd.hpp
+++ b/include/neolib/core/simd.hpp
@@ -141,20 +141,22 @@ namespace neolib
             alignas(32) __m256d lhs = _mm256_set_pd(x1, y1, z1, w1);
             alignas(32) __m256d rhs = _mm256_set_pd(x2, y2, z2, w2);
             alignas(32) __m256d ans = _mm256_mul_pd(lhs, rhs);
-            a = to_scalar(ans, 0);
-            b = to_scalar(ans, 1);
-            c = to_scalar(ans, 2);
-            d = to_scalar(ans, 3);
+            // n.b. _mm256_set_pd places its first argument in the highest lane
+            a = to_scalar(ans, 3);
+            b = to_scalar(ans, 2);
+            c = to_scalar(ans, 1);
+            d = to_scalar(ans, 0);
         }
         else
         {
             alignas(32) __m256 lhs = _mm256_set_ps(x1, y1, z1, w1, 0.0f, 0.0f, 0.0f, 0.0f);
             alignas(32) __m256 rhs = _mm256_set_ps(x2, y2, z2, w2, 0.0f, 0.0f, 0.0f, 0.0f);
             alignas(32) __m256 ans = _mm256_mul_ps(lhs, rhs);
-            a = to_scalar(ans, 0);
-            b = to_scalar(ans, 1);
-            c = to_scalar(ans, 2);
-            d = to_scalar(ans, 3);
+            // n.b. _mm256_set_ps places its first argument in the highest lane
+            a = to_scalar(ans, 7);
+            b = to_scalar(ans, 6);
+            c = to_scalar(ans, 5);
+            d = to_scalar(ans, 4);
         }
     }
 #endif
-- 
2.43.0


From c406e5f4a52df34f601e0c84acf3c4d8c4772f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:11 +0000
Subject: [PATCH 183/202] fix: vector_math: assigning a swizzle from one of the
 same name writes only its components

---
 include/neolib/core/swizzle.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/neolib/core/swizzle.hpp b/include/neolib/core/swizzle.hpp
index 23608c8..f7a6738 100644
--- a/include/neolib/core/swizzle.hpp
+++ b/include/neolib/core/swizzle.hpp
@@ -84,6 +84,15 @@ namespace neolib
                 static constexpr uint32_t value = Index;
             };
         public:
+            swizzle() = default;
+            swizzle(const swizzle&) = default;
+            swizzle& operator=(const swizzle& aRhs)
+            {
+                value_type source[S];
+                aRhs.copy(&source[0]);
+                assign(&source[0], &v[Indexes]...);
+                return *this;
+            }
             swizzle& operator=(const value_type& aRhs)
             {
                 static_assert(greater_than<vector_type::Size, Indexes...>::result, "Swizzle too big");
-- 
2.43.0


From 325a363f446f1695aa1ed53836257cbd8de7c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:11 +0000
Subject: [PATCH 184/202] fix: vector_math: round_to rounds negative elements
 to the nearest multiple too

---
 include/neolib/core/numerical.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index db0e3f8..04cb55e 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -993,8 +993,7 @@ namespace neolib
                 for (std::uint32_t column = 0; column < Columns; ++column)
                     for (std::uint32_t row = 0; row < Rows; ++row)
                     {
-                        std::modf((*this)[column][row] / aEpsilon + static_cast<value_type>(0.5), &result[column][row]);
-                        result[column][row] *= aEpsilon;
+                        result[column][row] = std::floor((*this)[column][row] / aEpsilon + static_cast<value_type>(0.5)) * aEpsilon;
                     }
                 return result;
             }
-- 
2.43.0


From 5d76a3a7475c32610bd359fa8a1a71a429287eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:11 +0000
Subject: [PATCH 185/202] fix: vector_math: half a turn is a rotation, and
 parallel vectors have one taking the first to the second

---
 include/neolib/core/numerical.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 04cb55e..c5aa800 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -1555,8 +1555,6 @@ namespace neolib
         {
             if (std::abs(angle) <= epsilon)
                 return basic_matrix<T, 3u, 3u>::identity();
-            else if (std::abs(angle - boost::math::constants::pi<T>()) <= epsilon)
-                return -basic_matrix<T, 3u, 3u>::identity();
             T const s = std::sin(angle);
             T const c = std::cos(angle);
             T const a = static_cast<T>(1.0) - c;
@@ -1574,7 +1572,19 @@ namespace neolib
         {
             auto const nva = vectorA.normalized();
             auto const nvb = vectorB.normalized();
-            return rotation_matrix(nva.cross(nvb).normalized(), std::acos(nva.dot(nvb)), epsilon);
+            auto const axis = nva.cross(nvb);
+            T const cosine = std::clamp(nva.dot(nvb), -constants::one<T>, constants::one<T>);
+            if (axis.magnitude() <= epsilon)
+            {
+                if (cosine > constants::zero<T>)
+                    return basic_matrix<T, 3u, 3u>::identity();
+                // opposite vectors: half a turn about any axis perpendicular to them
+                auto const other = std::abs(nva.x) < constants::half<T> ?
+                    basic_vector<T, 3u>{ constants::one<T>, constants::zero<T>, constants::zero<T> } :
+                    basic_vector<T, 3u>{ constants::zero<T>, constants::one<T>, constants::zero<T> };
+                return rotation_matrix(nva.cross(other).normalized(), pi<T>(), epsilon);
+            }
+            return rotation_matrix(axis.normalized(), std::acos(cosine), epsilon);
         }
 
         template <std::floating_point T>
-- 
2.43.0


From ef5cf0bce4b6f60d7032c9ad9a8aa0c255af3c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:34 +0000
Subject: [PATCH 186/202] fix: vector_math: a box contains what lies between
 its corners in every axis

---
 include/neolib/core/numerical.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index c5aa800..23f4aaa 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -2204,13 +2204,13 @@ namespace neolib
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb<Vertex>& outer, const basic_aabb<Vertex>& inner)
         {
-            return inner.min >= outer.min && inner.max <= outer.max;
+            return aabb_contains(outer, inner.min) && aabb_contains(outer, inner.max);
         }
 
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb<Vertex>& outer, const Vertex& point)
         {
-            return point >= outer.min && point <= outer.max;
+            return outer.min.min(point) == outer.min && outer.max.max(point) == outer.max;
         }
 
         template <typename Vertex>
@@ -2433,13 +2433,13 @@ namespace neolib
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb_2d<Vertex>& outer, const basic_aabb_2d<Vertex>& inner)
         {
-            return inner.min >= outer.min && inner.max <= outer.max;
+            return aabb_contains(outer, inner.min) && aabb_contains(outer, inner.max);
         }
 
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb_2d<Vertex>& outer, const Vertex& point)
         {
-            return point >= outer.min && point <= outer.max;
+            return outer.min.min(point) == outer.min && outer.max.max(point) == outer.max;
         }
 
         template <typename Vertex>
-- 
2.43.0


From ca40a82a7b46a60dcf97385eaa20d4407a125685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:34 +0000
Subject: [PATCH 187/202] fix: vector_math: transforming a box translates it as
 it does points

---
 include/neolib/core/numerical.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 23f4aaa..45a2d03 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -2083,14 +2083,14 @@ namespace neolib
             using coordinate_t = typename Vertex::value_type;
             std::array<Vertex, 8> boxVertices =
             {
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.max.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.max.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.max.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.max.z, coordinate_t{} }).xyz
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.min.z, constants::one<coordinate_t> }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.min.z, constants::one<coordinate_t> }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.min.z, constants::one<coordinate_t> }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.min.z, constants::one<coordinate_t> }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.max.z, constants::one<coordinate_t> }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.max.z, constants::one<coordinate_t> }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.max.z, constants::one<coordinate_t> }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.max.z, constants::one<coordinate_t> }).xyz
             };
             basic_aabb<Vertex> result{ boxVertices[0], boxVertices[0] };
             for (auto const& v : boxVertices)
@@ -2288,10 +2288,10 @@ namespace neolib
             using coordinate_t = typename Vertex::value_type;
             std::array<Vertex, 4> boxVertices =
             {
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.min.x, aAabb.min.y, coordinate_t{} }).xy,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.max.x, aAabb.min.y, coordinate_t{} }).xy,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.min.x, aAabb.max.y, coordinate_t{} }).xy,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.max.x, aAabb.max.y, coordinate_t{} }).xy
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.min.x, aAabb.min.y, constants::one<coordinate_t> }).xy,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.max.x, aAabb.min.y, constants::one<coordinate_t> }).xy,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.min.x, aAabb.max.y, constants::one<coordinate_t> }).xy,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.max.x, aAabb.max.y, constants::one<coordinate_t> }).xy
             };
             basic_aabb_2d<Vertex> result{ boxVertices[0].xy, boxVertices[0].xy };
             for (auto const& v : boxVertices)
-- 
2.43.0


From b7aef227a09e7e7630a638ae655d6115a108474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:34 +0000
Subject: [PATCH 188/202] fix: vector_math: a matrix can be combined with a
 scalar

---
 include/neolib/core/numerical.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 45a2d03..914d57c 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -969,6 +969,10 @@ namespace neolib
             bool operator!=(const basic_matrix& right) const { return m != right.m; }
             basic_matrix& operator+=(const basic_matrix& right) { for (std::uint32_t column = 0; column < Columns; ++column) (*this)[column] += right[column]; return *this; }
             basic_matrix& operator-=(const basic_matrix& right) { for (std::uint32_t column = 0; column < Columns; ++column) (*this)[column] -= right[column]; return *this; }
+            basic_matrix& operator+=(value_type right) { for (auto& column : m) column += right; return *this; }
+            basic_matrix& operator-=(value_type right) { for (auto& column : m) column -= right; return *this; }
+            basic_matrix& operator*=(value_type right) { for (auto& column : m) column *= right; return *this; }
+            basic_matrix& operator/=(value_type right) { for (auto& column : m) column /= right; return *this; }
             basic_matrix& operator*=(const basic_matrix& right)
             {
                 basic_matrix result;
-- 
2.43.0


From 8a79258713a24365dfd0332de26c8a1ac725b661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:34 +0000
Subject: [PATCH 189/202] fix: vector_math: matrices that are not square can be
 multiplied

---
 include/neolib/core/numerical.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 914d57c..e168436 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -1024,7 +1024,10 @@ namespace neolib
             }
             bool is_identity() const
             {
-                return std::memcmp(&m, &identity().m, sizeof(m)) == 0;
+                if constexpr (Rows == Columns)
+                    return std::memcmp(&m, &identity().m, sizeof(m)) == 0;
+                else
+                    return false;
             }
         public:
             friend void swap(basic_matrix& a, basic_matrix& b)
@@ -1281,10 +1284,13 @@ namespace neolib
         inline basic_matrix<T, D1, D1> operator*(const basic_matrix<T, D1, D2>& left, const basic_matrix<T, D2, D1>& right)
         {
 #if defined(IDENTITY_MATRIX_OPTIMISATIONS)
-            if (left.is_identity())
-                return right;
-            if (right.is_identity())
-                return left;
+            if constexpr (D1 == D2)
+            {
+                if (left.is_identity())
+                    return right;
+                if (right.is_identity())
+                    return left;
+            }
 #endif
             basic_matrix<T, D1, D1> result;
             for (std::uint32_t column = 0u; column < D1; ++column)
-- 
2.43.0


From 2b634ba73251fddd06179c74f319917da39d0199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:34 +0000
Subject: [PATCH 190/202] fix: vector_math: boxes of floats around a point and
 extents of quads can be had

---
 include/neolib/core/numerical.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index e168436..c80256d 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -1949,10 +1949,10 @@ namespace neolib
         constexpr std::size_t QuadBottomRight = static_cast<std::size_t>(quad_corner::BottomRight);
         constexpr std::size_t QuadBottomLeft = static_cast<std::size_t>(quad_corner::BottomLeft);
 
-        template <typename T, std::size_t D>
-        inline basic_vector<T, D> quad_extents(std::array<basic_vector<T, D>, 4> const& aQuad)
+        template <typename T, std::uint32_t D>
+        inline basic_vector<T, 2u> quad_extents(std::array<basic_vector<T, D>, 4> const& aQuad)
         {
-            return basic_vector<T, D>{
+            return basic_vector<T, 2u>{
                 (aQuad[QuadTopRight].distance(aQuad[QuadTopLeft]) + aQuad[QuadBottomLeft].distance(aQuad[QuadBottomRight])) / static_cast<T>(2.0),
                     (aQuad[QuadTopLeft].distance(aQuad[QuadBottomLeft]) + aQuad[QuadTopRight].distance(aQuad[QuadBottomRight])) / static_cast<T>(2.0)
             };
@@ -2315,13 +2315,13 @@ namespace neolib
         template <typename T>
         inline basic_aabb_2d<basic_vector<T, 2u>> to_aabb_2d(const basic_vector<T, 2u>& aOrigin, T aSize)
         {
-            return basic_aabb_2d<basic_vector<T, 2u>>{ (aOrigin - aSize / 2.0).xy, (aOrigin + aSize / 2.0).xy };
+            return basic_aabb_2d<basic_vector<T, 2u>>{ aOrigin - aSize / static_cast<T>(2.0), aOrigin + aSize / static_cast<T>(2.0) };
         }
 
         template <typename T>
         inline basic_aabb_2d<basic_vector<T, 2u>> to_aabb_2d(const basic_vector<T, 2u>& aOrigin, const basic_vector<T, 2u>& aSize)
         {
-            return basic_aabb_2d<basic_vector<T, 2u>>{ (aOrigin - aSize / 2.0).xy, (aOrigin + aSize / 2.0).xy };
+            return basic_aabb_2d<basic_vector<T, 2u>>{ aOrigin - aSize / static_cast<T>(2.0), aOrigin + aSize / static_cast<T>(2.0) };
         }
 
         template <typename VertexIter, typename Vertex = typename std::iterator_traits<VertexIter>::value_type>
-- 
2.43.0


From 2d1e2e6adf4f7fd6d98ae4d792e3f8b5f8d38e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:28 +0000
Subject: [PATCH 191/202] fix: random: the vectorised generator returns its
 four numbers, not what lies beyond them

---
 include/neolib/core/simd.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/simd.hpp b/include/neolib/core/simd.hpp
index 41a8ef3..dee7b1e 100644
--- a/include/neolib/core/simd.hpp
+++ b/include/neolib/core/simd.hpp
@@ -82,7 +82,9 @@ namespace neolib
 #ifdef _WIN32
         return emmRegister.m128i_u32[index];
 #else
-        return emmRegister[index];
+        alignas(16) std::uint32_t lanes[4];
+        _mm_store_si128(reinterpret_cast<__m128i*>(lanes), emmRegister);
+        return lanes[index];
 #endif
     }
 #endif
-- 
2.43.0


From cd0a54080c16aa984ca82203f024069902d88e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:44 +0000
Subject: [PATCH 192/202] fix: easing: out-in easings are not reversed in-out
 easings

---
 include/neolib/core/easing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/easing.hpp b/include/neolib/core/easing.hpp
index 90e64a1..5d066fa 100644
--- a/include/neolib/core/easing.hpp
+++ b/include/neolib/core/easing.hpp
@@ -393,7 +393,7 @@ namespace neolib
                 Out = 0x0200,
                 Reversed = 0x0400,
                 InOut = In | Out,
-                OutIn = In | Out | Reversed,
+                OutIn = In | Out | 0x2000, ///< not Reversed, which is a flag of its own
                 Inverted = 0x0800,
                 Constant = 0x1000,
                 CLASS_MASK = 0x00FF,
-- 
2.43.0


From 42d2c8e61c7b75b334fc71be6c877124ec7857a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:44 +0000
Subject: [PATCH 193/202] fix: easing: ease_out_back takes the same argument as
 its siblings

---
 include/neolib/core/easing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/easing.hpp b/include/neolib/core/easing.hpp
index 5d066fa..40d289e 100644
--- a/include/neolib/core/easing.hpp
+++ b/include/neolib/core/easing.hpp
@@ -242,7 +242,7 @@ namespace neolib
             }
 
             template <typename T, typename Arg = T>
-            inline T ease_out_back(T t, T s = 1.70158)
+            inline T ease_out_back(T t, Arg s = 1.70158)
             {
                 return 1.0 - ease_in_back(1.0 - t, s);
             }
-- 
2.43.0


From 1bc28f6b83930c375878805fb64da7e699c2b0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:44 +0000
Subject: [PATCH 194/202] fix: enum: values of one byte are written as
 hexadecimal numbers too

---
 include/neolib/core/i_enum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/i_enum.hpp b/include/neolib/core/i_enum.hpp
index c9d5ed1..e8b09a6 100644
--- a/include/neolib/core/i_enum.hpp
+++ b/include/neolib/core/i_enum.hpp
@@ -70,7 +70,7 @@ namespace neolib
     inline std::string enum_to_hex(Enum aEnumValue)
     {
         std::ostringstream oss;
-        oss << "0x" << std::uppercase << std::hex << std::setfill('0') << std::setw(sizeof(Enum) * 2u) << static_cast<std::underlying_type_t<Enum>>(aEnumValue) << "u";
+        oss << "0x" << std::uppercase << std::hex << std::setfill('0') << std::setw(sizeof(Enum) * 2u) << +static_cast<std::make_unsigned_t<std::underlying_type_t<Enum>>>(aEnumValue) << "u";
         return oss.str();
     }
 
-- 
2.43.0


From f28898958344967ae6b597a15ee7a61acac9c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:58 +0000
Subject: [PATCH 195/202] fix: enum: a value can be set by name through the
 interface

---
 include/neolib/core/i_enum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/i_enum.hpp b/include/neolib/core/i_enum.hpp
index e8b09a6..dcbc449 100644
--- a/include/neolib/core/i_enum.hpp
+++ b/include/neolib/core/i_enum.hpp
@@ -195,7 +195,7 @@ namespace neolib
             return static_cast<Enum>(value());
         }
         template <typename Enum>
-        void set_value(Enum aValue)
+        std::enable_if_t<std::is_enum_v<Enum>> set_value(Enum aValue)
         {
             set_value(static_cast<underlying_type>(aValue));
         }
-- 
2.43.0


From e9187d9f6588590a92efbbe544ed47e467661ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:05 +0000
Subject: [PATCH 196/202] fix: enum: a setting of an enumeration can be set by
 number again

---
 include/neolib/core/i_enum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/i_enum.hpp b/include/neolib/core/i_enum.hpp
index dcbc449..5bf0882 100644
--- a/include/neolib/core/i_enum.hpp
+++ b/include/neolib/core/i_enum.hpp
@@ -195,7 +195,7 @@ namespace neolib
             return static_cast<Enum>(value());
         }
         template <typename Enum>
-        std::enable_if_t<std::is_enum_v<Enum>> set_value(Enum aValue)
+        std::enable_if_t<std::is_enum_v<Enum> || std::is_arithmetic_v<Enum>> set_value(Enum aValue)
         {
             set_value(static_cast<underlying_type>(aValue));
         }
-- 
2.43.0


From e3944afc9a1153faf8b28de25765ff8d82b18d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:36 +0000
Subject: [PATCH 197/202] fix: task: the end of a task's destruction is
 announced

---
 src/task/async_task.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task/async_task.cpp b/src/task/async_task.cpp
index 9bb56cb..c8755bb 100644
--- a/src/task/async_task.cpp
+++ b/src/task/async_task.cpp
@@ -226,6 +226,7 @@ namespace neolib
         set_destroying();
         if (joined())
             thread().abort();
+        set_destroyed();
     }
 
     i_thread& async_task::thread() const
-- 
2.43.0


From 58e22a78a3bdaaa55ca54e1ea88d70d63c74d0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:37 +0000
Subject: [PATCH 198/202] fix: task: a task goes on working after its I/O was
 cancelled

---
 src/task/async_task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/async_task.cpp b/src/task/async_task.cpp
index c8755bb..b2ede63 100644
--- a/src/task/async_task.cpp
+++ b/src/task/async_task.cpp
@@ -286,7 +286,8 @@ namespace neolib
             didSome = (iTimerService->poll(true) || didSome);
 
         for (auto& service : iIoServices)
-            didSome = (service.second->poll(true) || didSome);
+            if (service.second != nullptr) // may have been cancelled
+                didSome = (service.second->poll(true) || didSome);
 
         if (!didSome && aYieldIfNoWork != yield_type::NoYield)
         {
-- 
2.43.0


From a502242bce179388d10ba77751acac8d7d8641c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:37 +0000
Subject: [PATCH 199/202] fix: task: events may register and remove event
 queues

---
 src/task/async_task.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/task/async_task.cpp b/src/task/async_task.cpp
index b2ede63..8ea0d74 100644
--- a/src/task/async_task.cpp
+++ b/src/task/async_task.cpp
@@ -356,8 +356,11 @@ namespace neolib
 
         {
             std::scoped_lock lock{ iMutex };
-            for (auto eventQueue : iEventQueues)
+            auto const eventQueues = iEventQueues; // which the events may change
+            for (auto eventQueue : eventQueues)
             {
+                if (std::find(iEventQueues.begin(), iEventQueues.end(), eventQueue) == iEventQueues.end())
+                    continue;
                 didSome = (eventQueue->pump_events() || didSome);
 
                 if (service<i_time_slice>().expired())
-- 
2.43.0


From 54041277b751155ff0ffebd5a370a6c2406b1c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:25 +0000
Subject: [PATCH 200/202] fix: task: a task can be halted or cancelled from
 inside its work and still be destroyed safely

---
 include/neolib/task/async_task.hpp | 2 ++
 src/task/async_task.cpp            | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/neolib/task/async_task.hpp b/include/neolib/task/async_task.hpp
index ba843c3..dec093a 100644
--- a/include/neolib/task/async_task.hpp
+++ b/include/neolib/task/async_task.hpp
@@ -37,6 +37,7 @@
 
 #include <neolib/neolib.hpp>
 #include <atomic>
+#include <thread>
 #include <neolib/core/lifetime.hpp>
 #include <neolib/app/module.hpp>
 #include <neolib/task/i_thread.hpp>
@@ -142,5 +143,6 @@ namespace neolib
         message_queue_pointer iMessageQueue;
         std::vector<i_async_event_queue*> iEventQueues;
         std::atomic<async_task_state> iState;
+        std::atomic<std::thread::id> iRunThread;
     };
 }
diff --git a/src/task/async_task.cpp b/src/task/async_task.cpp
index 8ea0d74..420864b 100644
--- a/src/task/async_task.cpp
+++ b/src/task/async_task.cpp
@@ -439,17 +439,21 @@ namespace neolib
 
     void async_task::run(yield_type aYieldType)
     {
+        iRunThread = std::this_thread::get_id();
         iState = async_task_state::Running;
         while (!finished() && !cancelled())
             do_work(aYieldType);
         detach();
         iState = async_task_state::Finished;
+        iRunThread = std::thread::id{};
     }
 
     void async_task::cancel() noexcept
     {
         base_type::cancel();
-        while (running())
+        if (iRunThread.load() == std::this_thread::get_id())
+            return; // we can't wait for ourselves
+        while (iRunThread.load() != std::thread::id{}) // halted or not
             std::this_thread::sleep_for(std::chrono::milliseconds{ 1 });
         iTimerService.reset();
         cancel_io_context();
-- 
2.43.0


From 9103042c5cd7073f386972f3c90be944442bb276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:23 +0000
Subject: [PATCH 201/202] fix: task: a thread may end while another triggers an
 event of its

---
 include/neolib/task/event.hpp | 10 ++++++----
 src/task/event.cpp            |  7 ++++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index 80e076f..821cb29 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -80,6 +80,7 @@ namespace neolib
     public:
         static async_event_queue& instance();
         static async_event_queue& instance(std::thread::id aThreadId);
+        static event_mutex<async_event_queue>& instances_mutex();
     public:
         async_event_queue();
         ~async_event_queue();
@@ -193,7 +194,7 @@ namespace neolib
                 if (slot->call_in_emitter_thread() || slot->call_thread() == std::this_thread::get_id())
                     slot->call(aArgs...);
                 else
-                    async_trigger(async_event_queue::instance(slot->call_thread()), *slot, trigger_type() == neolib::trigger_type::SynchronousDontQueue, aArgs...);
+                    async_trigger(slot->call_thread(), *slot, trigger_type() == neolib::trigger_type::SynchronousDontQueue, aArgs...);
                 if (destroyed)
                     return trigger_result::Unaccepted;
                 if (workList.accepted)
@@ -206,7 +207,7 @@ namespace neolib
         {
             std::unique_lock lock{ iMutex };
             for (auto slot : iSlots)
-                async_trigger(async_event_queue::instance(slot->call_thread()), *slot, trigger_type() == neolib::trigger_type::AsynchronousDontQueue, aArgs...);
+                async_trigger(slot->call_thread(), *slot, trigger_type() == neolib::trigger_type::AsynchronousDontQueue, aArgs...);
         }
         void accept() const final
         {
@@ -244,9 +245,10 @@ namespace neolib
             thread_local std::vector<work_list*> tActiveWorkLists;
             return tActiveWorkLists;
         }
-        void async_trigger(async_event_queue& aQueue, i_slot<Args...>& aSlot, bool aNoDuplicates, Args... aArgs) const
+        void async_trigger(std::thread::id aThreadId, i_slot<Args...>& aSlot, bool aNoDuplicates, Args... aArgs) const
         {
-            aQueue.enqueue<Args...>(aSlot, aNoDuplicates, aArgs...);
+            std::scoped_lock lock{ async_event_queue::instances_mutex() }; // the thread may be ending
+            async_event_queue::instance(aThreadId).enqueue<Args...>(aSlot, aNoDuplicates, aArgs...);
         }
     private:
         mutable event_mutex<event> iMutex;
diff --git a/src/task/event.cpp b/src/task/event.cpp
index e82c537..9158e39 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -49,7 +49,7 @@ namespace neolib
     {
         struct instance_map_type : std::unordered_map<std::thread::id, async_event_queue*>
         {
-            event_mutex<instance_map_type> mutex;
+            event_mutex<async_event_queue> mutex;
         };
 
         instance_map_type& instance_map()
@@ -75,6 +75,11 @@ namespace neolib
         throw std::logic_error("neolib::async_event_queue::instance: instance not found");
     }
 
+    event_mutex<async_event_queue>& async_event_queue::instances_mutex()
+    {
+        return instance_map().mutex;
+    }
+
     async_event_queue::async_event_queue()
     {
         std::scoped_lock lock{ instance_map().mutex };
-- 
2.43.0


From c7150d6d3be16d7b4743b7a5940c6616d184a0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:49 +0000
Subject: [PATCH 202/202] fix: optional: an optional can be ordered against an
 abstract value

---
 include/neolib/core/optional.hpp | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/include/neolib/core/optional.hpp b/include/neolib/core/optional.hpp
index 7ad6a47..7ef1dff 100644
--- a/include/neolib/core/optional.hpp
+++ b/include/neolib/core/optional.hpp
@@ -316,24 +316,6 @@ namespace neolib
             return lhs <=> rhs.value();
     }
 
-    template <typename T, std::enable_if_t<!std::is_same_v<T, maybe_abstract_t<T>>, int> = 0>
-    inline std::partial_ordering operator<=>(const optional<T>& lhs, const maybe_abstract_t<T>& rhs)
-    {
-        if (!lhs.has_value())
-            return std::partial_ordering::less;
-        else
-            return lhs.value() <=> rhs;
-    }
-
-    template <typename T, std::enable_if_t<!std::is_same_v<T, maybe_abstract_t<T>>, int> = 0>
-    inline std::partial_ordering operator<=>(const maybe_abstract_t<T>& lhs, const optional<T>& rhs)
-    {
-        if (!rhs.has_value())
-            return std::partial_ordering::greater;
-        else
-            return lhs <=> rhs.value();
-    }
-
     template <typename T>
     struct optional_type { typedef T type; };
     template <typename T>
-- 
2.43.0

