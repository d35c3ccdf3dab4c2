From fbb26908c4717980b405bda342c357a6b401afea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 001/131] fix: Buffer::Shrink() keeps the prefix and moves the
 read/write index

---
 kanon/buffer/buffer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kanon/buffer/buffer.cc b/kanon/buffer/buffer.cc
index 3d24d36..f4c9065 100644
--- a/kanon/buffer/buffer.cc
+++ b/kanon/buffer/buffer.cc
@@ -19,9 +19,12 @@ void Buffer::Shrink(size_type n)
   // tmp.ReserveWriteSpace(GetReadableSize() + n);
   // tmp.Append(ToStringView());
   // swap(tmp);
-  if (read_index_ != BUFFER_PREFIX_SIZE) {
+  if (read_index_ > BUFFER_PREFIX_SIZE) {
+    const auto readable = GetReadableSize();
     std::copy(offset(read_index_), offset(write_index_),
               offset(BUFFER_PREFIX_SIZE));
+    read_index_ = BUFFER_PREFIX_SIZE;
+    write_index_ = read_index_ + readable;
   }
 
 #ifndef NDEBUG
@@ -30,7 +33,8 @@ void Buffer::Shrink(size_type n)
   }
 #endif
 
-  data_.Shrink(GetReadableSize() + n);
+  // Keep the prepend region and the readable region
+  data_.Shrink(write_index_ + n);
 }
 
 void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
-- 
2.43.0


From a7bc2486070c3b843e3d9dd82e01fa5d7667ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 002/131] fix: Buffer::ReserveWriteSpace() underflow when the
 prefix is used by Prepend()

---
 kanon/buffer/buffer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/buffer/buffer.cc b/kanon/buffer/buffer.cc
index f4c9065..f2c325d 100644
--- a/kanon/buffer/buffer.cc
+++ b/kanon/buffer/buffer.cc
@@ -56,7 +56,9 @@ void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
   // | | |                        |
   // +-+-+------------------------+
   //
-  if (len > GetPrependableSize() - BUFFER_PREFIX_SIZE + GetWritableSize()) {
+  // (The prepend region may be smaller than the prefix after Prepend(), don't
+  // subtract the prefix from it)
+  if (len + BUFFER_PREFIX_SIZE > GetPrependableSize() + GetWritableSize()) {
     // FIXME Need copy [readable region] to the BUFFER_PREFIX_SIZE?
 #if 0
     size_t at_least_size = write_index_ + len;
-- 
2.43.0


From bf9182231540e2663373c2f5c5a7e06e71acb858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 003/131] fix: ReservedArray Grow()/Shrink() never destroyed
 the relocated elements

---
 kanon/algo/reserved_array.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index 9d5a9b5..68dd23f 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -261,17 +261,23 @@ class ReservedArray : protected Alloc {
       throw std::bad_alloc{};
     }
 
-    auto new_end = new_data;
+    // Construct the new elements first: they may throw even though the old
+    // elements are moved, which can't be undone.
+    auto const new_tail = new_data + GetSize();
+    auto const new_end = new_data + n;
+    auto constructed_end = new_tail;
 
     try {
-      new_end = zstl::UninitializedMoveIfNoexcept(data_, end_, new_end);
-      new_end = zstl::UninitializedDefaultConstruct(new_end, new_data + n);
+      constructed_end = zstl::UninitializedDefaultConstruct(new_tail, new_end);
+      zstl::UninitializedMoveIfNoexcept(data_, end_, new_data);
     }
     catch (...) {
+      zstl::DestroyRange(new_tail, constructed_end);
       AllocTraits::deallocate(*this, new_data, n);
       throw;
     }
 
+    zstl::DestroyRange(data_, end_);
     AllocTraits::deallocate(*this, data_, GetSize());
     data_ = new_data;
     end_ = new_end;
@@ -316,10 +322,8 @@ class ReservedArray : protected Alloc {
       throw;
     }
 
-    for (auto beg = data_ + n; beg != end_; ++beg) {
-      AllocTraits::destroy(*this, beg);
-    }
-
+    // Including the moved-from elements
+    zstl::DestroyRange(data_, end_);
     AllocTraits::deallocate(*this, data_, GetSize());
 
     data_ = new_data;
-- 
2.43.0


From dec2ea5f824fda7c463d9a9bc347aa67cfd02785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 004/131] fix: ReservedArray copy assignment from an empty
 array freed the storage twice

---
 kanon/algo/reserved_array.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index 68dd23f..a9bc1e2 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -355,6 +355,12 @@ class ReservedArray : protected Alloc {
   template <typename U, typename = zstl::enable_if_t<cond<U>::value>>
   void CopyAssignmentForSizeNotEqual(ReservedArray const &other)
   {
+    // realloc(p, 0) frees p and returns NULL
+    if (other.empty()) {
+      Shrink(0);
+      return;
+    }
+
     auto tmp = this->reallocate(data_, other.size());
 
     if (tmp == NULL) {
-- 
2.43.0


From 03790961a23d2c3b7eae3bc768ff663159728ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 005/131] fix: ReservedArray copy assignment destroyed surplus
 elements after realloc()

---
 kanon/algo/reserved_array.h | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index a9bc1e2..13550b4 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -355,29 +355,15 @@ class ReservedArray : protected Alloc {
   template <typename U, typename = zstl::enable_if_t<cond<U>::value>>
   void CopyAssignmentForSizeNotEqual(ReservedArray const &other)
   {
-    // realloc(p, 0) frees p and returns NULL
-    if (other.empty()) {
-      Shrink(0);
-      return;
-    }
-
-    auto tmp = this->reallocate(data_, other.size());
-
-    if (tmp == NULL) {
-      throw std::bad_alloc{};
-    }
-
+    // The surplus elements must be destroyed before they are given back to
+    // realloc(), Grow()/Shrink() handle this
     if (other.size() > size()) {
-      std::copy(other.begin(), other.begin() + size(), tmp);
-      std::uninitialized_copy(other.begin() + size(), other.end(),
-                              tmp + size());
+      Grow(other.size());
     } else {
-      std::copy(other.begin(), other.end(), tmp);
-      zstl::DestroyRange(tmp + other.size(), tmp + size());
+      Shrink(other.size());
     }
 
-    data_ = tmp;
-    end_ = data_ + other.size();
+    std::copy(other.begin(), other.end(), begin());
   }
 
   template <typename U, zstl::enable_if_t<!cond<U>::value, int> = 0>
-- 
2.43.0


From cb403c69591b8bfbdc8f57bee4bb53102ee46a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 006/131] fix: ForwardList::resize(n) didn't compile

---
 kanon/algo/forward_list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list.h b/kanon/algo/forward_list.h
index 96def31..104b1bf 100644
--- a/kanon/algo/forward_list.h
+++ b/kanon/algo/forward_list.h
@@ -182,7 +182,7 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
 
   KANON_INLINE void resize(SizeType n)
   {
-    resize_impl<ValueType>(n, ValueType{});
+    resize_impl<ValueType>(n);
   }
   void resize(SizeType n, ValueType const &val);
 
-- 
2.43.0


From a0ba3c103f46ee09ddd690ad3deae3eed936c9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 007/131] fix: ForwardList self-assignment used destroyed
 elements

---
 kanon/algo/forward_list/forward_list_impl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index ee70a53..6afa15a 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -43,8 +43,7 @@ void FORWARD_LIST_TEMPLATE::assign(SizeType count, ValueType const &value)
 {
   Iterator beg;
   for (beg = before_begin(); count != 0 && beg.next() != end(); ++beg) {
-    AllocTraits::destroy(*this, &*beg.next());
-    AllocTraits::construct(*this, &*beg.next(), value);
+    *beg.next() = value;
     --count;
   }
 
@@ -68,8 +67,7 @@ void FORWARD_LIST_TEMPLATE::assign(InputIterator first, InputIterator last)
   Iterator beg;
   for (beg = before_begin(); beg.next() != end() && first != last;
        ++beg, ++first) {
-    AllocTraits::destroy(*this, &*beg.next());
-    AllocTraits::construct(*this, &*beg.next(), *first);
+    *beg.next() = *first;
   }
 
   // size() < distance(first, last)
-- 
2.43.0


From 4f44dd84e6f95882a75d281cae6cf7ca8bf83f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 008/131] fix: ForwardList::assign(n, value) kept the surplus
 elements

---
 kanon/algo/forward_list/forward_list_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 6afa15a..0ab7f19 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -52,8 +52,8 @@ void FORWARD_LIST_TEMPLATE::assign(SizeType count, ValueType const &value)
     while (count--) {
       push_front(value);
     }
-  } else if (count < 0) {
-    // count < size()
+  } else {
+    // count <= size()
     while (beg.next() != end()) {
       erase_after(beg);
     }
-- 
2.43.0


From ee354b831361637d3eff2fcd965df8c77fefabf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 009/131] fix: ForwardList::splice_after(range) reversed the
 elements

---
 kanon/algo/forward_list/forward_list_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 0ab7f19..0b1a0a0 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -330,9 +330,13 @@ void FORWARD_LIST_TEMPLATE::splice_after(ConstIterator pos, Self &list,
                                          ConstIterator first,
                                          ConstIterator last)
 {
+  // Already in the position
+  if (pos == first) return;
+
   // (first, last)
   while (first.next() != last) {
     insert_after(pos, list.extract_after(first));
+    ++pos;
   }
 }
 
-- 
2.43.0


From df908327757858d16beaddcf410dcf75093a2302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 010/131] fix: ForwardList::splice_after(pos, list, it) made a
 cycle if pos follows it

---
 kanon/algo/forward_list/forward_list_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 0b1a0a0..5347b8a 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -322,6 +322,9 @@ FORWARD_LIST_TEMPLATE_LIST
 void FORWARD_LIST_TEMPLATE::splice_after(ConstIterator pos, Self &list,
                                          ConstIterator it)
 {
+  // Already in the position
+  if (pos == it || pos == it.next()) return;
+
   insert_after(pos, list.extract_after(it));
 }
 
-- 
2.43.0


From b7c36704d18e05eef3fff588c34795ec471ff328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 011/131] fix: ForwardList::sort() isn't stable

---
 kanon/algo/forward_list/forward_list_impl.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 5347b8a..edb3ab6 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -438,12 +438,10 @@ void FORWARD_LIST_TEMPLATE::sort(Compare cmp)
         break;
       } else {
         // Merge non-empty list
-        // larger list merge shorter list
-        if (lists[i].size() > list.size()) {
-          lists[i].merge(list, cmp);
-          list.swap(lists[i]);
-        } else
-          list.merge(lists[i], cmp);
+        // The elements of lists[i] precede those of list, so they must be
+        // merged in this order to be stable
+        lists[i].merge(list, cmp);
+        list.swap(lists[i]);
       }
     }
   }
-- 
2.43.0


From 057838316db2a24a55c5694da87291953e69b715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 012/131] fix: ForwardList operator== ignored the size and ran
 past the end

---
 kanon/algo/forward_list/forward_list_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index edb3ab6..c24e9bf 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -532,7 +532,7 @@ FORWARD_LIST_TEMPLATE_LIST
 KANON_INLINE bool operator==(ForwardList<T, A> const &x,
                              ForwardList<T, A> const &y)
 {
-  return std::equal(x.begin(), x.end(), y.begin());
+  return x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin());
 }
 
 FORWARD_LIST_TEMPLATE_LIST
-- 
2.43.0


From da2060ee9b19cf634e3a99040b6a252e15e3679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 013/131] fix: ForwardList leaked the node if the element
 constructor throws and allocated bytes instead of nodes

---
 kanon/algo/forward_list.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/kanon/algo/forward_list.h b/kanon/algo/forward_list.h
index 104b1bf..7514033 100644
--- a/kanon/algo/forward_list.h
+++ b/kanon/algo/forward_list.h
@@ -491,10 +491,16 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
   template <typename... Args>
   KANON_INLINE Node *create_node_size(size_t sz, Args &&...args)
   {
-    auto node = AllocTraits::allocate(*this, sizeof(Node) + sz);
+    auto node = AllocTraits::allocate(*this, node_count(sz));
 
     node->next = nullptr;
-    AllocTraits::construct(*this, &node->val, std::forward<Args>(args)...);
+    try {
+      AllocTraits::construct(*this, &node->val, std::forward<Args>(args)...);
+    }
+    catch (...) {
+      AllocTraits::deallocate(*this, node, node_count(sz));
+      throw;
+    }
 
     return node;
   }
@@ -509,14 +515,14 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
   {
     auto node = static_cast<Node *>(_node);
     AllocTraits::destroy(*this, node);
-    AllocTraits::deallocate(*this, node, sizeof(Node));
+    AllocTraits::deallocate(*this, node, node_count(0));
   }
 
   KANON_INLINE void drop_node_size(BaseNode *_node, size_t sz)
   {
     auto node = static_cast<Node *>(_node);
     AllocTraits::destroy(*this, node);
-    AllocTraits::deallocate(*this, node, sizeof(Node) + sz);
+    AllocTraits::deallocate(*this, node, node_count(sz));
   }
 #ifdef FORWARD_LIST_DEBUG
   // For Debugging
@@ -524,6 +530,12 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
 #endif
 
  private:
+  // The argument of allocate()/deallocate() is the number of nodes, not bytes
+  static KANON_INLINE size_t node_count(size_t sz) KANON_NOEXCEPT
+  {
+    return 1 + (sz + sizeof(Node) - 1) / sizeof(Node);
+  }
+
   template <typename U, typename Dummy = zstl::enable_if_t<
                             std::is_default_constructible<U>::value>>
   KANON_INLINE void resize_impl(size_t n)
-- 
2.43.0


From a924502b557af641199a4b52a27f840c7cc9ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 014/131] fix: ForwardList constructors leaked the elements if
 a copy throws

---
 kanon/algo/forward_list.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list.h b/kanon/algo/forward_list.h
index 7514033..2bf71d2 100644
--- a/kanon/algo/forward_list.h
+++ b/kanon/algo/forward_list.h
@@ -121,7 +121,10 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
 
   KANON_INLINE ForwardList() = default;
 
+  // Delegate to the default constructor, then the destructor drops the elements
+  // have been inserted if the insertion of the others throws
   KANON_INLINE explicit ForwardList(SizeType n, ValueType const &val = {})
+    : ForwardList()
   {
     insert_after(cbefore_begin(), n, val);
   }
@@ -130,6 +133,7 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
             typename = zstl::enable_if_t<
                 zstl::is_input_iterator<InputIterator>::value>>
   KANON_INLINE ForwardList(InputIterator first, InputIterator last)
+    : ForwardList()
   {
     insert_after(cbefore_begin(), first, last);
   }
@@ -146,7 +150,7 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
   KANON_INLINE ~ForwardList() KANON_NOEXCEPT { clear(); }
 
   KANON_INLINE ForwardList(ForwardList const &other)
-    : Base()
+    : ForwardList()
   {
     insert_after(cbefore_begin(), other.cbegin(), other.cend());
   }
-- 
2.43.0


From 8cd501e45f8d588b2d83a15026f5c0b6bea51a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 015/131] fix: ChunkList::AppendChunkList() spliced after the
 end iterator

---
 kanon/buffer/chunk_list.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index 29fce37..a24d678 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -232,7 +232,7 @@ auto ChunkList::GetFreeChunk() KANON_NOEXCEPT->ListType::Iterator
 
 auto ChunkList::AppendChunkList(ChunkList *rhs) -> void
 {
-  buffers_.splice_after(buffers_.end(), rhs->buffers_);
+  buffers_.splice_after(buffers_.before_end(), rhs->buffers_);
 }
 
 auto ChunkList::DebugPrint() -> void
-- 
2.43.0


From 38ae7e98428f63f93a452ad88817f7e1a2f60c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 016/131] fix: ChunkList::GetReadableSize() supposed that the
 middle chunks are full

---
 kanon/buffer/chunk_list.cc | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index a24d678..85ca070 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -125,30 +125,12 @@ buffers_.size() > 0.
 
 auto ChunkList::GetReadableSize() const KANON_NOEXCEPT->SizeType
 {
-  if (IsEmpty()) {
-    return 0;
-  } else {
-    auto first_chunk = buffers_.begin();
-    if (buffers_.size() == 1) {
-      return first_chunk->GetReadableSize();
-    } else if (buffers_.size() == 2) {
-      return first_chunk->GetReadableSize() +
-             first_chunk.next()->GetReadableSize();
-    }
-
-    auto last_chunk = buffers_.before_end();
-    // return first_chunk->GetMaxSize() != 4096
-    //            ? first_chunk->GetReadableSize() +
-    //                  first_chunk.next()->GetReadableSize() +
-    //                  (GetChunkSize() - 3) * CHUNK_SIZE +
-    //                  last_chunk->GetReadableSize()
-    //            : first_chunk->GetReadableSize() +
-    //                  (GetChunkSize() - 2) * CHUNK_SIZE +
-    //                  last_chunk->GetReadableSize();
-    return first_chunk->GetReadableSize() +
-           first_chunk.next()->GetReadableSize() +
-           (GetChunkSize() - 3) * CHUNK_SIZE + last_chunk->GetReadableSize();
-  }
+  // The chunks in the middle aren't necessary to be full,
+  // e.g. the list is merged by AppendChunkList()
+  SizeType ret = 0;
+  for (auto const &chunk : buffers_)
+    ret += chunk.GetReadableSize();
+  return ret;
 }
 
 bool ChunkList::PutToFreeChunk() KANON_NOEXCEPT
-- 
2.43.0


From 7fb90d9dfd7e97c67088f5df07df0131ca204c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 017/131] fix: ChunkList::Clone() and CopyAssign() didn't copy
 the data

---
 kanon/buffer/chunk_list.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/kanon/buffer/chunk_list.h b/kanon/buffer/chunk_list.h
index f19978b..ae86dd8 100644
--- a/kanon/buffer/chunk_list.h
+++ b/kanon/buffer/chunk_list.h
@@ -178,19 +178,22 @@ class ChunkList final {
 
   // Explicit copy API to avoid implicit copy
 
-  ChunkList Clone()
+  ChunkList Clone() const
   {
     ChunkList ret;
-    new (&ret.buffers_) ListType(buffers_);
-    new (&ret.free_buffers_) ListType(free_buffers_);
+    ret.CopyAssign(*this);
     return ret;
   }
 
   void CopyAssign(ChunkList const &rhs)
   {
-    buffers_ = rhs.buffers_;
-    free_buffers_ = rhs.free_buffers_;
-    *this = rhs;
+    if (this == &rhs) return;
+
+    // The data is in the padding of nodes that is unknown to the list,
+    // can't copy the node simply.
+    AdvanceReadAll();
+    for (auto const &chunk : rhs.buffers_)
+      Append(chunk.ToStringView());
   }
 
   // Disable implicit copy
-- 
2.43.0


From 23a3114534178cbeb0db86394eccc969753188d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 018/131] fix: ChunkList::ReserveWriteSpace(0) aborted for an
 empty list

---
 kanon/buffer/chunk_list.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index 85ca070..ca7d77c 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -198,7 +198,7 @@ auto ChunkList::ReserveWriteSpace(size_t size) -> void
     size -= buffer.GetWritableSize();
   }
 
-  assert(size >= 1);
+  if (size == 0) return;
   const auto chunk_size = ((size - 1) >> 12) + 1;
   ReserveFreeChunk(chunk_size);
 }
-- 
2.43.0


From b44132844c7bea51ff4c1b726010699a7b1a706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 019/131] fix: ChunkListWriteFd() wrote only the first batch,
 overflowed with many chunks and lost errors

---
 kanon/linux/net/chunk_list.cc | 41 +++++++++++++++--------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/kanon/linux/net/chunk_list.cc b/kanon/linux/net/chunk_list.cc
index f8ef9f2..ac851df 100644
--- a/kanon/linux/net/chunk_list.cc
+++ b/kanon/linux/net/chunk_list.cc
@@ -12,42 +12,37 @@ static constexpr unsigned IOVEC_MAX = IOV_MAX;
 static constexpr unsigned IOVEC_MAX = 1024;
 #endif
 
-static size_t RoundUpDivideIn2(size_t x, size_t y) KANON_NOEXCEPT
-{
-  return (x == 0) ? 0 : ((x - 1) / y + 1);
-}
-
 ChunkList::SizeType kanon::ChunkListWriteFd(ChunkList &buffer, FdType fd,
                                             int &saved_errno) KANON_NOEXCEPT
 {
-  if (buffer.GetChunkSize() == 1) {
-    auto first_chunk = buffer.GetFirstChunk();
-    return (ChunkList::SizeType)sock::Write(
-        fd, buffer.GetFirstChunk()->GetReadBegin(),
-        first_chunk->GetReadableSize());
-  }
+  saved_errno = 0;
 
-  FixedVector<struct iovec> iovecs(buffer.GetChunkSize());
-  auto first_chunk = buffer.begin();
-  auto cnt = RoundUpDivideIn2(buffer.GetChunkSize(), IOVEC_MAX);
+  auto rest = buffer.GetChunkSize();
+  FixedVector<struct iovec> iovecs(rest < IOVEC_MAX ? rest : IOVEC_MAX);
+  auto chunk = buffer.begin();
 
   ChunkList::SizeType ret = 0;
 
-  while (cnt--) {
-    for (auto &x : iovecs) {
-      x.iov_base = first_chunk->GetReadBegin();
-      x.iov_len = first_chunk->GetReadableSize();
-      ++first_chunk;
+  while (rest > 0) {
+    int cnt = 0;
+    ChunkList::SizeType total = 0;
+    for (; rest > 0 && (unsigned)cnt < IOVEC_MAX; --rest, ++cnt, ++chunk) {
+      iovecs[cnt].iov_base = chunk->GetReadBegin();
+      iovecs[cnt].iov_len = chunk->GetReadableSize();
+      total += chunk->GetReadableSize();
     }
 
-    auto n = ::writev(fd, iovecs.data(), (int)iovecs.size());
+    auto n = ::writev(fd, iovecs.data(), cnt);
 
-    if (n >= 0) {
-      ret += (ChunkList::SizeType)n;
-    } else {
+    if (n < 0) {
       saved_errno = errno;
       break;
     }
+
+    ret += (ChunkList::SizeType)n;
+
+    // The following chunks can't be written before the rest of this batch
+    if ((ChunkList::SizeType)n < total) break;
   }
 
   return ret;
-- 
2.43.0


From 3d7dd3f1cd9ae89a6c14e7b5eaac8a2df8b303f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 020/131] fix: ChunkList::Append() of empty data aborted for an
 empty list

---
 kanon/buffer/chunk_list.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index ca7d77c..97d593d 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -48,6 +48,8 @@ void ChunkList::Append(void const *data, size_t len)
 {
   auto buf = reinterpret_cast<char const *>(data);
 
+  if (len == 0) return;
+
   /* Allow user append data even though the size header
    * has prepended. */
 
-- 
2.43.0


From d53356b112614416a0ba448e4186d39a5cca077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 021/131] fix: MutexLock set the holder before locking and
 cleared it after unlocking or a successful TryLock()

---
 kanon/thread/mutex_lock.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/kanon/thread/mutex_lock.h b/kanon/thread/mutex_lock.h
index 72496f8..7dabffe 100644
--- a/kanon/thread/mutex_lock.h
+++ b/kanon/thread/mutex_lock.h
@@ -9,6 +9,8 @@
 #  include <mutex>
 #endif
 
+#include <atomic>
+
 #include "kanon/util/noncopyable.h"
 
 #include "kanon/thread/pthread_macro.h"
@@ -100,18 +102,21 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 #endif
   }
 
-  bool IsLockedInThisThread() { return holder_ == CurrentThread::tid(); }
+  bool IsLockedInThisThread()
+  {
+    return holder_.load(std::memory_order_relaxed) == CurrentThread::tid();
+  }
 
   void AssertLocked() { ASSERT(IsLockedInThisThread()); }
 
   void Lock() ACQUIRE()
   {
-    assignHolder();
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_lock(&mutex_));
 #else
     mutex_.lock();
 #endif
+    assignHolder();
   }
 
   /**
@@ -132,18 +137,18 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 #else
     success = mutex_.try_lock();
 #endif
-    if (success) unassignHolder();
+    if (success) assignHolder();
     return success;
   }
 
   void Unlock() RELEASE()
   {
+    unassignHolder();
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_unlock(&mutex_));
 #else
     mutex_.unlock();
 #endif
-    unassignHolder();
   }
 
   // TODO Implement this
@@ -174,9 +179,15 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
     MutexLock &mutex_;
   };
 
-  void assignHolder() KANON_NOEXCEPT { holder_ = CurrentThread::tid(); }
+  void assignHolder() KANON_NOEXCEPT
+  {
+    holder_.store(CurrentThread::tid(), std::memory_order_relaxed);
+  }
 
-  void unassignHolder() KANON_NOEXCEPT { holder_ = 0; }
+  void unassignHolder() KANON_NOEXCEPT
+  {
+    holder_.store(0, std::memory_order_relaxed);
+  }
 
  private:
 #ifdef KANON_ON_UNIX
@@ -184,7 +195,7 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 #else
   std::mutex mutex_;
 #endif
-  int holder_;
+  std::atomic<int> holder_{0};
 };
 
 // pthread_mutex_t simple RAII wrapper
-- 
2.43.0


From bb7bf37b08546617140270b7f5a05cd720c10036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 022/131] fix: MutexLock::AssertLocked() aborted if and only if
 the mutex is locked

---
 kanon/thread/mutex_lock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/thread/mutex_lock.h b/kanon/thread/mutex_lock.h
index 7dabffe..37a0863 100644
--- a/kanon/thread/mutex_lock.h
+++ b/kanon/thread/mutex_lock.h
@@ -107,7 +107,7 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
     return holder_.load(std::memory_order_relaxed) == CurrentThread::tid();
   }
 
-  void AssertLocked() { ASSERT(IsLockedInThisThread()); }
+  void AssertLocked() { ASSERT(IsLockedInThisThread() ? 0 : EPERM); }
 
   void Lock() ACQUIRE()
   {
-- 
2.43.0


From 2c3f7fabfdabf374bede99115c72149051ba0ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 023/131] fix: Condition::WaitForSeconds() waited forever for a
 negative duration

---
 kanon/thread/condition.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/thread/condition.cc b/kanon/thread/condition.cc
index d2cdced..12b0367 100644
--- a/kanon/thread/condition.cc
+++ b/kanon/thread/condition.cc
@@ -14,6 +14,8 @@ namespace kanon {
 bool Condition::WaitForSeconds(double seconds)
 {
 #ifdef KANON_ON_UNIX
+  if (seconds < 0) seconds = 0;
+
   struct timespec spec;
   ::memset(&spec, 0, sizeof spec);
 
-- 
2.43.0


From dc3471c7a2fce4c763df26a4c63c388fa0bec417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 024/131] fix: CountDownLatch waiters returned on spurious
 wakeup and the count went negative

---
 kanon/thread/count_down_latch.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/kanon/thread/count_down_latch.h b/kanon/thread/count_down_latch.h
index 6d26b77..6314ef3 100644
--- a/kanon/thread/count_down_latch.h
+++ b/kanon/thread/count_down_latch.h
@@ -36,7 +36,8 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ = count;
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0)
+      cond_.Wait();
   }
 
   void Add(int count) KANON_NOEXCEPT
@@ -49,7 +50,8 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ += count;
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0)
+      cond_.Wait();
   }
 
   void Incr() KANON_NOEXCEPT
@@ -62,7 +64,8 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     ++count_;
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0)
+      cond_.Wait();
   }
 
   KANON_DEPRECATED_ATTR void Minus(int count) KANON_NOEXCEPT
@@ -86,14 +89,14 @@ class CountDownLatch : noncopyable {
   void Wait()
   {
     MutexGuard guard(mutex_);
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0)
+      cond_.Wait();
   }
 
   void Countdown() KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
-    --count_;
-    if (count_ == 0) {
+    if (count_ > 0 && --count_ == 0) {
       cond_.NotifyAll();
     }
   }
-- 
2.43.0


From 229ef5764fa953875253b4f72f89aeac8f5a88da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 025/131] fix: CountDownLatch Reset(), Minus() and Decr() to
 zero didn't wake the waiters

---
 kanon/thread/count_down_latch.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kanon/thread/count_down_latch.h b/kanon/thread/count_down_latch.h
index 6314ef3..26d4dfe 100644
--- a/kanon/thread/count_down_latch.h
+++ b/kanon/thread/count_down_latch.h
@@ -30,6 +30,7 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ = count;
+    if (count_ <= 0) cond_.NotifyAll();
   }
 
   void ResetAndWait(int count) KANON_NOEXCEPT
@@ -71,13 +72,16 @@ class CountDownLatch : noncopyable {
   KANON_DEPRECATED_ATTR void Minus(int count) KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
-    count_ -= count;
+    count_ = (count < count_) ? count_ - count : 0;
+    if (count_ == 0) cond_.NotifyAll();
   }
 
   KANON_DEPRECATED_ATTR void Decr() KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
-    --count_;
+    if (count_ > 0 && --count_ == 0) {
+      cond_.NotifyAll();
+    }
   }
 
   int GetCount() const KANON_NOEXCEPT
-- 
2.43.0


From 82bbef6553b187939bdfe1f59b9838b523180fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 026/131] fix: WeakCallback didn't return the result

---
 kanon/thread/weak_callback.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/thread/weak_callback.h b/kanon/thread/weak_callback.h
index e5e23b4..b8db156 100644
--- a/kanon/thread/weak_callback.h
+++ b/kanon/thread/weak_callback.h
@@ -25,7 +25,8 @@ public:
   {
     auto sp = ptr_.lock();
     if(sp)
-      fun_(sp.get(), args...);
+      return fun_(sp.get(), args...);
+    return R();
   }
 private:
   std::weak_ptr<T> ptr_;
-- 
2.43.0


From dfa871bf27e09c6b0cfb95ae4184f7727d616c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 027/131] fix: AtomicCounter::Reset() didn't return a value

---
 kanon/thread/atomic_counter.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/thread/atomic_counter.h b/kanon/thread/atomic_counter.h
index 9f936a4..8a2b56f 100644
--- a/kanon/thread/atomic_counter.h
+++ b/kanon/thread/atomic_counter.h
@@ -34,7 +34,11 @@ class AtomicCounter : noncopyable {
     return *this;
   }
 
-  T Reset() KANON_NOEXCEPT { count_.store(0, std::memory_order_relaxed); }
+  T Reset() KANON_NOEXCEPT
+  {
+    count_.store(0, std::memory_order_relaxed);
+    return 0;
+  }
 
   void SetValue(T const val) KANON_NOEXCEPT
   {
-- 
2.43.0


From 89b971231b6dee6534750f97d111f44dee39b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 028/131] fix: Thread moved-from object detached an invalid
 thread

---
 kanon/thread/thread.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kanon/thread/thread.h b/kanon/thread/thread.h
index 1d83727..0e1f864 100644
--- a/kanon/thread/thread.h
+++ b/kanon/thread/thread.h
@@ -62,6 +62,7 @@ class Thread : noncopyable {
     , name_{std::move(rhs.name_)}
   {
     rhs.pthreadId_ = 0;
+    rhs.is_started_ = false;
   }
 
   Thread &operator=(Thread &&rhs) KANON_NOEXCEPT
-- 
2.43.0


From bc022a642e679c70dda755f860425f1e9769cc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 029/131] fix: Thread used the object after it is moved or
 destroyed, move assignment leaked the running thread

---
 kanon/thread/thread.cc | 25 ++++++++++++++++++-------
 kanon/thread/thread.h  |  6 ++++--
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/kanon/thread/thread.cc b/kanon/thread/thread.cc
index 77c73b1..8c77da1 100644
--- a/kanon/thread/thread.cc
+++ b/kanon/thread/thread.cc
@@ -11,6 +11,7 @@
 #include <string.h>
 #include <assert.h>
 
+#include <memory>
 #include <system_error>
 // #include "kanon/thread/atomic.h"
 #include "kanon/thread/atomic_counter.h"
@@ -42,7 +43,9 @@ Thread::Thread(Threadfunc func, string const &name)
   SetDefaultName();
 }
 
-Thread::~Thread()
+Thread::~Thread() { Detach(); }
+
+void Thread::Detach() KANON_NOEXCEPT
 {
   if (is_started_ && !is_joined_) {
 #ifdef KANON_ON_UNIX
@@ -53,15 +56,25 @@ Thread::~Thread()
   }
 }
 
+namespace detail {
+
+// The Thread object may be moved or destroyed when the thread is running
+struct ThreadData {
+  Thread::Threadfunc func_;
+  std::string name_;
+};
+
+} // namespace detail
+
 void Thread::StartRun()
 {
   assert(!is_started_);
   is_started_ = false;
 
-  // auto data = new detail::ThreadData{ func_, name_ };
+  auto data = new detail::ThreadData{std::move(func_), name_};
 #ifdef KANON_ON_UNIX
   int err = 0;
-  err = pthread_create(&pthreadId_, NULL, &detail::Run, this);
+  err = pthread_create(&pthreadId_, NULL, &detail::Run, data);
   if (err != 0) {
     char buf[128];
     auto ret = ::strerror_r(errno, buf, sizeof buf);
@@ -74,7 +87,7 @@ void Thread::StartRun()
   }
 #else
   try {
-    std::thread thr(&detail::Run, this);
+    std::thread thr(&detail::Run, data);
 #ifdef KANON_ON_UNIX
     pthreadId_ = thr.native_handle();
 #else
@@ -92,8 +105,6 @@ void Thread::StartRun()
     exit(1);
   }
 #endif
-  // if ((err = pthread_create(&pthreadId_, NULL, &detail::startRun, data)) !=
-  // 0) {
 }
 
 void Thread::StartRun(Threadfunc cb)
@@ -132,7 +143,7 @@ namespace detail {
 void *Run(void *arg)
 {
   CurrentThread::cacheTid();
-  auto thread = reinterpret_cast<Thread *>(arg);
+  std::unique_ptr<ThreadData> thread(reinterpret_cast<ThreadData *>(arg));
   CurrentThread::t_name =
       thread->name_.empty() ? "KanonThread" : thread->name_.c_str();
 
diff --git a/kanon/thread/thread.h b/kanon/thread/thread.h
index 0e1f864..a7a5c26 100644
--- a/kanon/thread/thread.h
+++ b/kanon/thread/thread.h
@@ -67,6 +67,9 @@ class Thread : noncopyable {
 
   Thread &operator=(Thread &&rhs) KANON_NOEXCEPT
   {
+    if (this == &rhs) return *this;
+
+    Detach();
     func_ = std::move(rhs.func_);
     is_started_ = rhs.is_started_;
     is_joined_ = rhs.is_joined_;
@@ -89,8 +92,7 @@ class Thread : noncopyable {
 
  private:
   KANON_CORE_NO_API void SetDefaultName();
-
-  friend void *detail::Run(void *arg);
+  KANON_CORE_API void Detach() KANON_NOEXCEPT;
 
  private:
   Threadfunc func_;
-- 
2.43.0


From 946f56b8b6a73c9439e1894aa8a5bc10ac630499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 030/131] fix: ThreadPool threads ran one task only and the
 destructor joined the waiting threads forever

---
 kanon/thread/thread_pool.cc | 22 ++++++++++++++++------
 kanon/thread/thread_pool.h  |  5 ++++-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/kanon/thread/thread_pool.cc b/kanon/thread/thread_pool.cc
index 556529e..f3a3465 100644
--- a/kanon/thread/thread_pool.cc
+++ b/kanon/thread/thread_pool.cc
@@ -10,10 +10,17 @@ ThreadPool::ThreadPool(int max_queue_size,
   , not_full_{ mutex_ }
   , not_empty_{ mutex_ }
   , max_queue_size_{ max_queue_size }
+  , stopping_{ false }
   , name_{ name }
 { }
 
 ThreadPool::~ThreadPool() KANON_NOEXCEPT {
+  {
+    MutexGuard guard{ mutex_ };
+    stopping_ = true;
+    not_empty_.NotifyAll();
+  }
+
   for (auto& thr : threads_) {
     thr->Join();
   }
@@ -24,11 +31,12 @@ void ThreadPool::StartRun(int thread_num) {
 
   for (int i = 0; i != thread_num; ++i) {
     auto up_thr = kanon::make_unique<Thread>([this]() {
-      auto task = Pop();
+      for (;;) {
+        Task task;
+        if (!Pop(task)) break;
 
-      if (task) {
         // Exception is handled by Thread
-        task();
+        if (task) task();
       }
     }, name_ + std::to_string(i));
     
@@ -49,17 +57,19 @@ void ThreadPool::Push(Task task) {
   not_empty_.Notify();
 }
 
-auto ThreadPool::Pop() -> Task
+bool ThreadPool::Pop(Task &task)
 {
   MutexGuard guard{ mutex_ };
 
   while (tasks_.size() == 0) {
+    // All the pushed tasks have been popped
+    if (stopping_) return false;
     not_empty_.Wait();
   }
 
-  auto task = std::move(tasks_.front());
+  task = std::move(tasks_.front());
   tasks_.pop();
 
   not_full_.Notify();
-  return task;
+  return true;
 }
diff --git a/kanon/thread/thread_pool.h b/kanon/thread/thread_pool.h
index 6a85d64..87ea464 100644
--- a/kanon/thread/thread_pool.h
+++ b/kanon/thread/thread_pool.h
@@ -53,14 +53,17 @@ class ThreadPool : noncopyable {
   /**
    * \brief pop the task from queue, and notify Push() to produce which can
    * produce more task
+   * \return
+   *   false -- The pool is stopping and there is no task
    */
-  Task Pop();
+  bool Pop(Task &task);
 
   mutable MutexLock mutex_;
   Condition not_full_ GUARDED_BY(mutex_);
   Condition not_empty_ GUARDED_BY(mutex_);
 
   int max_queue_size_;
+  bool stopping_ GUARDED_BY(mutex_);
 
   std::vector<std::unique_ptr<kanon::Thread>> threads_;
   std::queue<Task> tasks_;
-- 
2.43.0


From 722631bb84a8b74df94d2edadd104b51b8e42522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 031/131] fix: ThreadPool::SetMaxQueueSize() raced with Push(),
 unbounded the queue or left the pushers waiting

---
 kanon/thread/thread_pool.cc | 2 +-
 kanon/thread/thread_pool.h  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/thread/thread_pool.cc b/kanon/thread/thread_pool.cc
index f3a3465..22f20c9 100644
--- a/kanon/thread/thread_pool.cc
+++ b/kanon/thread/thread_pool.cc
@@ -49,7 +49,7 @@ void ThreadPool::StartRun(int thread_num) {
 void ThreadPool::Push(Task task) {
   MutexGuard guard{ mutex_ };
 
-  while (static_cast<int>(tasks_.size()) == max_queue_size_) {
+  while (static_cast<int>(tasks_.size()) >= max_queue_size_) {
     not_full_.Wait();
   }
 
diff --git a/kanon/thread/thread_pool.h b/kanon/thread/thread_pool.h
index 87ea464..9bd5f1e 100644
--- a/kanon/thread/thread_pool.h
+++ b/kanon/thread/thread_pool.h
@@ -46,7 +46,9 @@ class ThreadPool : noncopyable {
 
   void SetMaxQueueSize(int num) KANON_NOEXCEPT
   {
+    MutexGuard guard{mutex_};
     if (num > 0) max_queue_size_ = num;
+    not_full_.NotifyAll();
   }
 
  private:
-- 
2.43.0


From ec7edbcf23f960a5e6ebf50b8a75f6ab8fa4041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 032/131] fix: EventLoop took any thread whose id is not cached
 yet for its own thread

---
 kanon/net/event_loop.cc | 6 +++---
 kanon/net/event_loop.h  | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index fdbd520..462606c 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -88,9 +88,9 @@ EventLoop::EventLoop()
 
 EventLoop::EventLoop(bool is_poller)
 #if KANON___THREAD_DEFINED
-  : owner_thread_id_{(PId)CurrentThread::t_tid}
+  : owner_thread_id_{(PId)CurrentThread::tid()}
 #else
-  : owner_thread_id_{(PId)CurrentThread::GetTid()}
+  : owner_thread_id_{(PId)CurrentThread::tid()}
 #endif
   , looping_{false}
   , quit_{false}
@@ -363,7 +363,7 @@ bool EventLoop::IsEdgeTriggerMode() const KANON_NOEXCEPT
 #if !KANON___THREAD_DEFINED
 bool EventLoop::IsLoopInThread() KANON_NOEXCEPT
 {
-  return CurrentThread::GetTid() == owner_thread_id_;
+  return CurrentThread::tid() == owner_thread_id_;
 }
 #endif
 
diff --git a/kanon/net/event_loop.h b/kanon/net/event_loop.h
index d9e6b27..5a04b13 100644
--- a/kanon/net/event_loop.h
+++ b/kanon/net/event_loop.h
@@ -11,6 +11,7 @@
 #include "kanon/util/raw_any.h"
 #include "kanon/thread/mutex_lock.h"
 #include "kanon/process/process_info.h"
+#include "kanon/thread/current_thread.h"
 
 #include "kanon/net/timer/timer_id.h"
 #include "kanon/net/callback.h"
@@ -192,7 +193,7 @@ class EventLoop : noncopyable {
 #if KANON___THREAD_DEFINED
   KANON_INLINE bool IsLoopInThread() KANON_NOEXCEPT
   {
-    return CurrentThread::t_tid == owner_thread_id_;
+    return CurrentThread::tid() == owner_thread_id_;
   }
 #else
   KANON_NET_API bool IsLoopInThread() KANON_NOEXCEPT;
-- 
2.43.0


From cd131fa5f13959d10126c1980e50fd1804df8825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 033/131] fix: EventLoop::QueueToLoop() before StartLoop() did
 not wake the first poll

---
 kanon/net/event_loop.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 462606c..8c2936d 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -225,7 +225,9 @@ void EventLoop::QueueToLoop(FunctorCallback cb)
   // ConnectionCallback) then WriteCompleteCallback continue write and register
   // it if not complete, but this is in the phase3, if we don't Wakeup(), the
   // next loop must be blocked. \see example/file_transfer/client.cc
-  if (!IsLoopInThread() || calling_functors_) {
+  //
+  // If the loop isn't started, the first poll must not block also.
+  if (!IsLoopInThread() || calling_functors_ || !looping_) {
     Wakeup();
   }
 }
-- 
2.43.0


From 43234afbf80117155264fb39d87bbb3696f234e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 034/131] fix: EventLoop leaked the eventfd and the timerfd,
 and Quit()/QueueToLoop() used the destroyed loop

---
 kanon/linux/net/timer/timer_queue.cc |  2 ++
 kanon/net/event_loop.cc              | 23 ++++++++++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 8bd68c6..f51d728 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -128,6 +128,8 @@ TimerQueue::~TimerQueue() KANON_NOEXCEPT
   for (auto &timer_seq : timers_) {
     delete timer_seq.first;
   }
+
+  ::close(timer_channel_->GetFd());
 }
 
 TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 8c2936d..d7aa73d 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -142,6 +142,15 @@ EventLoop::~EventLoop()
   //    it don't considered by user.
   LOG_TRACE_KANON << "EventLoop " << this << " destroyed";
 
+  {
+    // Wait for the Quit() or QueueToLoop() in the other thread
+    MutexGuard guard(lock_);
+  }
+
+#ifdef KANON_ON_UNIX
+  ::close(ev_channel_->GetFd());
+#endif
+
   // In some case, this assertion will hide the actual reason of crash
   // eg. If you make a exception in the callback in the eventloop thread,
   //     it will log error and abort program.
@@ -202,10 +211,10 @@ void EventLoop::RunInLoop(FunctorCallback cb)
 
 void EventLoop::QueueToLoop(FunctorCallback cb)
 {
-  {
-    MutexGuard dummy(lock_);
-    functors_.emplace_back(std::move(cb));
-  }
+  // Hold the lock until the wakeup is done:
+  // the functor may quit the loop and the loop is destroyed then.
+  MutexGuard dummy(lock_);
+  functors_.emplace_back(std::move(cb));
 
   // If not in IO thread(async), and not event occurred, then block.
   // That's wrong, since it is expected to be called immediately.
@@ -294,10 +303,14 @@ void EventLoop::Wakeup() KANON_NOEXCEPT
 void EventLoop::Quit() KANON_NOEXCEPT
 {
   if (quit_) return;
-  quit_ = true;
 
   LOG_DEBUG_KANON << "EventLoop is quiting";
 
+  // The loop can be destroyed once quit_ is set,
+  // so hold the lock until the wakeup is done.
+  MutexGuard guard(lock_);
+  quit_ = true;
+
   // If in the IO thread, call Wakeup() in Quit() is not necessary,
   // because it only few cases can call Quit() successfully
   // * In the loop, the only choice is timer event, but it is not blocking
-- 
2.43.0


From 1ab39ef70d4b3088ab26b92c027a80b817a373e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 035/131] fix: EventLoop dropped the tasks queued before Quit()

---
 kanon/net/event_loop.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index d7aa73d..4684a7b 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -247,10 +247,6 @@ void EventLoop::RemoveChannel(Channel *ch) { poller_->RemoveChannel(ch); }
 
 void EventLoop::CallFunctors()
 {
-  if (quit_) {
-    return;
-  }
-
   decltype(functors_) functors;
   {
     MutexGuard dummy{lock_};
-- 
2.43.0


From afa752a9dbffb90dcc7b921d546ab26891ea1255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 036/131] fix: EventLoopThread accessed the loop without lock
 and did not join the thread whose loop has quit

---
 kanon/net/event_loop_thread.cc | 28 +++++++++++++++++++---------
 kanon/net/event_loop_thread.h  | 15 +++++++++++----
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/kanon/net/event_loop_thread.cc b/kanon/net/event_loop_thread.cc
index c4407be..0246b63 100644
--- a/kanon/net/event_loop_thread.cc
+++ b/kanon/net/event_loop_thread.cc
@@ -6,6 +6,8 @@ using namespace kanon;
 
 EventLoopThread::EventLoopThread(std::string const &name)
   : loop_{nullptr}
+  , thread_created_{false}
+  , loop_created_{false}
   , mutex_{}
   , cond_{mutex_}
   , thr_{name}
@@ -14,25 +16,31 @@ EventLoopThread::EventLoopThread(std::string const &name)
 
 EventLoopThread::~EventLoopThread() KANON_NOEXCEPT
 {
+  if (!thread_created_) return;
+
   // if Quit() is not called through pointer return from StartRun()
   // we should call quit explicitly
-  if (loop_ != nullptr) {
-    loop_->Quit();
-    thr_.Join(); // wait loop quiting
+  {
+    // The loop is destroyed after loop_ is cleared
+    MutexGuard guard{mutex_};
+    if (loop_ != nullptr) loop_->Quit();
   }
+
+  // The thread uses the members even though the loop has quit
+  thr_.Join(); // wait loop quiting
 }
 
 EventLoop *EventLoopThread::StartRun(ThreadInitCallback const &init_cb)
 {
+  thread_created_ = true;
   thr_.StartRun(
       std::bind(&EventLoopThread::BackGroundStartLoop, this,
                 std::reference_wrapper<ThreadInitCallback const>(init_cb)));
 
-  {
-    MutexGuard guard{mutex_};
-    while (loop_ == nullptr) {
-      cond_.Wait();
-    }
+  MutexGuard guard{mutex_};
+  // The loop may quit before we are awaked, so don't check loop_
+  while (!loop_created_) {
+    cond_.Wait();
   }
 
   return loop_;
@@ -46,12 +54,14 @@ void EventLoopThread::BackGroundStartLoop(ThreadInitCallback const &init_cb)
   {
     MutexGuard guard{mutex_};
     loop_ = &loop;
+    loop_created_ = true;
     cond_.Notify();
   }
 
   // Maybe quit before StartLoop() be called,
   // but it is harmless.
-  loop_->StartLoop();
+  loop.StartLoop();
 
+  MutexGuard guard{mutex_};
   loop_ = nullptr;
 }
diff --git a/kanon/net/event_loop_thread.h b/kanon/net/event_loop_thread.h
index 33a52c5..44c0900 100644
--- a/kanon/net/event_loop_thread.h
+++ b/kanon/net/event_loop_thread.h
@@ -35,9 +35,14 @@ class EventLoopThread : noncopyable {
   KANON_INLINE EventLoop *StartRun() { return StartRun({}); }
 
   KANON_NET_API EventLoop *StartRun(ThreadInitCallback const &init_cb);
-  KANON_NET_API EventLoop *GetLoop() KANON_NOEXCEPT { return loop_; }
-  KANON_NET_API EventLoop const *GetLoop() const KANON_NOEXCEPT
+  EventLoop *GetLoop() KANON_NOEXCEPT
   {
+    MutexGuard guard{mutex_};
+    return loop_;
+  }
+  EventLoop const *GetLoop() const KANON_NOEXCEPT
+  {
+    MutexGuard guard{mutex_};
     return loop_;
   }
 
@@ -45,9 +50,11 @@ class EventLoopThread : noncopyable {
   // Start loop in background thread(IO thread usually)
   KANON_NET_NO_API void BackGroundStartLoop(ThreadInitCallback const &init_cb);
 
-  EventLoop *loop_;
+  EventLoop *loop_ GUARDED_BY(mutex_);
+  bool thread_created_;                   //!< StartRun() is called
+  bool loop_created_ GUARDED_BY(mutex_);  //!< loop_ has been set
 
-  MutexLock mutex_;
+  mutable MutexLock mutex_;
   Condition cond_ GUARDED_BY(mutex_);
 
   Thread thr_;
-- 
2.43.0


From a1483ac0e227513c56207bf99132097e8ca6b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 037/131] fix: EventLoopPool aborted when it is destroyed
 before started

---
 kanon/net/event_loop_pool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/net/event_loop_pool.cc b/kanon/net/event_loop_pool.cc
index 3a1db11..919af80 100644
--- a/kanon/net/event_loop_pool.cc
+++ b/kanon/net/event_loop_pool.cc
@@ -19,7 +19,7 @@ EventLoopPool::EventLoopPool(EventLoop *base_loop, std::string const &name)
 {
 }
 
-EventLoopPool::~EventLoopPool() KANON_NOEXCEPT { assert(started_); }
+EventLoopPool::~EventLoopPool() KANON_NOEXCEPT = default;
 
 void EventLoopPool::StartRun(ThreadInitCallback const &cb)
 {
-- 
2.43.0


From c42148b7a3e12a14f0acc19c3b3910a32e2f91f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 038/131] fix: Epoller aborted or span when the disabled
 channel has a hang-up or error

---
 kanon/linux/net/epoller.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/linux/net/epoller.cc b/kanon/linux/net/epoller.cc
index 88f5c2b..ff36117 100644
--- a/kanon/linux/net/epoller.cc
+++ b/kanon/linux/net/epoller.cc
@@ -101,7 +101,11 @@ void Epoller::UpdateChannel(Channel *ch)
 
   int index = ch->GetIndex();
 
-  if (index == kNew) {
+  // The EPOLLHUP and EPOLLERR are always reported,
+  // so the channel that isn't interested in any event must be removed.
+  if (ch->IsNoneEvent()) {
+    RemoveChannel(ch);
+  } else if (index == kNew) {
     UpdateEpollEvent(EPOLL_CTL_ADD, ch);
     ch->SetIndex(kAdded);
   } else { // ch->GetIndex() = kAdded
-- 
2.43.0


From 52097c13bae50e517720a486ad9734f76d13b1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 039/131] fix: Poller could not enable a disabled channel or
 add a removed channel again

---
 kanon/linux/net/poller.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/kanon/linux/net/poller.cc b/kanon/linux/net/poller.cc
index 721fd45..232ede3 100644
--- a/kanon/linux/net/poller.cc
+++ b/kanon/linux/net/poller.cc
@@ -54,7 +54,7 @@ TimeStamp Poller::Poll(int ms, ChannelVec &active_channels) KANON_NOEXCEPT
   } else if (ret == 0) {
     LOG_TRACE_KANON << "none events are ready";
   } else {
-    if (ret != EINTR) {
+    if (errno != EINTR) {
       LOG_SYSERROR_KANON << "Poll() error occurred";
     }
   }
@@ -75,7 +75,7 @@ void Poller::UpdateChannel(Channel *ch)
     // because new fd is more than or equal all fd in channels_map_
     channels_map_.emplace_hint(channels_map_.end(), ch->GetFd(), ch);
     struct pollfd new_pollfd;
-    new_pollfd.fd = ch->GetFd();
+    new_pollfd.fd = ch->IsNoneEvent() ? -ch->GetFd() - 1 : ch->GetFd();
     new_pollfd.events = static_cast<short>(ch->GetEvents());
     new_pollfd.revents = 0;
 
@@ -94,11 +94,8 @@ void Poller::UpdateChannel(Channel *ch)
     assert(index != -1 && index <= static_cast<int>(pollfds_.size()));
     auto &now_pollfd = pollfds_[index];
 
-    assert(now_pollfd.fd == ch->GetFd());
-
-    if (ch->IsNoneEvent()) {
-      now_pollfd.fd = -now_pollfd.fd - 1;
-    }
+    // poll() ignores the negative fd
+    now_pollfd.fd = ch->IsNoneEvent() ? -ch->GetFd() - 1 : ch->GetFd();
 
     now_pollfd.events = static_cast<short>(ch->GetEvents());
     now_pollfd.revents = 0;
@@ -149,6 +146,8 @@ void Poller::RemoveChannel(Channel *ch)
     }
 
     channels_map_.erase(it);
+    // Then we can add it again
+    channel->SetIndex(-1);
   }
 }
 
-- 
2.43.0


From c068b6bef911fbdbd1548c6ec012c5ea916a1fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 040/131] fix: Channel called the callback of the disabled
 event in the same wakeup

---
 kanon/linux/net/channel.cc | 1 +
 kanon/linux/net/channel.h  | 6 ------
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/kanon/linux/net/channel.cc b/kanon/linux/net/channel.cc
index 7d5cc0c..2d36f04 100644
--- a/kanon/linux/net/channel.cc
+++ b/kanon/linux/net/channel.cc
@@ -45,6 +45,7 @@ void Channel::Update()
 
 void Channel::Remove() KANON_NOEXCEPT
 {
+  revents_ = Event::NoneEvent;
   loop_->RemoveChannel(this);
 }
 
diff --git a/kanon/linux/net/channel.h b/kanon/linux/net/channel.h
index 02b2283..5cc79fd 100644
--- a/kanon/linux/net/channel.h
+++ b/kanon/linux/net/channel.h
@@ -96,9 +96,7 @@ class Channel {
   void DisableReading() KANON_NOEXCEPT
   {
     events_ &= ~Event::ReadEvent;
-#ifdef KANON_ON_WIN
     revents_ &= ~Event::ReadEvent;
-#endif
     Update();
   }
 
@@ -106,9 +104,7 @@ class Channel {
   void DisableWriting() KANON_NOEXCEPT
   {
     events_ &= ~Event::WriteEvent;
-#ifdef KANON_ON_WIN
     revents_ &= ~Event::WriteEvent;
-#endif
     Update();
   }
 
@@ -116,9 +112,7 @@ class Channel {
   void DisableAll() KANON_NOEXCEPT
   {
     events_ = Event::NoneEvent;
-#ifdef KANON_ON_WIN
     revents_ = Event::NoneEvent;
-#endif
     Update();
   }
 
-- 
2.43.0


From a457e92311a8c3985701b447d7ff49836e835c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 041/131] fix: TimerId default constructor left the members
 uninitialized

---
 kanon/net/timer/timer_id.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kanon/net/timer/timer_id.h b/kanon/net/timer/timer_id.h
index 083557e..b51c4ac 100644
--- a/kanon/net/timer/timer_id.h
+++ b/kanon/net/timer/timer_id.h
@@ -36,9 +36,9 @@ class KANON_NET_NO_API TimerId {
   KANON_INLINE ~TimerId() = default;
 
  private:
-  Timer *timer_;
-  uint64_t seq_;
-  void *ctx_;
+  Timer *timer_ = nullptr;
+  uint64_t seq_ = 0;
+  void *ctx_ = nullptr;
 };
 
 //!@}
-- 
2.43.0


From 852eae3a89bcc89a12bdcc662e83ece65e0f4a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 042/131] fix: TimerQueue used, leaked or still called the
 canceled timers

---
 kanon/linux/net/timer/timer_queue.cc | 57 ++++++++++++++++++----------
 kanon/linux/net/timer/timer_queue.h  | 25 ++++++------
 2 files changed, 47 insertions(+), 35 deletions(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index f51d728..7eb6969 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -125,8 +125,8 @@ TimerQueue::TimerQueue(EventLoop *loop)
 
 TimerQueue::~TimerQueue() KANON_NOEXCEPT
 {
-  for (auto &timer_seq : timers_) {
-    delete timer_seq.first;
+  for (auto &seq_timer : active_timers_) {
+    delete seq_timer.second;
   }
 
   ::close(timer_channel_->GetFd());
@@ -135,10 +135,17 @@ TimerQueue::~TimerQueue() KANON_NOEXCEPT
 TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
                              double interval)
 {
-  Timer *timer = new Timer(std::move(cb), time, interval);
-  loop_->RunInLoop([this, timer]() {
+  // The functor may be dropped if the loop quits
+  auto holder = std::make_shared<std::unique_ptr<Timer>>(
+      new Timer(std::move(cb), time, interval));
+  // The timer can be destroyed after RunInLoop()
+  TimerId id(holder->get());
+
+  loop_->RunInLoop([this, holder]() {
     loop_->AssertInThread();
 
+    auto timer = holder->release();
+    active_timers_.emplace(timer->sequence(), timer);
     bool earliest_update = Emplace(timer);
 
     if (earliest_update) {
@@ -146,7 +153,7 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
     }
   });
 
-  return timer;
+  return id;
 }
 
 void TimerQueue::CancelTimer(TimerId id)
@@ -156,14 +163,23 @@ void TimerQueue::CancelTimer(TimerId id)
   loop_->RunInLoop([this, id]() {
     loop_->AssertInThread();
 
-    const auto active_timer_iter = timers_.find({id.timer_, id.seq_});
+    // The id.timer_ can't be dereferenced unless the timer is active
+    const auto active_timer_iter = active_timers_.find(id.seq_);
+
+    if (active_timers_.end() == active_timer_iter ||
+        active_timer_iter->second != id.timer_)
+    {
+      return;
+    }
 
-    if (timers_.end() != active_timer_iter) {
-      timers_.erase(active_timer_iter);
-    } else if (calling_timer_) {
-      // Self-cancel
+    if (timers_.erase({id.timer_, id.seq_}) != 0) {
+      active_timers_.erase(active_timer_iter);
+      delete id.timer_;
+    } else {
+      // The timer has expired and is(or will be) called in this phase,
+      // e.g. self-cancel
       // \see ProcessAllExpiredTimers()
-      canceling_timers_.emplace(id.timer_, id.seq_);
+      canceling_timers_.emplace(id.seq_);
     }
   });
 }
@@ -209,6 +225,9 @@ void TimerQueue::ProcessAllExpiredTimers(TimeStamp recv_time)
   calling_timer_ = true;
 
   for (auto const &timer : expired_timers) {
+    // Canceled by the other expired timer
+    if (canceling_timers_.count(timer->sequence()) != 0) continue;
+
     try {
       timer->run();
     }
@@ -265,17 +284,13 @@ void TimerQueue::ResetTimers(TimerVector &expireds, TimeStamp now)
   Timer *next_expire{nullptr};
 
   for (auto &timer : expireds) {
-    if (timer->repeat()) {
-      // If timer is repeat, we should restart it
-      // but if it in such case as self-cancel,
-      // we shouldn't restart it and do nothing.
-      if (canceling_timers_.find({timer, timer->sequence()}) ==
-          canceling_timers_.end())
-      {
-        timer->restart(now);
-        Emplace(timer);
-      }
+    // If timer is repeat, we should restart it
+    // but if it has been canceled, we shouldn't restart it.
+    if (timer->repeat() && canceling_timers_.count(timer->sequence()) == 0) {
+      timer->restart(now);
+      Emplace(timer);
     } else {
+      active_timers_.erase(timer->sequence());
       delete timer;
     }
   }
diff --git a/kanon/linux/net/timer/timer_queue.h b/kanon/linux/net/timer/timer_queue.h
index 909db52..ace0fab 100644
--- a/kanon/linux/net/timer/timer_queue.h
+++ b/kanon/linux/net/timer/timer_queue.h
@@ -4,13 +4,13 @@
 #include "kanon/net/timer/itimer_queue_platform.h"
 
 #include <set>
+#include <memory>
+#include <unordered_map>
 #include <unordered_set>
 #include "kanon/util/ptr.h"
 #include "kanon/util/time_stamp.h"
 #include "kanon/net/channel.h"
 
-#include <third-party/xxHash/xxhash.h>
-
 namespace kanon {
 
 class TimerQueue : public ITimerQueuePlatform {
@@ -174,20 +174,17 @@ class TimerQueue : public ITimerQueuePlatform {
   bool calling_timer_; //!< Detect self-cancel
 
   /**
-   * The self-cancel timers will be put in this container.
-   * The all timers are not reset, and before the next phase of
-   * calling callback will be cleared.
+   * The timers canceled in the calling phase will be put in this container.
+   * They are not called and not reset, and it is cleared before the next
+   * phase of calling callback.
    */
-  struct TimerEntryHash {
-    KANON_INLINE uint64_t operator()(TimerEntry const &x) const KANON_NOEXCEPT
-    {
-      return XXH64(&x.first, sizeof x.first, time(NULL)) ^
-             (XXH64(&x.second, sizeof x.second, time(NULL)) << 1);
-    }
-  };
+  std::unordered_set<uint64_t> canceling_timers_;
 
-  std::unordered_set<TimerEntry, TimerEntryHash>
-      canceling_timers_; //!< Store the self-cancel timer to avoid reset
+  /**
+   * All timers that aren't destroyed, include the expired timers being called.
+   * The Timer* in the TimerId is valid only if its sequence is in here.
+   */
+  std::unordered_map<uint64_t, Timer *> active_timers_;
 };
 } // namespace kanon
 
-- 
2.43.0


From 98ff6cdb2f37057c3c5cd23368dea91a7ded6d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 043/131] fix: EventLoop handled the events of the channel
 removed and destroyed in the same wakeup

---
 kanon/net/event_loop.cc | 21 +++++++++++++--------
 kanon/net/event_loop.h  |  7 +++++++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 4684a7b..e06e67a 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -168,18 +168,16 @@ void EventLoop::StartLoop()
 
   LOG_TRACE_KANON << "EventLoop " << this << " loop start";
 
-  std::vector<Channel *> activeChannels;
-
   while (!quit_) {
-    auto receive_time = poller_->Poll(POLLTIME, activeChannels);
+    auto receive_time = poller_->Poll(POLLTIME, active_channels_);
 
-    for (auto &channel : activeChannels) {
-      channel->HandleEvents(receive_time);
+    for (size_t i = 0; i < active_channels_.size(); ++i) {
+      if (active_channels_[i]) active_channels_[i]->HandleEvents(receive_time);
     }
 
-    CallFunctors();
+    active_channels_.clear();
 
-    activeChannels.clear();
+    CallFunctors();
   }
 
   LOG_TRACE_KANON << "EventLoop " << this << " loop stop";
@@ -243,7 +241,14 @@ void EventLoop::QueueToLoop(FunctorCallback cb)
 
 void EventLoop::UpdateChannel(Channel *ch) { poller_->UpdateChannel(ch); }
 
-void EventLoop::RemoveChannel(Channel *ch) { poller_->RemoveChannel(ch); }
+void EventLoop::RemoveChannel(Channel *ch)
+{
+  poller_->RemoveChannel(ch);
+
+  for (auto &channel : active_channels_) {
+    if (channel == ch) channel = nullptr;
+  }
+}
 
 void EventLoop::CallFunctors()
 {
diff --git a/kanon/net/event_loop.h b/kanon/net/event_loop.h
index 5a04b13..a5c763e 100644
--- a/kanon/net/event_loop.h
+++ b/kanon/net/event_loop.h
@@ -269,6 +269,13 @@ class EventLoop : noncopyable {
    */
   std::unique_ptr<PollerBase> poller_; //!< Demultiplexer
 
+  /**
+   * Channels whose events are being handled.
+   * The removed channel is replaced with nullptr since it maybe destroyed
+   * before its events are handled
+   */
+  std::vector<Channel *> active_channels_;
+
   std::unique_ptr<Channel> ev_channel_; //!< Used for wakeuping
 
   /** Make QueueToLoop() can be called asynchronously, so need lock the
-- 
2.43.0


From d45f6fc099f37a2c633521145688d7d69ca13627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 044/131] fix: Connector was used after destroyed and lost the
 channel when connecting again

---
 kanon/linux/net/connector.cc | 13 ++++++--
 kanon/net/connector.cc       | 58 +++++++++++++++++++++++-------------
 2 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/kanon/linux/net/connector.cc b/kanon/linux/net/connector.cc
index cab1787..e7f583d 100644
--- a/kanon/linux/net/connector.cc
+++ b/kanon/linux/net/connector.cc
@@ -76,7 +76,13 @@ void Connector::CompleteConnect(FdType sockfd)
   assert(!channel_);
   channel_ = kanon::make_unique<Channel>(loop_, sockfd);
 
-  channel_->SetWriteCallback([this]() {
+  // The connector maybe is destroyed in the callback or when connecting
+  std::weak_ptr<Connector> wp_self(shared_from_this());
+
+  channel_->SetWriteCallback([this, wp_self]() {
+    auto self = wp_self.lock();
+    if (!self || !channel_) return;
+
     FdType sockfd = channel_->GetFd();
     // NOTICE:
     // OUT maybe occurs with ERR(and HUP).
@@ -127,7 +133,10 @@ void Connector::CompleteConnect(FdType sockfd)
     }
   });
 
-  channel_->SetErrorCallback([this]() {
+  channel_->SetErrorCallback([this, wp_self]() {
+    auto self = wp_self.lock();
+    if (!self || !channel_) return;
+
     if (state_ == State::kConnecting) {
       FdType sockfd = channel_->GetFd();
       ResetChannel();
diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index 4d5a919..354bf73 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -24,18 +24,30 @@ Connector::Connector(EventLoop *loop, InetAddr const &serv_addr)
 Connector::~Connector() KANON_NOEXCEPT
 {
   LOG_DEBUG_KANON << "Connector is destructed";
-  // user should call stop explicitly when reconnecting...
-  assert(!channel_);
+
+  if (channel_) {
+    // Destroyed when connecting: the channel must be removed in loop
+    // and it maybe is handling event now
+    auto loop = loop_;
+    std::shared_ptr<Channel> channel(std::move(channel_));
+    loop_->RunInLoop([loop, channel]() {
+      channel->DisableAll();
+      channel->Remove();
+      sock::Close(channel->GetFd());
+      loop->QueueToLoop([channel]() {
+      });
+    });
+  }
 }
 
 void Connector::StartRun()
 {
-  loop_->RunInLoop([this]() {
-    loop_->AssertInThread();
+  auto self = shared_from_this();
+  loop_->RunInLoop([self]() {
+    self->loop_->AssertInThread();
 
-    assert(state_ == kDisconnected);
-    if (connect_) {
-      Connect();
+    if (self->connect_) {
+      self->Connect();
     }
   });
 }
@@ -75,22 +87,22 @@ void Connector::StopInLoop()
 
 void Connector::Restrat()
 {
-  loop_->RunInLoop([this]() {
-    connect_ = true;
+  auto self = shared_from_this();
+  loop_->RunInLoop([self]() {
+    self->connect_ = true;
 
     /*
      * Can't distinguish passive close and active close
      * e.g. Connector is destroyed and restart shouldn't be thinked to close
      *      if connection is not established.
      */
-    if (state_ != kConnected) {
-      // LOG_WARN_KANON << "Restart() must be used for reconnecting when passive
-      // closed by peer";
-    }
-    SetState(State::kDisconnected);
-    retry_interval_ = INIT_RETRY_INTERVAL;
+    if (self->state_ == kConnecting) return;
+
+    if (self->timer_) self->loop_->CancelTimer(*self->timer_);
+    self->SetState(State::kDisconnected);
+    self->retry_interval_ = INIT_RETRY_INTERVAL;
 
-    StartRun();
+    self->StartRun();
   });
 }
 
@@ -107,9 +119,12 @@ void Connector::Retry(FdType sockfd)
     LOG_TRACE_KANON << "Client will reconnect to " << serv_addr_.ToIpPort()
                     << " after " << delay_sec << " seconds";
 
+    // The connector maybe is destroyed when waiting to retry
+    std::weak_ptr<Connector> wp_self(shared_from_this());
     timer_ = loop_->RunAfter(
-        [this]() {
-          StartRun();
+        [wp_self]() {
+          auto self = wp_self.lock();
+          if (self) self->StartRun();
         },
         delay_sec);
 
@@ -129,7 +144,10 @@ void Connector::ResetChannel()
   // \warning
   // In event handle phase now if called in phase2
   // So, you can't call it immediately
-  loop_->QueueToLoop([this]() {
-    channel_.reset();
+  //
+  // The connector maybe connect again or is destroyed before the functor is
+  // called, so it don't own the channel now
+  std::shared_ptr<Channel> channel(std::move(channel_));
+  loop_->QueueToLoop([channel]() {
   });
 }
-- 
2.43.0


From d8e8de4273125a2b17f396d6107984657c91ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 045/131] fix: Connector retry interval overflowed to zero

---
 kanon/net/connector.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index 354bf73..e231101 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -128,7 +128,9 @@ void Connector::Retry(FdType sockfd)
         },
         delay_sec);
 
-    retry_interval_ *= 2;
+    // Avoid overflow
+    retry_interval_ =
+        std::min<uint32_t>(retry_interval_ * 2, MAX_RETRY_INTERVAL);
   }
 }
 
-- 
2.43.0


From 5c0508f67eb68d189978bfec97cfb174515bdc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 046/131] fix: Connector leaked the socket if there is no new
 connection callback

---
 kanon/linux/net/connector.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kanon/linux/net/connector.cc b/kanon/linux/net/connector.cc
index e7f583d..33b3767 100644
--- a/kanon/linux/net/connector.cc
+++ b/kanon/linux/net/connector.cc
@@ -122,6 +122,7 @@ void Connector::CompleteConnect(FdType sockfd)
           else {
             LOG_WARN_KANON << "There is no new connection callback, cannot to create "
                         "connection";
+            sock::Close(sockfd);
           }
           LOG_TRACE_KANON << "Connection is established successfully";
         } else {
-- 
2.43.0


From 8af2f35d1e0318dfdfc0ba3d11ad46998c4c8434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 047/131] fix: TcpClient leaked the established socket if it is
 destroyed or has a connection

---
 kanon/net/tcp_client.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index 89a5e61..9af7d30 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -110,7 +110,11 @@ void TcpClient::NewConnection(FdType sockfd, InetAddr const &serv_addr,
   /* Avoid reference cycle */
   auto cli = wcli.lock();
 
-  if (!cli || cli->conn_) return;
+  if (!cli || cli->conn_) {
+    // No one manages the socket
+    sock::Close(sockfd);
+    return;
+  }
 
   LOG_DEBUG_KANON << "cli sc = " << cli.use_count();
 
-- 
2.43.0


From 797054067729709e02198b7948b94422c47f698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 048/131] fix: TcpClient destructor left the connection
 unmanaged or registered in the loop

---
 kanon/net/event_loop.h  |  6 +++++
 kanon/net/tcp_client.cc | 58 ++++++++++++++++++++++++++++-------------
 kanon/net/tcp_client.h  |  7 +++++
 3 files changed, 53 insertions(+), 18 deletions(-)

diff --git a/kanon/net/event_loop.h b/kanon/net/event_loop.h
index a5c763e..8acc447 100644
--- a/kanon/net/event_loop.h
+++ b/kanon/net/event_loop.h
@@ -88,6 +88,12 @@ class EventLoop : noncopyable {
   KANON_NET_API void QueueToLoop(FunctorCallback);
   //!@}
 
+  /**
+   * \brief Whether the loop is running
+   * \note Not thread-safe, but in loop
+   */
+  bool IsLooping() const KANON_NOEXCEPT { return looping_; }
+
   //! \cond Channel API
   /**
    * \brief Remove channel in poller_
diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index 9af7d30..23f06ba 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -39,39 +39,57 @@ TcpClient::~TcpClient() KANON_NOEXCEPT
   LOG_TRACE_KANON << "TcpClient-[" << name_ << "]"
                   << " is destructed";
 
-  bool is_unique = false;
   TcpConnectionPtr conn;
   {
     MutexGuard guard{mutex_};
 
-    is_unique = (conn_.use_count() == 1); // not atomic
-
     // To write or read conn_ is not thread-safe,
-    // we can copy it first, for the duplication,
-    // it is thread-safe.
-    // Because conn_ if is not released, conn also.
-    // In the following operations, it is also alive
-    // since ref count is not 0(i.e. pinned). Otherwise,
-    // conn is released. we can't access it.
-    conn = conn_;
+    // so move it first.
+    conn = std::move(conn_);
   }
 
-  LOG_INFO << "is_unique: " << is_unique;
+  // Disable the connector
+  connector_->Stop();
 
   // Has established new connection
   if (conn) {
     assert(conn->GetLoop() == loop_);
-    // Should not use old close callback
-    // may be other thread using it
-    if (is_unique) {
-      conn->ForceClose();
+    // Other thread may be hold the connection,
+    // or the loop is just handling its events.
+    // Only the former should keep the connection open, so check it in the
+    // calling functors phase.
+    auto loop = loop_;
+    auto release = std::bind(&TcpClient::ReleaseConnection, std::move(conn));
+    if (loop->IsLoopInThread() && !loop->IsLooping()) {
+      release();
+    } else {
+      loop->QueueToLoop(std::move(release));
     }
-  } else {
-    // Disable the connector
-    connector_->Stop();
   }
 }
 
+void TcpClient::ReleaseConnection(TcpConnectionPtr const &conn)
+{
+  if (conn.use_count() == 1) {
+    conn->ForceClose();
+  } else if (!conn->IsDisconnected()) {
+    // The user use the connection until it is closed,
+    // but the channel of it must not outlive it.
+    conn->SetCloseCallback(
+        std::bind(&TcpClient::CloseReleasedConnection, conn, _1));
+  }
+}
+
+void TcpClient::CloseReleasedConnection(TcpConnectionPtr const &,
+                                        TcpConnectionPtr const &conn)
+{
+  conn->GetLoop()->QueueToLoop([conn]() {
+    // Break the reference cycle
+    conn->SetCloseCallback({});
+    conn->ConnectionDestroyed();
+  });
+}
+
 void TcpClient::Connect() { connector_->StartRun(); }
 
 void TcpClient::Disconnect()
@@ -180,6 +198,10 @@ void TcpClient::CloseConnectionHandler(std::weak_ptr<TcpClient> const &wp_cli,
 {
   auto cli = wp_cli.lock();
   if (!cli) {
+    // The channel must be removed even though the client has destroyed
+    conn->GetLoop()->QueueToLoop([conn]() {
+      conn->ConnectionDestroyed();
+    });
     return;
   }
 
diff --git a/kanon/net/tcp_client.h b/kanon/net/tcp_client.h
index 0e43c1a..712e3e2 100644
--- a/kanon/net/tcp_client.h
+++ b/kanon/net/tcp_client.h
@@ -128,6 +128,13 @@ class TcpClient
   CloseConnectionHandler(std::weak_ptr<TcpClient> const &wp_cli,
                          TcpConnectionPtr const &conn);
 
+  /* Close the connection if only the destroyed client used it */
+  KANON_NET_NO_API static void ReleaseConnection(TcpConnectionPtr const &conn);
+
+  KANON_NET_NO_API static void
+  CloseReleasedConnection(TcpConnectionPtr const &owner,
+                          TcpConnectionPtr const &conn);
+
   EventLoop *loop_;
   std::shared_ptr<Connector> connector_;
 
-- 
2.43.0


From 87b2c64d57a703b5f6273012b96517bed27a38b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 049/131] fix: TcpClient could not connect again after its
 connection is closed

---
 kanon/net/connector.h   | 9 +++++++++
 kanon/net/tcp_client.cc | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/kanon/net/connector.h b/kanon/net/connector.h
index 4f17a92..1ade747 100644
--- a/kanon/net/connector.h
+++ b/kanon/net/connector.h
@@ -92,6 +92,15 @@ class KANON_NET_NO_API Connector
    */
   void Restrat();
 
+  /**
+   * \brief The established connection is closed, allow to connect again
+   * \note Not thread safe, must be called in loop
+   */
+  void SetDisconnected() KANON_NOEXCEPT
+  {
+    if (state_ == kConnected) state_ = kDisconnected;
+  }
+
   void SetNewConnectionCallback(NewConnectionCallback cb) KANON_NOEXCEPT
   {
     new_connection_callback_ = std::move(cb);
diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index 23f06ba..2aa882a 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -223,6 +223,8 @@ void TcpClient::CloseConnectionHandler(std::weak_ptr<TcpClient> const &wp_cli,
     conn->ConnectionDestroyed();
   });
 
+  cli->connector_->SetDisconnected();
+
   // If user does not call Disconnect() and
   // support restart when passive close occurred
   if (cli->retry_) {
-- 
2.43.0


From db67edfab72e7970fb2e70c8497c58c41eee7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 050/131] fix: ConnectionBase aborted or reported down twice if
 it is closed more than once

---
 kanon/linux/net/connection/connection_base.inl |  1 -
 kanon/net/connection/connection_base.cc        | 12 ++++++++----
 kanon/net/connection/connection_base.h         |  3 ++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 0435bc0..a9fa75b 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -23,7 +23,6 @@ void ConnectionBase<D>::HandleWrite()
   // 2. ConnectionDestoryed() is called when connection is active
   //    (e.g. TcpServer desctroyed)
   if (!channel_->IsWriting()) {
-    assert(state_ == kDisconnected);
     LOG_TRACE_KANON << "This Connection: " << name_ << " is down";
     return;
   }
diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 103e481..aa99eaf 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -77,7 +77,7 @@ void ConnectionBase<D>::ConnectionDestroyed()
                   << " destoryed";
   // This may be called by TcpServer dtor or close_callback_(see TcpServer)
   // if close_callback_ has be called, just remove channel;
-  if (state_ == kConnected) {
+  if (state_ == kConnected || state_ == kDisconnecting) {
     channel_->DisableAll();
     state_ = kDisconnected;
 
@@ -344,6 +344,8 @@ void ConnectionBase<D>::HandleClose()
   loop_->AssertInThread();
   // Connected ==> read event handling
   // Disconnecting ==> call ForceClose()
+  // Disconnected ==> closed by ForceClose() or peer early
+  if (state_ == kDisconnected) return;
   assert(state_ == kConnected || state_ == kDisconnecting);
   state_ = kDisconnected;
 
@@ -389,9 +391,11 @@ void ConnectionBase<D>::ForceClose() KANON_NOEXCEPT
   // If connection is not established or
   // disconnected,
   // ForceClose() do nothing.
-  if (state_ == kConnected || state_ == kDisconnecting) {
-    state_ = kDisconnecting;
-
+  // The loop maybe set state_ to kDisconnected now
+  State state = kConnected;
+  if (state_.compare_exchange_strong(state, kDisconnecting) ||
+      state == kDisconnecting)
+  {
     loop_->RunInLoop(
         std::bind(&ConnectionBase<D>::HandleClose, this->shared_from_this()));
   }
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index e25cac7..13e4d99 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -1,6 +1,7 @@
 #ifndef KANON_NET_CONNECTION_BASE_H
 #define KANON_NET_CONNECTION_BASE_H
 
+#include <atomic>
 #include <memory>
 
 #include "kanon/util/noncopyable.h"
@@ -302,7 +303,7 @@ class ConnectionBase
    * about a specific connnection(So, it named context)
    */
   RawAny context_;
-  State state_; //!< Internal useage
+  std::atomic<State> state_; //!< Internal useage
 
 #ifdef KANON_ON_WIN
  public:
-- 
2.43.0


From 51e1e7af7f5fe72c09c3b0bd48048cbf8b70853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 051/131] fix: ConnectionBase::ShutdownWrite() lost the
 messages sent before it or never shut down

---
 .../linux/net/connection/connection_base.inl  | 10 +++-
 kanon/net/connection/connection_base.cc       | 53 ++++++++++++-------
 kanon/net/connection/connection_base.h        | 12 +++++
 3 files changed, 53 insertions(+), 22 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index a9fa75b..c229d35 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -40,7 +40,7 @@ void ConnectionBase<D>::SendInLoopForBuf(InputBuffer &buffer)
   LOG_TRACE_KANON << "Connection: [" << name_
                   << "], fd = " << channel_->GetFd();
 
-  if (state_ != kConnected) {
+  if (!IsWritableInLoop()) {
     LOG_WARN_KANON << "This connection[" << name_
                    << "] is not connected, don't send any message";
     return;
@@ -110,6 +110,12 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
   //     "The Send() for ChunkList must be called when output_buffer_ is
   //     empty");
 
+  if (!IsWritableInLoop()) {
+    LOG_WARN_KANON << "This connection[" << name_
+                   << "] is not connected, don't send any message";
+    return;
+  }
+
   int saved_errno = 0;
   auto write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
 
@@ -164,7 +170,7 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
   // Although Send() has checked state_ is kConnected
   // But connection also can be closed in the phase 2
   // when this is called in phase 3
-  if (state_ != kConnected) {
+  if (!IsWritableInLoop()) {
     LOG_WARN_KANON << "This connection [" << name_
                    << "] is not connected, don't send any message";
     return;
diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index aa99eaf..13f3d7a 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -25,6 +25,7 @@ ConnectionBase<D>::ConnectionBase(EventLoop *loop, std::string const &name,
   , channel_(new Channel(loop_, sockfd))
   , high_water_mark_{kDefaultHighWatermark}
   , state_{kConnecting}
+  , write_shutdown_{false}
 {
   // Pass raw pointer is safe here since
   // will disable all events when connection
@@ -250,11 +251,10 @@ void ConnectionBase<D>::HandleLtWrite()
         channel_->DisableWriting();
       }
 
-      // Disconnecting is set in ShutdownWrite(). Because there are some message
-      // need write(channel_->IsWriting()) to kernel space, delay the shutdown()
-      // to here
-      if (state_ == kDisconnecting) {
-        ShutdownWrite();
+      // Because there are some message need write to kernel space when
+      // ShutdownWrite() is called, delay the shutdown() to here
+      if (write_shutdown_) {
+        socket_->ShutdownWrite();
       }
     }
   }
@@ -321,7 +321,7 @@ void ConnectionBase<D>::HandleEtWrite()
                     this->shared_from_this()));
     }
 
-    if (state_ == kDisconnecting) {
+    if (write_shutdown_) {
       socket_->ShutdownWrite();
     }
   }
@@ -370,18 +370,27 @@ void ConnectionBase<D>::HandleClose()
 template <typename D>
 void ConnectionBase<D>::ShutdownWrite() KANON_NOEXCEPT
 {
-  if (state_ == kConnected) {
-    state_ = kDisconnecting;
-
-    // Pass raw pointer is safe.
-    loop_->RunInLoop([this]() {
-      // If channel is writing state, we need write all message to
-      // the buffer in kernel space, in case peer half-close can
-      // also receive message
-      if (!channel_->IsWriting() || loop_->IsEdgeTriggerMode()) {
-        socket_->ShutdownWrite();
-      }
-    });
+  State state = kConnected;
+  if (state_.compare_exchange_strong(state, kDisconnecting)) {
+    // Queue it even though in the loop,
+    // the messages sent by other threads early must be written first.
+    loop_->QueueToLoop(std::bind(&ConnectionBase<D>::ShutdownWriteInLoop,
+                                 this->shared_from_this()));
+  }
+}
+
+template <typename D>
+void ConnectionBase<D>::ShutdownWriteInLoop()
+{
+  if (state_ != kDisconnecting) return;
+
+  write_shutdown_ = true;
+
+  // If there are some messages in the output_buffer_, we need write all
+  // message to the buffer in kernel space, in case peer half-close can
+  // also receive message
+  if (!output_buffer_.HasReadable()) {
+    socket_->ShutdownWrite();
   }
 }
 
@@ -491,7 +500,9 @@ void ConnectionBase<D>::SendInLoop(StringView data)
 template <typename D>
 void ConnectionBase<D>::DisbaleRead()
 {
-  if (state_ == kConnected && channel_->IsReading()) {
+  if ((state_ == kConnected || state_ == kDisconnecting) &&
+      channel_->IsReading())
+  {
     channel_->DisableReading();
   }
 }
@@ -499,7 +510,9 @@ void ConnectionBase<D>::DisbaleRead()
 template <typename D>
 void ConnectionBase<D>::EnableRead()
 {
-  if (state_ == kConnected && !channel_->IsReading()) {
+  if ((state_ == kConnected || state_ == kDisconnecting) &&
+      !channel_->IsReading())
+  {
     channel_->EnableReading();
   }
 }
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index 13e4d99..87de25f 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -237,6 +237,17 @@ class ConnectionBase
   void HandleError();
   void HandleClose();
 
+  void ShutdownWriteInLoop();
+
+  /**
+   * The messages sent before ShutdownWrite() is called also should be written
+   */
+  bool IsWritableInLoop() const KANON_NOEXCEPT
+  {
+    return state_ == kConnected ||
+           (state_ == kDisconnecting && !write_shutdown_);
+  }
+
   void CallWriteCompleteCallback();
   void SendInLoop(void const *data, size_t len);
   void SendInLoop(StringView data);
@@ -304,6 +315,7 @@ class ConnectionBase
    */
   RawAny context_;
   std::atomic<State> state_; //!< Internal useage
+  bool write_shutdown_; //!< ShutdownWrite() is called, no message is sent later
 
 #ifdef KANON_ON_WIN
  public:
-- 
2.43.0


From 3d6c06a60470c8badac281af58e2b3d54b6158a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 052/131] fix: ConnectionBase::Send() lost or reordered the
 messages if the kernel doesn't accept all

---
 .../linux/net/connection/connection_base.inl  | 110 ++++++++++--------
 1 file changed, 60 insertions(+), 50 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index c229d35..ead6ffe 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -59,36 +59,37 @@ void ConnectionBase<D>::SendInLoopForBuf(InputBuffer &buffer)
     int saved_errno = 0;
     auto n = ChunkListWriteFd(output_buffer_, channel_->GetFd(), saved_errno);
 
-    if (saved_errno && saved_errno != EAGAIN) {
+    if (saved_errno && saved_errno != EAGAIN && saved_errno != EINTR) {
+      errno = saved_errno;
       LOG_SYSERROR_KANON << "write unexpected error occurred";
+      output_buffer_.AdvanceReadAll();
+      return;
     }
 
-    if (n > 0) {
-      LOG_TRACE_KANON << "Write length = " << n;
-      output_buffer_.AdvanceRead(n);
-      if (output_buffer_.HasReadable()) {
+    LOG_TRACE_KANON << "Write length = " << n;
+    output_buffer_.AdvanceRead(n);
+    if (output_buffer_.HasReadable()) {
 #ifdef PRINT_REMAIN
-        LOG_TRACE_KANON << "Remaining length = "
-                        << output_buffer_.GetReadableSize();
+      LOG_TRACE_KANON << "Remaining length = "
+                      << output_buffer_.GetReadableSize();
 #endif
 
-        if (output_buffer_.GetReadableSize() >= high_water_mark_ &&
-            high_water_mark_callback_)
-        {
-          loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                       this->shared_from_this(),
-                                       output_buffer_.GetReadableSize()));
-        }
-        channel_->EnableWriting();
-      } else {
-        if (write_complete_callback_) {
-          loop_->QueueToLoop(
-              std::bind(write_complete_callback_, this->shared_from_this()));
-        }
+      if (output_buffer_.GetReadableSize() >= high_water_mark_ &&
+          high_water_mark_callback_)
+      {
+        loop_->QueueToLoop(std::bind(high_water_mark_callback_,
+                                     this->shared_from_this(),
+                                     output_buffer_.GetReadableSize()));
+      }
+      if (!channel_->IsWriting()) channel_->EnableWriting();
+    } else {
+      if (write_complete_callback_) {
+        loop_->QueueToLoop(
+            std::bind(write_complete_callback_, this->shared_from_this()));
+      }
 
-        if (channel_->IsWriting()) {
-          channel_->DisableWriting();
-        }
+      if (channel_->IsWriting()) {
+        channel_->DisableWriting();
       }
     }
   } else {
@@ -116,36 +117,21 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
     return;
   }
 
-  int saved_errno = 0;
-  auto write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
+  // The early messages must be written first
+  if (!output_buffer_.HasReadable()) {
+    int saved_errno = 0;
+    auto write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
 
-  if (saved_errno && saved_errno != EAGAIN) {
-    LOG_SYSERROR_KANON << "write unexpected error occurred";
-  }
+    if (saved_errno && saved_errno != EAGAIN && saved_errno != EINTR) {
+      errno = saved_errno;
+      LOG_SYSERROR_KANON << "write unexpected error occurred";
+      return;
+    }
 
-  if (write_n > 0) {
     LOG_DEBUG_KANON << "Write " << write_n << " bytes";
     buffer.AdvanceRead(write_n);
 
-    if (buffer.HasReadable()) {
-      if (high_water_mark_callback_ &&
-          buffer.GetReadableSize() > high_water_mark_)
-      {
-        loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                     this->shared_from_this(),
-                                     high_water_mark_));
-      }
-
-#if 1
-      if (output_buffer_.HasReadable()) {
-        output_buffer_.AppendChunkList(&buffer);
-      } else {
-        output_buffer_.swap(buffer);
-      }
-#else
-      output_buffer_.swap(buffer);
-#endif
-    } else {
+    if (!buffer.HasReadable()) {
       LOG_DEBUG_KANON << "Write complete";
       if (write_complete_callback_) {
         loop_->QueueToLoop(std::bind(&ConnectionBase::CallWriteCompleteCallback,
@@ -155,6 +141,27 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
       if (channel_->IsWriting()) {
         channel_->DisableWriting();
       }
+      return;
+    }
+  }
+
+  if (buffer.HasReadable()) {
+    if (high_water_mark_callback_ &&
+        buffer.GetReadableSize() > high_water_mark_)
+    {
+      loop_->QueueToLoop(std::bind(high_water_mark_callback_,
+                                   this->shared_from_this(),
+                                   high_water_mark_));
+    }
+
+    if (output_buffer_.HasReadable()) {
+      output_buffer_.AppendChunkList(&buffer);
+    } else {
+      output_buffer_.swap(buffer);
+    }
+
+    if (!channel_->IsWriting()) {
+      channel_->EnableWriting();
     }
   }
 }
@@ -262,9 +269,12 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
         return;
       }
     } else {
-      if (errno != EAGAIN) // EWOULDBLOCK
+      // EAGAIN(EWOULDBLOCK) and EINTR: nothing is written, write it later
+      if (errno != EAGAIN && errno != EINTR) {
         LOG_SYSERROR_KANON << "write unexpected error occurred";
-      return;
+        return;
+      }
+      n = 0;
     }
   }
 
-- 
2.43.0


From d0f6d9990d5a843971bc454ac3dd729b36abcd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 053/131] fix: ConnectionBase spun or used the closed
 connection after a read error, EINTR or a close in edge trigger mode

---
 kanon/net/connection/connection_base.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 13f3d7a..40a16fc 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -109,9 +109,10 @@ void ConnectionBase<D>::HandleLtRead(TimeStamp recv_time)
   if (saved_errno != 0) {
     errno = saved_errno;
 
-    if (errno != EAGAIN) {
+    if (errno != EAGAIN && errno != EINTR) {
       LOG_SYSERROR_KANON << "Read event handle error";
       HandleError();
+      HandleClose();
     }
   } else if (n == 0) {
     // Peer close the connection
@@ -153,19 +154,21 @@ void ConnectionBase<D>::HandleEtRead(TimeStamp recv_time)
   // 4. The message length is equal to 0, it dicates that peer close this
   // connection
   //    then call HandleClose() since this is passive close
-  int saved_errno = 0;
-
   for (;;) {
+    int saved_errno = 0;
     auto readn =
         BufferReadFromFd(input_buffer_, channel_->GetFd(), saved_errno);
 
     if (saved_errno != 0) {
+      if (saved_errno == EINTR) continue;
+
       if (saved_errno != EAGAIN) {
+        errno = saved_errno;
         LOG_SYSERROR_KANON << "Read event handle error";
         HandleError();
-      } else {
-        break;
+        HandleClose();
       }
+      break;
     }
 
     LOG_DEBUG_KANON << "Read " << readn << " bytes from [Connection: " << name_
@@ -185,6 +188,9 @@ void ConnectionBase<D>::HandleEtRead(TimeStamp recv_time)
       LOG_WARN_KANON << "If user want to process message from peer, should set "
                         "proper message_callback_";
     }
+
+    // The message_callback_ maybe close the connection or disable reading
+    if (!channel_->IsReading()) break;
   }
 }
 
-- 
2.43.0


From 739d4eba02c1ab03f89f8ba226019264f79a93a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 054/131] fix: ConnectionBase write event handler spun when the
 write fails, or there is nothing to write

---
 kanon/net/connection/connection_base.cc | 31 +++++++++++++++++++------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 40a16fc..f0c16ab 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -216,9 +216,19 @@ void ConnectionBase<D>::HandleLtWrite()
   LOG_TRACE_KANON << "Write " << n << " bytes to [Connection: " << name_
                   << ", fd: " << channel_->GetFd() << "]";
 
-  if (saved_errno && saved_errno != EAGAIN) {
+  if (saved_errno && saved_errno != EAGAIN && saved_errno != EINTR) {
+    errno = saved_errno;
     LOG_SYSERROR_KANON << "Write event handle error";
     HandleError();
+    // Avoid busy loop, the read or close event will close the connection
+    channel_->DisableWriting();
+    return;
+  }
+
+  // The write_complete_callback_ doesn't continue to send
+  if (!output_buffer_.HasReadable()) {
+    channel_->DisableWriting();
+    return;
   }
 
   // If saved_errno != 0, indicates there is a error occured.
@@ -287,6 +297,12 @@ void ConnectionBase<D>::HandleEtWrite()
   // The event occurred only in the:
   // 1. buffer high-watermark to low-watermark(writable)
 
+  // The write_complete_callback_ doesn't continue to send
+  if (!output_buffer_.HasReadable()) {
+    channel_->DisableWriting();
+    return;
+  }
+
   while (true) {
     // auto writen = sock::Write(
     // channel_->GetFd(),
@@ -297,11 +313,12 @@ void ConnectionBase<D>::HandleEtWrite()
     auto writen =
         ChunkListWriteFd(output_buffer_, channel_->GetFd(), saved_errno);
 
-    if (saved_errno) {
-      if (saved_errno != EAGAIN) {
-        LOG_SYSERROR_KANON << "Write event handle error";
-        HandleError();
-      }
+    if (saved_errno && saved_errno != EAGAIN && saved_errno != EINTR) {
+      errno = saved_errno;
+      LOG_SYSERROR_KANON << "Write event handle error";
+      HandleError();
+      channel_->DisableWriting();
+      return;
     }
 
     LOG_TRACE_KANON << "Write " << writen << " bytes to [Connection: " << name_
@@ -309,7 +326,7 @@ void ConnectionBase<D>::HandleEtWrite()
 
     output_buffer_.AdvanceRead(writen);
 
-    if (!output_buffer_.HasReadable() && saved_errno == EAGAIN) {
+    if (!output_buffer_.HasReadable() || saved_errno == EAGAIN) {
       break;
     }
   }
-- 
2.43.0


From 7511f49c43dd3e7bfde8a4a88da48b79e794f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 055/131] fix: ConnectionBase called the write complete
 callback of closed or unsent connections and stalled the messages sent in it

---
 kanon/linux/net/connection/connection_base.inl |  6 ++++--
 kanon/net/connection/connection_base.cc        | 13 +++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index ead6ffe..27956d4 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -85,7 +85,8 @@ void ConnectionBase<D>::SendInLoopForBuf(InputBuffer &buffer)
     } else {
       if (write_complete_callback_) {
         loop_->QueueToLoop(
-            std::bind(write_complete_callback_, this->shared_from_this()));
+            std::bind(&ConnectionBase::CallWriteCompleteCallback,
+                      this->shared_from_this()));
       }
 
       if (channel_->IsWriting()) {
@@ -258,7 +259,8 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
       } else {
         if (write_complete_callback_) {
           loop_->QueueToLoop(
-              std::bind(write_complete_callback_, this->shared_from_this()));
+              std::bind(&ConnectionBase::CallWriteCompleteCallback,
+                        this->shared_from_this()));
         }
 
         if (channel_->IsWriting()) {
diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index f0c16ab..b36236c 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -279,10 +279,19 @@ void ConnectionBase<D>::HandleLtWrite()
 template <typename D>
 void ConnectionBase<D>::CallWriteCompleteCallback()
 {
+  // The connection maybe is closed or some messages are sent since the callback
+  // is queued, in the latter case it is queued again when they are written.
+  if (state_ == kDisconnected || output_buffer_.HasReadable() ||
+      !write_complete_callback_)
+  {
+    return;
+  }
+
   if (write_complete_callback_(this->shared_from_this())) {
     LOG_TRACE_KANON << "Last chunk in the pipeline write";
-    // The write_complete_callback_ maybe disable writing in the SendInLoop()
-    if (channel_->IsWriting()) {
+    // The write_complete_callback_ maybe disable writing in the SendInLoop(),
+    // or enable writing to write the remaining of the messages it sent
+    if (channel_->IsWriting() && !output_buffer_.HasReadable()) {
       channel_->DisableWriting();
     }
   } else {
-- 
2.43.0


From 1cb2a248325c8bc0ebf7d50c05e5b8d6880f3336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 056/131] fix: ConnectionBase called the high water mark
 callback without crossing, with wrong size or after closed

---
 .../linux/net/connection/connection_base.inl  | 28 +++++--------------
 kanon/net/connection/connection_base.cc       | 20 +++++++++++++
 kanon/net/connection/connection_base.h        |  7 +++++
 3 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 27956d4..a67f48d 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -74,13 +74,7 @@ void ConnectionBase<D>::SendInLoopForBuf(InputBuffer &buffer)
                       << output_buffer_.GetReadableSize();
 #endif
 
-      if (output_buffer_.GetReadableSize() >= high_water_mark_ &&
-          high_water_mark_callback_)
-      {
-        loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                     this->shared_from_this(),
-                                     output_buffer_.GetReadableSize()));
-      }
+      CheckHighWaterMark(0);
       if (!channel_->IsWriting()) channel_->EnableWriting();
     } else {
       if (write_complete_callback_) {
@@ -147,13 +141,7 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
   }
 
   if (buffer.HasReadable()) {
-    if (high_water_mark_callback_ &&
-        buffer.GetReadableSize() > high_water_mark_)
-    {
-      loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                   this->shared_from_this(),
-                                   high_water_mark_));
-    }
+    auto readable_len = output_buffer_.GetReadableSize();
 
     if (output_buffer_.HasReadable()) {
       output_buffer_.AppendChunkList(&buffer);
@@ -161,6 +149,8 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
       output_buffer_.swap(buffer);
     }
 
+    CheckHighWaterMark(readable_len);
+
     if (!channel_->IsWriting()) {
       channel_->EnableWriting();
     }
@@ -291,13 +281,9 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
       if (readable_len + remaining >= high_water_mark_ &&
           readable_len < high_water_mark_)
       {
-        loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                     this->shared_from_this(),
-                                     readable_len + remaining));
-        // loop_->QueueToLoop([this, readable_len, remaining]() {
-        //   high_water_mark_callback_(this->shared_from_this(), readable_len +
-        //   remaining);
-        // });
+        loop_->QueueToLoop(
+            std::bind(&ConnectionBase::CallHighWaterMarkCallback,
+                      this->shared_from_this(), readable_len + remaining));
       }
     }
 
diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index b36236c..7e4df1a 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -300,6 +300,26 @@ void ConnectionBase<D>::CallWriteCompleteCallback()
   }
 }
 
+template <typename D>
+void ConnectionBase<D>::CheckHighWaterMark(size_t old_len)
+{
+  if (!high_water_mark_callback_) return;
+
+  auto len = output_buffer_.GetReadableSize();
+  if (old_len < high_water_mark_ && len >= high_water_mark_) {
+    loop_->QueueToLoop(std::bind(&ConnectionBase::CallHighWaterMarkCallback,
+                                 this->shared_from_this(), len));
+  }
+}
+
+template <typename D>
+void ConnectionBase<D>::CallHighWaterMarkCallback(size_t len)
+{
+  if (state_ != kDisconnected && high_water_mark_callback_) {
+    high_water_mark_callback_(this->shared_from_this(), len);
+  }
+}
+
 template <typename D>
 void ConnectionBase<D>::HandleEtWrite()
 {
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index 87de25f..a24809b 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -249,6 +249,13 @@ class ConnectionBase
   }
 
   void CallWriteCompleteCallback();
+
+  /**
+   * Queue the high water mark callback if output_buffer_ reach the mark
+   * \param old_len The length of output_buffer_ before sending
+   */
+  void CheckHighWaterMark(size_t old_len);
+  void CallHighWaterMarkCallback(size_t len);
   void SendInLoop(void const *data, size_t len);
   void SendInLoop(StringView data);
   void SendInLoopForStr(std::string &data);
-- 
2.43.0


From 730475a88dac65ea79450afd07189a3eaeb89cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 057/131] fix: Acceptor aborted the server if accept() fails
 temporarily

---
 kanon/linux/net/sock_api.cc | 20 ++++++++++++++++----
 kanon/net/acceptor.cc       |  2 +-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/kanon/linux/net/sock_api.cc b/kanon/linux/net/sock_api.cc
index 5fe07b3..3b46d80 100644
--- a/kanon/linux/net/sock_api.cc
+++ b/kanon/linux/net/sock_api.cc
@@ -47,28 +47,40 @@ FdType sock::Accept(FdType fd, sockaddr_in6 *addr) KANON_NOEXCEPT
       ::accept4(fd, sock::to_sockaddr(addr), &socklen, O_NONBLOCK | O_CLOEXEC);
 #endif
   if (cli_sock < 0) {
+    int saved_errno = errno;
     switch (errno) {
       case EAGAIN: // In linux, EAGAIN = EWOULDBLOCK
       case ECONNABORTED:
       case EINTR:
       case EMFILE: // per-process limit on the number of open fd has been
                    // reached
+      case ENFILE: // system-wide limit on the number of open fd has been
+                   // reached
+      case ENOBUFS:
+      case ENOMEM:
+      // The pending errors of the new socket, see man accept(2)
+      case EPROTO:
+      case EPERM:
+      case ENETDOWN:
+      case ENOPROTOOPT:
+      case EHOSTDOWN:
+      case ENONET:
+      case EHOSTUNREACH:
+      case ENETUNREACH:
         LOG_SYSERROR_KANON << "accept() expected error occurred";
         break;
       case EFAULT:
       case EINVAL:
-      case ENFILE:
       case ENOTSOCK:
       case EOPNOTSUPP:
-      case EPROTO:
-      case ENOBUFS:
-      case ENOMEM:
         LOG_SYSFATAL << "accept() unexpected error occurred";
         break;
       default:
         LOG_SYSFATAL << "accept() unknown error occurred";
         break;
     }
+    // The caller check it
+    errno = saved_errno;
   }
   return cli_sock;
 }
diff --git a/kanon/net/acceptor.cc b/kanon/net/acceptor.cc
index 7aa0192..02bd958 100644
--- a/kanon/net/acceptor.cc
+++ b/kanon/net/acceptor.cc
@@ -42,7 +42,7 @@ Acceptor::Acceptor(EventLoop *loop, InetAddr const &addr, bool reuseport)
       // since we take level trigger policy,
       // so it will cause busy loop
       // so we should use dummy fd to accept and close it
-      if (errno == EMFILE) {
+      if (errno == EMFILE || errno == ENFILE) {
 // first close dummy fd, leave a space for fd in wait queue
 #ifdef KANON_ON_UNIX
         ::close(dummyfd_);
-- 
2.43.0


From 6656590c59bc3e848613c415c01257a86f05d7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 058/131] fix: Acceptor accepted one client only for an edge

---
 kanon/net/acceptor.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kanon/net/acceptor.cc b/kanon/net/acceptor.cc
index 02bd958..5f5d779 100644
--- a/kanon/net/acceptor.cc
+++ b/kanon/net/acceptor.cc
@@ -28,6 +28,7 @@ Acceptor::Acceptor(EventLoop *loop, InetAddr const &addr, bool reuseport)
 
     InetAddr cli_addr;
     auto cli_fd = socket_.Accpet(cli_addr);
+    if (cli_fd < 0 && errno == EAGAIN) return;
 
     if (cli_fd >= 0) {
       if (new_connection_callback_) {
@@ -56,6 +57,10 @@ Acceptor::Acceptor(EventLoop *loop, InetAddr const &addr, bool reuseport)
 
       // We don't handle error since sock::Accept() has handled
     }
+
+    // There maybe are other clients that don't trigger a new edge,
+    // update the event to check them again
+    if (loop_->IsEdgeTriggerMode()) channel_.EnableReading();
   });
 
   // Can't call Channel::EnableReading() in the ctor
-- 
2.43.0


From 7f2ee25dfa1868009772172b489241c57d6573cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 059/131] fix: TcpServer::StartRun() called by many threads
 started the loops more than once

---
 kanon/net/tcp_server.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 6324dfc..2afdce7 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -193,7 +193,7 @@ void TcpServer::StartRun() KANON_NOEXCEPT
   // If the other thread also call this function,
   // may be call this more than once.
   // EventLoopPool::StartRun() can only be called once
-  if (!start_once_) {
+  if (!start_once_.exchange(true)) {
     // start IO loop
     loop_->RunInLoop([this]() {
       // Boot the loop pool in the binded loop
@@ -213,7 +213,6 @@ void TcpServer::StartRun() KANON_NOEXCEPT
       pool_->StartRun(init_cb_);
       LOG_INFO_KANON << name_ << " is listening in " << ip_port_;
       acceptor_->Listen();
-      start_once_ = true;
     });
   }
 }
-- 
2.43.0


From 5384997f2565c4738ab526edde62a83285e29798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 060/131] fix: TcpServer destructor raced with the callbacks of
 its connections in IO loops

---
 kanon/net/tcp_server.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 2afdce7..3f8aef6 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -141,7 +141,8 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
                             << connections_.size();
           }
 
-          assert(n == 1);
+          // The server is being destroyed and will destroy the connection
+          if (n == 0) return;
 
           // !Must call QueueToLoop() here,
           // we can't destroy the channel_ in the handling events phase,
@@ -172,16 +173,27 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
 
 TcpServer::~TcpServer() KANON_NOEXCEPT
 {
-  //
-  for (auto &conn_pair : connections_) {
-    auto conn = conn_pair.second;
-    conn_pair.second.reset();
+  ConnectionMap connections;
+  {
+    // The IO loops maybe are closing connections
+    MutexGuard guard(lock_conn_);
+    connections.swap(connections_);
+  }
+
+  for (auto &conn_pair : connections) {
+    auto conn = std::move(conn_pair.second);
 
     auto io_loop = conn->GetLoop();
     io_loop->RunInLoop([conn]() {
       conn->ConnectionDestroyed();
+      // The connection maybe is handling events now
+      conn->GetLoop()->QueueToLoop([conn]() {
+      });
     });
   }
+
+  // Wait for the IO loops since the callbacks of the connections use this
+  pool_.reset();
 }
 
 void TcpServer::SetLoopNum(int num) KANON_NOEXCEPT { pool_->SetLoopNum(num); }
-- 
2.43.0


From 7ee2ade452d62324bff7d552e556ac96a0c27790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 061/131] fix: EventLoop dropped the tasks queued before Quit()
 if it was calling the others

---
 kanon/net/event_loop.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index e06e67a..18500cc 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -180,6 +180,9 @@ void EventLoop::StartLoop()
     CallFunctors();
   }
 
+  // The functors maybe are queued after the last call and before Quit()
+  CallFunctors();
+
   LOG_TRACE_KANON << "EventLoop " << this << " loop stop";
 
   looping_ = false;
-- 
2.43.0


From d2d8aa56447b96823cd5762ebaf501720a350e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 062/131] fix: Channel whose last interest was disabled still
 got the hang-up or error of the same wake-up

---
 kanon/linux/net/channel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/linux/net/channel.h b/kanon/linux/net/channel.h
index 5cc79fd..228921a 100644
--- a/kanon/linux/net/channel.h
+++ b/kanon/linux/net/channel.h
@@ -97,6 +97,7 @@ class Channel {
   {
     events_ &= ~Event::ReadEvent;
     revents_ &= ~Event::ReadEvent;
+    if (IsNoneEvent()) revents_ = Event::NoneEvent;
     Update();
   }
 
@@ -105,6 +106,7 @@ class Channel {
   {
     events_ &= ~Event::WriteEvent;
     revents_ &= ~Event::WriteEvent;
+    if (IsNoneEvent()) revents_ = Event::NoneEvent;
     Update();
   }
 
-- 
2.43.0


From a9a292749a0058df9da6c29d038bcb5b664519ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 063/131] fix: TcpServer's connection pool was freed with the
 server though the connections outlive it, and was used unsynchronised by IO
 threads

---
 kanon/net/tcp_server.cc | 66 +++++++++++++++++++++++++++++++++++------
 kanon/net/tcp_server.h  | 21 +++++++++++--
 2 files changed, 76 insertions(+), 11 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 3f8aef6..cdf2071 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -9,13 +9,57 @@
 #include "kanon/net/event_loop_pool.h"
 #include "kanon/net/acceptor.h"
 
-#include "kanon/mem/object_pool_allocator.h"
-
 #include <signal.h>
 #include <atomic>
 
 using namespace kanon;
 
+template <typename T>
+struct TcpServer::ConnPoolAllocator {
+  using value_type = T;
+
+  explicit ConnPoolAllocator(std::shared_ptr<ConnPool> const &pool)
+    : pool_(pool)
+  {
+  }
+
+  template <typename U>
+  ConnPoolAllocator(ConnPoolAllocator<U> const &rhs)
+    : pool_(rhs.pool_)
+  {
+  }
+
+  T *allocate(size_t n)
+  {
+    KANON_UNUSED(n);
+    assert(n == 1);
+    MutexGuard guard(pool_->lock);
+    auto p = pool_->pool.Malloc(sizeof(T));
+    if (!p) throw std::bad_alloc();
+    return static_cast<T *>(p);
+  }
+
+  void deallocate(T *p, size_t) KANON_NOEXCEPT
+  {
+    MutexGuard guard(pool_->lock);
+    pool_->pool.Free(p);
+  }
+
+  template <typename U>
+  bool operator==(ConnPoolAllocator<U> const &rhs) const KANON_NOEXCEPT
+  {
+    return pool_ == rhs.pool_;
+  }
+
+  template <typename U>
+  bool operator!=(ConnPoolAllocator<U> const &rhs) const KANON_NOEXCEPT
+  {
+    return pool_ != rhs.pool_;
+  }
+
+  std::shared_ptr<ConnPool> pool_;
+};
+
 static EventLoop *g_loop = nullptr;
 
 KANON_INLINE void SignalHandler(int signo, int expected,
@@ -68,7 +112,7 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
                                             static_cast<char const *>(name))}
   , start_once_{false}
   , enable_pool_{false}
-  , conn_pool_{10}
+  , conn_pool_{std::make_shared<ConnPool>(10)}
 {
   g_loop = loop_;
   ::signal(SIGINT, &SigIntHandler);
@@ -105,17 +149,19 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
       conn = TcpConnection::NewTcpConnection(io_loop, conn_name, cli_sock, local_addr, cli_addr);  
     }
 #else
-        LOG_TRACE_KANON << "Pool block num = " << conn_pool_.GetBlockNum();
-        LOG_TRACE_KANON << "Pool usage = "
-                        << conn_pool_.GetUsage(sizeof(TcpConnection));
-        LOG_TRACE_KANON << "The number of alive connections: "
-                        << connections_.size();
+        {
+          MutexGuard guard(conn_pool_->lock);
+          LOG_TRACE_KANON << "Pool block num = "
+                          << conn_pool_->pool.GetBlockNum();
+          LOG_TRACE_KANON << "Pool usage = "
+                          << conn_pool_->pool.GetUsage(sizeof(TcpConnection));
+        }
 
         auto conn =
             enable_pool_
                 ? TcpConnection::NewTcpConnection(
                       io_loop, conn_name, cli_sock, local_addr, cli_addr,
-                      ObjectPoolAllocator<void>(conn_pool_))
+                      ConnPoolAllocator<TcpConnection>(conn_pool_))
                 : TcpConnection::NewTcpConnection(io_loop, conn_name, cli_sock,
                                                   local_addr, cli_addr);
 #endif
@@ -123,6 +169,8 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
         {
           MutexGuard guard(lock_conn_);
           connections_[conn_name] = conn;
+          LOG_TRACE_KANON << "The number of alive connections: "
+                          << connections_.size();
         }
 
         conn->SetMessageCallback(message_callback_);
diff --git a/kanon/net/tcp_server.h b/kanon/net/tcp_server.h
index 08704b8..0777e87 100644
--- a/kanon/net/tcp_server.h
+++ b/kanon/net/tcp_server.h
@@ -123,7 +123,8 @@ class TcpServer : noncopyable {
 
   void SetChunkPerBlock(size_t n) KANON_NOEXCEPT
   {
-    conn_pool_.SetChunkPerBlock(n);
+    MutexGuard guard(conn_pool_->lock);
+    conn_pool_->pool.SetChunkPerBlock(n);
   }
 
   //!@}
@@ -226,11 +227,27 @@ class TcpServer : noncopyable {
    */
   /* ObjectPoolArray<TcpConnection* const> conn_pool_; */
 
+  struct ConnPool {
+    explicit ConnPool(size_t chunk_per_block)
+      : pool(chunk_per_block)
+    {
+    }
+
+    MutexLock lock;
+    FixedChunkMemoryPool pool;
+  };
+
+  template <typename T>
+  struct ConnPoolAllocator;
+
   /**
    * Fixed chunk memory pool.
    * The chunk size is sizeof(TcpConnection).
+   *
+   * The connections are freed by any thread, and maybe outlive the server
+   * (e.g. user holds them). Therefore, they also own the pool.
    */
-  FixedChunkMemoryPool conn_pool_;
+  std::shared_ptr<ConnPool> conn_pool_;
 };
 
 //!@}
-- 
2.43.0


From 5752e9339ff76d459a9796292108599e63b27197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 064/131] fix: TcpServer::ApplyAllPeers() called the callback
 with its lock held, closing a connection there deadlocked

---
 kanon/net/tcp_server.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index cdf2071..9d9f074 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -11,6 +11,7 @@
 
 #include <signal.h>
 #include <atomic>
+#include <vector>
 
 using namespace kanon;
 
@@ -281,8 +282,18 @@ bool TcpServer::IsRunning() KANON_NOEXCEPT { return acceptor_->Listening(); }
 
 void TcpServer::ApplyAllPeers(ConnApplyCb cb)
 {
-  MutexGuard gaurd(lock_conn_);
-  for (auto &name_conn : connections_) {
-    cb(name_conn.second);
+  // Don't call the callback with lock held since
+  // it maybe close the connection, i.e. erase the connection
+  std::vector<TcpConnectionPtr> conns;
+  {
+    MutexGuard gaurd(lock_conn_);
+    conns.reserve(connections_.size());
+    for (auto &name_conn : connections_) {
+      conns.push_back(name_conn.second);
+    }
+  }
+
+  for (auto &conn : conns) {
+    cb(conn);
   }
 }
-- 
2.43.0


From 7486bbf2c98fd18ae704f687c6bd21f6f97701ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 065/131] fix: edge-triggered connection never wrote the rest
 of a message whose first write was interrupted

---
 .../linux/net/connection/connection_base.inl  | 21 ++++++++++++-------
 kanon/net/connection/connection_base.h        |  1 +
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index a67f48d..47e40ea 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -34,6 +34,17 @@ void ConnectionBase<D>::HandleWrite()
   }
 }
 
+template <typename D>
+void ConnectionBase<D>::EnableWritingForRemaining()
+{
+  // In the ET mode, the channel maybe keeps writing after the write complete.
+  // Register it again, the edge maybe has been consumed, but the fd is writable
+  // if the write is interrupted.
+  if (!channel_->IsWriting() || loop_->IsEdgeTriggerMode()) {
+    channel_->EnableWriting();
+  }
+}
+
 template <typename D>
 void ConnectionBase<D>::SendInLoopForBuf(InputBuffer &buffer)
 {
@@ -75,7 +86,7 @@ void ConnectionBase<D>::SendInLoopForBuf(InputBuffer &buffer)
 #endif
 
       CheckHighWaterMark(0);
-      if (!channel_->IsWriting()) channel_->EnableWriting();
+      EnableWritingForRemaining();
     } else {
       if (write_complete_callback_) {
         loop_->QueueToLoop(
@@ -151,9 +162,7 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
 
     CheckHighWaterMark(readable_len);
 
-    if (!channel_->IsWriting()) {
-      channel_->EnableWriting();
-    }
+    EnableWritingForRemaining();
   }
 }
 
@@ -289,8 +298,6 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
 
     LOG_TRACE_KANON << "Remaining content length = " << remaining;
     output_buffer_.Append(static_cast<char const *>(data) + n, remaining);
-    if (!channel_->IsWriting()) {
-      channel_->EnableWriting();
-    }
+    EnableWritingForRemaining();
   }
 }
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index a24809b..7c75f3f 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -255,6 +255,7 @@ class ConnectionBase
    * \param old_len The length of output_buffer_ before sending
    */
   void CheckHighWaterMark(size_t old_len);
+  void EnableWritingForRemaining();
   void CallHighWaterMarkCallback(size_t len);
   void SendInLoop(void const *data, size_t len);
   void SendInLoop(StringView data);
-- 
2.43.0


From 9d30d9c280e0f74d5ff5cb69a8d32985117d57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:13 +0000
Subject: [PATCH 066/131] fix: TcpServer destroyed in the down callback of its
 connection was used by the close callback of it

---
 kanon/net/tcp_server.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 9d9f074..2b4df61 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -234,6 +234,8 @@ TcpServer::~TcpServer() KANON_NOEXCEPT
 
     auto io_loop = conn->GetLoop();
     io_loop->RunInLoop([conn]() {
+      // The server maybe is destroyed in the connection callback(down)
+      conn->SetCloseCallback({});
       conn->ConnectionDestroyed();
       // The connection maybe is handling events now
       conn->GetLoop()->QueueToLoop([conn]() {
-- 
2.43.0


From 9a715c862f4467c3ee9a789f0209630beee0feb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 067/131] fix: TcpClient::Connect() while waiting to retry left
 the retry timer, the client connected again after Disconnect()

---
 kanon/linux/net/connector.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/linux/net/connector.cc b/kanon/linux/net/connector.cc
index 33b3767..02fae77 100644
--- a/kanon/linux/net/connector.cc
+++ b/kanon/linux/net/connector.cc
@@ -12,6 +12,9 @@ void Connector::Connect()
   /* Avoid call StartRun when connection in connecting or connected */
   if (state_ != kDisconnected) return;
 
+  /* Connect now, the timer of waiting to retry is superfluous */
+  if (timer_) loop_->CancelTimer(*timer_);
+
   FdType sockfd = sock::CreateNonBlockAndCloExecSocket(!serv_addr_.IsIpv4());
   // Poll to check connection if is established
   // If connection is established, we call CompleteConnect() to register write
-- 
2.43.0


From 5059b98f99a6621b420b40302cf4063469afb59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 068/131] fix: connection shut down by other thread while it is
 established was reported down twice and never up

---
 kanon/net/connection/connection_base.cc | 29 +++++++++++++++++++++++++
 kanon/net/connection/connection_base.h  |  1 +
 2 files changed, 30 insertions(+)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 7e4df1a..878582c 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -422,6 +422,16 @@ void ConnectionBase<D>::HandleClose()
 template <typename D>
 void ConnectionBase<D>::ShutdownWrite() KANON_NOEXCEPT
 {
+  if (state_ != kConnected) return;
+
+  if (!loop_->IsLoopInThread()) {
+    // The loop maybe is calling the connection callback now, the state must not
+    // be changed before the callback checks it.
+    loop_->QueueToLoop(std::bind(&ConnectionBase<D>::ShutdownWriteFromOther,
+                                 this->shared_from_this()));
+    return;
+  }
+
   State state = kConnected;
   if (state_.compare_exchange_strong(state, kDisconnecting)) {
     // Queue it even though in the loop,
@@ -431,6 +441,16 @@ void ConnectionBase<D>::ShutdownWrite() KANON_NOEXCEPT
   }
 }
 
+template <typename D>
+void ConnectionBase<D>::ShutdownWriteFromOther()
+{
+  State state = kConnected;
+  if (state_.compare_exchange_strong(state, kDisconnecting)) {
+    // The messages sent early have been written since they are queued early
+    ShutdownWriteInLoop();
+  }
+}
+
 template <typename D>
 void ConnectionBase<D>::ShutdownWriteInLoop()
 {
@@ -449,6 +469,15 @@ void ConnectionBase<D>::ShutdownWriteInLoop()
 template <typename D>
 void ConnectionBase<D>::ForceClose() KANON_NOEXCEPT
 {
+  if (state_ != kConnected && state_ != kDisconnecting) return;
+
+  if (!loop_->IsLoopInThread()) {
+    // \see ShutdownWrite()
+    loop_->QueueToLoop(
+        std::bind(&ConnectionBase<D>::ForceClose, this->shared_from_this()));
+    return;
+  }
+
   // If connection is not established or
   // disconnected,
   // ForceClose() do nothing.
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index 7c75f3f..ed0464e 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -237,6 +237,7 @@ class ConnectionBase
   void HandleError();
   void HandleClose();
 
+  void ShutdownWriteFromOther();
   void ShutdownWriteInLoop();
 
   /**
-- 
2.43.0


From 0e3eb44db80bea1ae3866ca004703ed50eb1119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 069/131] fix: TcpClient destroyed with calls of its connection
 pending never closed the connection

---
 kanon/net/tcp_client.cc | 18 ++++++++++++++++++
 kanon/net/tcp_client.h  |  3 +++
 2 files changed, 21 insertions(+)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index 2aa882a..6a03e69 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -77,6 +77,24 @@ void TcpClient::ReleaseConnection(TcpConnectionPtr const &conn)
     // but the channel of it must not outlive it.
     conn->SetCloseCallback(
         std::bind(&TcpClient::CloseReleasedConnection, conn, _1));
+    if (conn->GetLoop()->IsLooping()) CheckReleasedConnection(conn, 3);
+  }
+}
+
+void TcpClient::CheckReleasedConnection(TcpConnectionPtr const &conn,
+                                        int rounds)
+{
+  if (conn->IsDisconnected()) return;
+
+  // The functors(e.g. Send() or write complete callback) of the loop also hold
+  // the connection until they are called, they are not the user of it.
+  //
+  // 2: The close callback and the functor
+  if (conn.use_count() == 2) {
+    conn->ForceClose();
+  } else if (rounds > 0) {
+    conn->GetLoop()->QueueToLoop(
+        std::bind(&TcpClient::CheckReleasedConnection, conn, rounds - 1));
   }
 }
 
diff --git a/kanon/net/tcp_client.h b/kanon/net/tcp_client.h
index 712e3e2..9b9875e 100644
--- a/kanon/net/tcp_client.h
+++ b/kanon/net/tcp_client.h
@@ -131,6 +131,9 @@ class TcpClient
   /* Close the connection if only the destroyed client used it */
   KANON_NET_NO_API static void ReleaseConnection(TcpConnectionPtr const &conn);
 
+  KANON_NET_NO_API static void
+  CheckReleasedConnection(TcpConnectionPtr const &conn, int rounds);
+
   KANON_NET_NO_API static void
   CloseReleasedConnection(TcpConnectionPtr const &owner,
                           TcpConnectionPtr const &conn);
-- 
2.43.0


From 27622b3d0d8df9027731beece2885334ec768fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 070/131] fix: FixedChunkMemoryPool::Shrink() crashed when
 every block was freed and left chunks of freed blocks in the free list

---
 kanon/mem/fixed_chunk_memory_pool.cc | 42 +++++++++++++++++-----------
 kanon/mem/fixed_chunk_memory_pool.h  |  2 ++
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index 17c6f83..79332f2 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -71,24 +71,22 @@ void FixedChunkMemoryPool::Free(void *ptr)
 void FixedChunkMemoryPool::Shrink(size_t sz)
 {
   sz = ALIGN_SIZE(sz);
-  /* Check the block whether it can be freed */
-  Block *tmp_next = nullptr;
 
-  /* First, Check the block header whether can free */
-  while (IsBlockFree(block_chain_, sz)) {
-    tmp_next = block_chain_->next;
-    free(block_chain_);
-    block_chain_ = tmp_next;
-    block_count_--;
-  }
-  
-  /* The first block is allocated, we can redirect the next don't care it */
-  for (auto block_iter = block_chain_; block_iter->next != nullptr; block_iter = block_iter->next) {
-    tmp_next = block_iter->next;
-    if (IsBlockFree(tmp_next, sz)) {
-      block_iter->next = tmp_next->next;
-      free(tmp_next);
+  /* The free chunks of the freed blocks must not be used again,
+   * link the ones of the remaining blocks */
+  free_chunk_header_ = nullptr;
+
+  Block **block_iter = &block_chain_;
+  while (*block_iter) {
+    Block *block = *block_iter;
+    /* Check the block whether it can be freed */
+    if (IsBlockFree(block, sz)) {
+      *block_iter = block->next;
+      free(block);
       block_count_--;
+    } else {
+      LinkFreeChunks(block, sz);
+      block_iter = &block->next;
     }
   }
 }
@@ -151,6 +149,18 @@ bool FixedChunkMemoryPool::IsBlockFree(Block *block, size_t sz)
 #endif
 }
 
+void FixedChunkMemoryPool::LinkFreeChunks(Block *block, size_t sz)
+{
+  auto chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(block) + sizeof(Block));
+  for (size_t i = 0; i < chunk_per_block_; ++i) {
+    if (chunk_iter->status == FREE) {
+      chunk_iter->next = free_chunk_header_;
+      free_chunk_header_ = chunk_iter;
+    }
+    chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(chunk_iter) + CHUNK_NEXT_OFFSET + sz);
+  }
+}
+
 size_t FixedChunkMemoryPool::GetFreeChunkNumInBlock(Block *block, size_t sz) const KANON_NOEXCEPT
 {
   assert(CHECK_ALIGNED(sz));
diff --git a/kanon/mem/fixed_chunk_memory_pool.h b/kanon/mem/fixed_chunk_memory_pool.h
index c389d66..3e95179 100644
--- a/kanon/mem/fixed_chunk_memory_pool.h
+++ b/kanon/mem/fixed_chunk_memory_pool.h
@@ -127,6 +127,8 @@ class FixedChunkMemoryPool {
    */
   KANON_CORE_NO_API bool IsBlockFree(Block *block, size_t sz);
 
+  KANON_CORE_NO_API void LinkFreeChunks(Block *block, size_t sz);
+
   KANON_CORE_NO_API size_t
   GetFreeChunkNumInBlock(Block *block, size_t sz) const KANON_NOEXCEPT;
 
-- 
2.43.0


From 415a48978694ae0a21a90b220f7b30fb9522d0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 071/131] fix: FixedChunkMemoryPool accessed memory out of its
 blocks when the number of chunks is 0, changed later or the block size
 overflows

---
 kanon/mem/fixed_chunk_memory_pool.cc | 27 +++++++++++++++++++--------
 kanon/mem/fixed_chunk_memory_pool.h  |  1 +
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index 79332f2..9761845 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -2,6 +2,7 @@
 
 #include <stdlib.h> // malloc(), free()
 #include <stddef.h> // offsetof(), size_t
+#include <stdint.h> // SIZE_MAX
 #include <assert.h> // assert()
 
 using namespace kanon;
@@ -10,7 +11,7 @@ using namespace kanon;
 // #define ROUNDUP8(x) (((((x) - 1) >> 3) + 1) << 3)
 
 #define CHUNK_NEXT_OFFSET (offsetof(Chunk, next))
-#define BLOCK_SPACE(sz) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * chunk_per_block_)
+#define BLOCK_SPACE(sz, num) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * (num))
 #define ALIGN_SIZE(sz) ((sz < chunk_next_space) ? chunk_next_space : sz)
 #define CHECK_ALIGNED(sz) (sz >= 8)
 
@@ -93,7 +94,11 @@ void FixedChunkMemoryPool::Shrink(size_t sz)
 
 size_t FixedChunkMemoryPool::GetUsage(size_t sz) const KANON_NOEXCEPT
 {
-  return BLOCK_SPACE(ALIGN_SIZE(sz)) * block_count_;
+  size_t ret = 0;
+  for (auto block = block_chain_; block != nullptr; block = block->next) {
+    ret += BLOCK_SPACE(ALIGN_SIZE(sz), block->chunk_num);
+  }
+  return ret;
 }
 
 size_t FixedChunkMemoryPool::GetFreeChunkNum(size_t sz) const KANON_NOEXCEPT
@@ -110,11 +115,17 @@ size_t FixedChunkMemoryPool::GetFreeChunkNum(size_t sz) const KANON_NOEXCEPT
 auto FixedChunkMemoryPool::AllocBlock(size_t sz) -> Chunk*
 {
   assert(CHECK_ALIGNED(sz));
-  auto header = reinterpret_cast<Block*>(malloc(BLOCK_SPACE(sz)));
+  const size_t chunk_num = chunk_per_block_ == 0 ? 1 : chunk_per_block_;
+  /* The space is too large to represent it */
+  if (sz > (SIZE_MAX - sizeof(Block)) / chunk_num - CHUNK_NEXT_OFFSET)
+    return nullptr;
+
+  auto header = reinterpret_cast<Block*>(malloc(BLOCK_SPACE(sz, chunk_num)));
   if (!header) return nullptr;
   
   /* Link the block */
   header->next = block_chain_;
+  header->chunk_num = chunk_num;
   block_chain_ = header;
 
   free_chunk_header_ = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(header)+sizeof(Block));
@@ -122,7 +133,7 @@ auto FixedChunkMemoryPool::AllocBlock(size_t sz) -> Chunk*
   
   /* Link the chunks */
   auto chunk_header = free_chunk_header_;
-  for (size_t i = 1; i < chunk_per_block_; ++i) {
+  for (size_t i = 1; i < chunk_num; ++i) {
     chunk_header->next = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(chunk_header) + CHUNK_NEXT_OFFSET + sz);
     chunk_header = chunk_header->next;
     chunk_header->status = FREE;
@@ -136,11 +147,11 @@ auto FixedChunkMemoryPool::AllocBlock(size_t sz) -> Chunk*
 bool FixedChunkMemoryPool::IsBlockFree(Block *block, size_t sz)
 {
 #if 0
-  return GetFreeChunkNumInBlock(block, sz) == chunk_per_block_;
+  return GetFreeChunkNumInBlock(block, sz) == block->chunk_num;
 #else
   assert(CHECK_ALIGNED(sz));
   auto chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(block) + sizeof(Block));
-  for (size_t i = 0; i < chunk_per_block_; ++i) {
+  for (size_t i = 0; i < block->chunk_num; ++i) {
     if (chunk_iter->status == ALLOCATED)
       return false;
     chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(chunk_iter) + CHUNK_NEXT_OFFSET + sz);
@@ -152,7 +163,7 @@ bool FixedChunkMemoryPool::IsBlockFree(Block *block, size_t sz)
 void FixedChunkMemoryPool::LinkFreeChunks(Block *block, size_t sz)
 {
   auto chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(block) + sizeof(Block));
-  for (size_t i = 0; i < chunk_per_block_; ++i) {
+  for (size_t i = 0; i < block->chunk_num; ++i) {
     if (chunk_iter->status == FREE) {
       chunk_iter->next = free_chunk_header_;
       free_chunk_header_ = chunk_iter;
@@ -166,7 +177,7 @@ size_t FixedChunkMemoryPool::GetFreeChunkNumInBlock(Block *block, size_t sz) con
   assert(CHECK_ALIGNED(sz));
   auto chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(block) + sizeof(Block));
   size_t ret = 0;
-  for (size_t i = 0; i < chunk_per_block_; ++i) {
+  for (size_t i = 0; i < block->chunk_num; ++i) {
     if (chunk_iter->status == FREE)
       ret++;
     chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(chunk_iter) + CHUNK_NEXT_OFFSET + sz);
diff --git a/kanon/mem/fixed_chunk_memory_pool.h b/kanon/mem/fixed_chunk_memory_pool.h
index 3e95179..62f5596 100644
--- a/kanon/mem/fixed_chunk_memory_pool.h
+++ b/kanon/mem/fixed_chunk_memory_pool.h
@@ -48,6 +48,7 @@ class FixedChunkMemoryPool {
 
   struct Block {
     Block *next;
+    size_t chunk_num; //!< chunk_per_block_ when the block is allocated
   };
 
   static KANON_CORE_NO_API constexpr size_t chunk_next_space =
-- 
2.43.0


From 8ee99f97a5ca554e7cc703272d0c55ada6d623f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 072/131] fix: FixedChunkMemoryPool returned misaligned chunks
 when the object size is not a multiple of the alignment

---
 kanon/mem/fixed_chunk_memory_pool.cc | 15 ++++++++++-----
 kanon/mem/fixed_chunk_memory_pool.h  |  7 ++++---
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index 9761845..382dea5 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -12,8 +12,10 @@ using namespace kanon;
 
 #define CHUNK_NEXT_OFFSET (offsetof(Chunk, next))
 #define BLOCK_SPACE(sz, num) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * (num))
-#define ALIGN_SIZE(sz) ((sz < chunk_next_space) ? chunk_next_space : sz)
-#define CHECK_ALIGNED(sz) (sz >= 8)
+#define ALIGN_SIZE(sz) \
+  ((sz) < chunk_next_space ? chunk_next_space \
+                           : ((sz) - 1) / alignof(max_align_t) * alignof(max_align_t) + alignof(max_align_t))
+#define CHECK_ALIGNED(sz) (sz >= chunk_next_space && sz % alignof(max_align_t) == 0)
 
 FixedChunkMemoryPool::FixedChunkMemoryPool(size_t chunk_per_block)
   : chunk_per_block_(chunk_per_block)
@@ -37,9 +39,12 @@ void *FixedChunkMemoryPool::Malloc(size_t sz)
 {
   if (sz == 0) return nullptr;
 
-  /* Align to the size of pointer at least
-   * since the space of `next` must greater than the object size */
-  sz = ALIGN_SIZE(sz);
+  /* Align it since every chunk must be suitable for any object and
+   * the space of `next` must not be greater than the object size */
+  const size_t aligned_sz = ALIGN_SIZE(sz);
+  /* Too large to align it */
+  if (aligned_sz < sz) return nullptr;
+  sz = aligned_sz;
 
   Chunk *header = free_chunk_header_;
   /* There are no block */
diff --git a/kanon/mem/fixed_chunk_memory_pool.h b/kanon/mem/fixed_chunk_memory_pool.h
index 62f5596..ef81bff 100644
--- a/kanon/mem/fixed_chunk_memory_pool.h
+++ b/kanon/mem/fixed_chunk_memory_pool.h
@@ -43,10 +43,10 @@ class FixedChunkMemoryPool {
 
   struct Chunk {
     ChunkStatus status;
-    Chunk *next;
+    alignas(max_align_t) Chunk *next;
   };
 
-  struct Block {
+  struct alignas(max_align_t) Block {
     Block *next;
     size_t chunk_num; //!< chunk_per_block_ when the block is allocated
   };
@@ -103,7 +103,8 @@ class FixedChunkMemoryPool {
    * \brief Get the memory usage of pool, i.e. allocated memory size
    *
    * \warning
-   *  If object size less than 8, it will be aligned to the multiplier of 8
+   *  The object size will be aligned to the multiplier of the maximum
+   *  alignment
    */
   KANON_CORE_API size_t GetUsage(size_t sz) const KANON_NOEXCEPT;
 
-- 
2.43.0


From 780f10b7087401836bcd05eca6c3568a0c3950e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 073/131] fix: LinearFixedMemoryPool::Reserve() moved the
 blocks handed out

---
 kanon/mem/linear_fixed_memory_pool.h | 55 +++++++++++++++++-----------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/kanon/mem/linear_fixed_memory_pool.h b/kanon/mem/linear_fixed_memory_pool.h
index f7c0f85..3591de8 100644
--- a/kanon/mem/linear_fixed_memory_pool.h
+++ b/kanon/mem/linear_fixed_memory_pool.h
@@ -2,11 +2,16 @@
 #define KANON_MEM_LINEAR_FIXED_MEMORY_POOL_H__
 
 #include <stdlib.h>
+#include <stdint.h>
 #include <assert.h>
 
+#include <new>
 #include <stdexcept>
 #include <unordered_set>
-// #include <vector>
+#include <utility>
+#include <vector>
+
+#include "kanon/util/macro.h"
 
 namespace kanon {
 
@@ -21,23 +26,21 @@ class LinearFixedMemoryPool {
   static constexpr size_t BLOCK_SIZE = PAYLOAD_SIZE;
  public:
   explicit LinearFixedMemoryPool(size_t size)
-    : pool_(static_cast<T*>(malloc(size * BLOCK_SIZE)))
-    , size_(size)
+    : size_(0)
   {
-    if (pool_ == nullptr) {
-      throw std::bad_alloc{};
-    }
-
-    for (size_t i = 0; i < size; ++i)
-      free_hset_.insert(i);
+    Reserve(size);
   }
-  
+
   ~LinearFixedMemoryPool() KANON_NOEXCEPT
   {
-    free(pool_);
+    for (auto const &segment : segments_)
+      free(segment.first);
     size_ = 0;
   }
 
+  LinearFixedMemoryPool(LinearFixedMemoryPool const &) = delete;
+  LinearFixedMemoryPool &operator=(LinearFixedMemoryPool const &) = delete;
+
   T *Malloc()
   {
     // for (auto start = pool_; size_t(start - pool_) < size_ * BLOCK_SIZE; start += BLOCK_SIZE) {
@@ -50,17 +53,25 @@ class LinearFixedMemoryPool {
     if (free_hset_.empty()) return (T*)malloc(BLOCK_SIZE);
     auto ret = *free_hset_.begin();
     free_hset_.erase(free_hset_.begin());
-    return pool_+ret;
+    return ret;
   }
   
   void Reserve(size_t sz)
   {
     if (size_ >= sz) return;
 
-    pool_ = static_cast<T*>(reallocarray(pool_, sz, BLOCK_SIZE));
+    // The blocks handed out are being used, don't move them
+    const size_t n = sz - size_;
+    if (n > SIZE_MAX / BLOCK_SIZE) throw std::bad_alloc{};
+
+    segments_.reserve(segments_.size() + 1);
+    free_hset_.reserve(sz);
+    auto segment = static_cast<T*>(malloc(n * BLOCK_SIZE));
+    if (segment == nullptr) throw std::bad_alloc{};
+    segments_.emplace_back(segment, n);
 
-    for (size_t i = size_; i < sz; ++i) {
-      free_hset_.insert(i);
+    for (size_t i = 0; i < n; ++i) {
+      free_hset_.insert(segment + i);
     }
     size_ = sz;
   }
@@ -69,18 +80,20 @@ class LinearFixedMemoryPool {
   {
     // assert(CHECK_BIT(*((char*)ptr-1), 0));
     // RESET_BIT(*((char*)ptr-1), 0);
-    if (ptr >= pool_ && ptr < pool_ + size_) {
-      free_hset_.insert(ptr-pool_);
-    } else {
-      free(ptr);
+    for (auto const &segment : segments_) {
+      if (ptr >= segment.first && ptr < segment.first + segment.second) {
+        free_hset_.insert(ptr);
+        return;
+      }
     }
+    free(ptr);
   }
   
   size_t size() const KANON_NOEXCEPT { return size_; }
   size_t freesize() const KANON_NOEXCEPT { return free_hset_.size(); }
  private:
-  T *pool_;
-  std::unordered_set<size_t> free_hset_;
+  std::vector<std::pair<T*, size_t>> segments_;
+  std::unordered_set<T*> free_hset_;
   size_t size_;
 };
 
-- 
2.43.0


From c74b747ddc3db623a72c6b9ce7ae7fe7e9f24b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 074/131] fix: ObjectPoolAllocator threw a string or returned
 nullptr instead of throwing std::bad_alloc

---
 kanon/mem/object_pool_allocator.h | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/kanon/mem/object_pool_allocator.h b/kanon/mem/object_pool_allocator.h
index c083abe..007e56d 100644
--- a/kanon/mem/object_pool_allocator.h
+++ b/kanon/mem/object_pool_allocator.h
@@ -1,6 +1,9 @@
 #ifndef KANON_OBJECT_POOL_ALLOCATOR_H__
 #define KANON_OBJECT_POOL_ALLOCATOR_H__
 
+#include <new>
+#include <utility>
+
 #include "fixed_chunk_memory_pool.h"
 
 #include "kanon/zstl/type_traits.h"
@@ -42,8 +45,11 @@ class ObjectPoolAllocator {
 
   T *allocate(size_type n)
   {
-    if (n > 1) throw "";
-    return reinterpret_cast<T*>(pool_->Malloc(sizeof(T)));
+    // The pool only has the chunk of one object
+    if (n > 1) throw std::bad_alloc();
+    auto ret = pool_->Malloc(sizeof(T));
+    if (ret == nullptr) throw std::bad_alloc();
+    return reinterpret_cast<T*>(ret);
   }
 
   void deallocate(pointer p, size_type n) KANON_NOEXCEPT {
@@ -72,18 +78,21 @@ class ObjectPoolAllocator {
     p->~U();
   }
  
-  template <typename U>
-  friend bool operator==(ObjectPoolAllocator const &l, ObjectPoolAllocator<U> const &r) KANON_NOEXCEPT
-  { return l.pool_ == r.pool_; }
-  
-  template <typename U>
-  friend bool operator!=(ObjectPoolAllocator const &l, ObjectPoolAllocator<U> const &r) KANON_NOEXCEPT
-  { return !(l == r); }
+  template <typename U, typename V>
+  friend bool operator==(ObjectPoolAllocator<U> const &l, ObjectPoolAllocator<V> const &r) KANON_NOEXCEPT;
 
  private:
   FixedChunkMemoryPool *pool_;
 };
 
+template <typename U, typename V>
+bool operator==(ObjectPoolAllocator<U> const &l, ObjectPoolAllocator<V> const &r) KANON_NOEXCEPT
+{ return l.pool_ == r.pool_; }
+
+template <typename U, typename V>
+bool operator!=(ObjectPoolAllocator<U> const &l, ObjectPoolAllocator<V> const &r) KANON_NOEXCEPT
+{ return !(l == r); }
+
 template<>
 class ObjectPoolAllocator<void> {
   template <typename U>
-- 
2.43.0


From ff509540777ec30dd317e83b55747fe6bfec6067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 075/131] fix: a stream left out values that fit into its
 buffer, wrote pointers beyond its end, and dropped strings from the middle of
 the text

---
 kanon/string/fixed_buffer.h | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/kanon/string/fixed_buffer.h b/kanon/string/fixed_buffer.h
index 105a06f..7e525a6 100644
--- a/kanon/string/fixed_buffer.h
+++ b/kanon/string/fixed_buffer.h
@@ -71,13 +71,15 @@ class FixedBuffer {
   }
 
   // append
+  // What does not fit is cut off
   void Append(char const *str, unsigned len) KANON_NOEXCEPT
   {
-    if (len < avali()) {
-      memcpy(cur(), str, len);
-      len_ += len;
-      *cur() = 0;
-    }
+    if (len >= avali()) len = avali() - 1;
+    if (len == 0) return;
+
+    memcpy(cur(), str, len);
+    len_ += len;
+    *cur() = 0;
   }
 
   void Append(StringView str) KANON_NOEXCEPT
@@ -91,6 +93,9 @@ class FixedBuffer {
     if (avali() > kMaxIntSize) {
       AdvanceRead(detail::int2Str(cur(), i));
       *cur() = 0;
+    } else {
+      char buf[kMaxIntSize];
+      Append(buf, detail::int2Str(buf, i));
     }
   }
 
@@ -113,22 +118,23 @@ class FixedBuffer {
     if (avali() > kMaxFloatingSize) {
       AdvanceRead(::snprintf(cur(), kMaxFloatingSize, "%.12g", d));
       *cur() = 0;
+    } else {
+      char buf[kMaxFloatingSize];
+      Append(buf, (unsigned)::snprintf(buf, sizeof buf, "%.12g", d));
     }
   }
 
   void appendPtr(void const *p) KANON_NOEXCEPT
   {
-    auto up = reinterpret_cast<uintptr_t>(p);
-    auto cur = this->cur();
-
-    if (!p && avali() > 6) {
+    if (!p) {
       Append("(null)", 6);
-    } else if (avali() > 10) {
-      cur[0] = '0';
-      cur[1] = 'x';
+    } else {
+      char buf[kMaxPtrSize];
+      buf[0] = '0';
+      buf[1] = 'x';
 
-      AdvanceRead(detail::ptrToHexStr(cur + 2, up) + 2);
-      *this->cur() = 0;
+      Append(buf, detail::ptrToHexStr(buf + 2, reinterpret_cast<uintptr_t>(p)) +
+                      2);
     }
   }
 
@@ -164,6 +170,7 @@ class FixedBuffer {
  private:
   static constexpr unsigned kMaxIntSize = 32;
   static constexpr unsigned kMaxFloatingSize = 324;
+  static constexpr unsigned kMaxPtrSize = 32;
 
   char data_[SZ];
   unsigned len_;
-- 
2.43.0


From 237b4edc18cc2bd10c2bf2d2b41ba37cd293049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 076/131] fix: the record of a long message lost its source
 position and newline

---
 kanon/log/logger.cc         | 9 +++++++++
 kanon/string/fixed_buffer.h | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index 89b7b74..488443d 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -156,6 +156,15 @@ Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
 
 Logger::~Logger() KANON_NOEXCEPT
 {
+  // A message that is too long is cut, the source position and the newline
+  // are always in the record
+  char line_buf[32];
+  const auto line_len = detail::int2Str(line_buf, line_);
+  const auto tail_len = 3 + (unsigned)basename_.size() + 1 + line_len + 1;
+  const auto max_len = stream_.maxsize() - 1;
+
+  if (tail_len < max_len) stream_.buffer().Truncate(max_len - tail_len);
+
   stream_ << " - " << basename_ << ":" << line_ << "\n";
   output_callback_(stream_.data(), stream_.size());
 
diff --git a/kanon/string/fixed_buffer.h b/kanon/string/fixed_buffer.h
index 7e525a6..3897120 100644
--- a/kanon/string/fixed_buffer.h
+++ b/kanon/string/fixed_buffer.h
@@ -150,6 +150,15 @@ class FixedBuffer {
     len_ = 0;
   }
 
+  // Keep the first len bytes only
+  void Truncate(unsigned len) KANON_NOEXCEPT
+  {
+    if (len < len_) {
+      len_ = len;
+      *cur() = 0;
+    }
+  }
+
   void AdvanceRead(unsigned diff) KANON_NOEXCEPT
   {
     len_ += diff;
-- 
2.43.0


From 406b90babdf36b720b0e4c40f27f9632575adcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 077/131] fix: the system error log statements printed garbage
 without an error number and no text for a number the buffer was not needed
 for

---
 kanon/log/logger.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index 488443d..d249b18 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -86,16 +86,31 @@ Logger::FlushCallback Logger::flush_callback_ = &DefaultFlush;
 KANON_TLS char t_errorBuf[ERRNO_BUFFER_SIZE];
 KANON_TLS char t_lastErrorBuf[ERRNO_BUFFER_SIZE];
 
+#ifdef KANON_ON_UNIX
+static KANON_INLINE char const *StrErrorResult(char const *ret) KANON_NOEXCEPT
+{
+  return ret;
+}
+
+static KANON_INLINE char const *StrErrorResult(int ret) KANON_NOEXCEPT
+{
+  return ret == 0 ? t_errorBuf : "Unknown error";
+}
+#endif
+
 // tl = thread local
 char const *strerror_tl(int savedErrno)
 {
 #ifdef KANON_ON_UNIX
-  auto ret = ::strerror_r(savedErrno, t_errorBuf, ERRNO_BUFFER_SIZE);
+  // The GNU version may return another string and leave the buffer alone,
+  // the XSI one returns an error number
+  return StrErrorResult(
+      ::strerror_r(savedErrno, t_errorBuf, ERRNO_BUFFER_SIZE));
 #else
   auto ret = ::strerror_s(t_errorBuf, ERRNO_BUFFER_SIZE, savedErrno);
-#endif
   KANON_UNUSED(ret);
   return t_errorBuf;
+#endif
 }
 
 #ifdef KANON_ON_WIN
@@ -137,6 +152,7 @@ Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
   // dummy parameter
   KANON_UNUSED(is_sys);
   char error_buf[4096];
+  error_buf[0] = 0;
 #ifdef KANON_ON_UNIX
   auto savedErrno = errno;
   if (savedErrno) {
-- 
2.43.0


From 0266fb9d58b94245bed822f9cd0b0dff6318c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 078/131] fix: a system error log statement could report an
 error number of the logger's own time zone lookup

---
 kanon/log/logger.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index d249b18..78610ae 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -128,6 +128,9 @@ Logger::Logger(SourceFile file, size_t line, LogLevel level)
   , cur_log_level_(level)
   , line_(line)
 {
+  // The system error variants report the error number of the caller
+  const int saved_errno = errno;
+
   FormatTime();
   CurrentThread::tid();
   stream_ << StringView(CurrentThread::t_tidString,
@@ -144,6 +147,8 @@ Logger::Logger(SourceFile file, size_t line, LogLevel level)
   } else {
     stream_ << "[" << s_log_level_names_[level] << "] ";
   }
+
+  errno = saved_errno;
 }
 
 Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
-- 
2.43.0


From 63a13fa486fe526541615683146f9d8659dd6037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 079/131] fix: the thread removing old log files raced with the
 writer, missed files and its stop, and spun with a limit of one file

---
 kanon/log/log_file.cc | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/kanon/log/log_file.cc b/kanon/log/log_file.cc
index e0507b3..993c463 100644
--- a/kanon/log/log_file.cc
+++ b/kanon/log/log_file.cc
@@ -26,19 +26,24 @@ LogFile<T>::LogFile(StringView basename, size_t roll_size, StringView prefix,
 
   if (log_file_num_ != UINT_MAX) {
     remove_thr_.StartRun([this]() {
-      while (!quit_remove_thr_) {
+      std::vector<std::string> old_files;
+
+      for (;;) {
         {
           MutexGuard guard(remove_mtx_);
-          // There is one consumer only, don't use while is also ok
-          if (log_files_dup_.size() < log_file_num_ - 1) {
+          while (log_files_dup_.empty() && !quit_remove_thr_) {
             remove_cond_.Wait();
           }
+
+          // Quit only after every old file is removed
+          if (log_files_dup_.empty()) break;
+          old_files.swap(log_files_dup_);
         }
 
-        for (auto log_file : log_files_dup_) {
+        for (auto const &log_file : old_files) {
           ::remove(log_file.c_str());
         }
-        log_files_dup_.clear();
+        old_files.clear();
       }
     });
   }
@@ -48,8 +53,11 @@ template <bool T>
 KANON_INLINE LogFile<T>::~LogFile() KANON_NOEXCEPT
 {
   if (log_file_num_ != UINT_MAX) {
-    quit_remove_thr_ = true;
-    remove_cond_.Notify();
+    {
+      MutexGuard guard(remove_mtx_);
+      quit_remove_thr_ = true;
+      remove_cond_.Notify();
+    }
 
     remove_thr_.Join();
   }
@@ -83,14 +91,13 @@ void LogFile<T>::Append(char const *data, size_t num) KANON_NOEXCEPT
     }
   }
 
-  if (log_files_.size() >= log_file_num_) {
-    auto last_file = std::move(log_files_.back());
-    log_files_.pop_back();
-
-    log_files_dup_.swap(log_files_);
-    log_files_.emplace_back(std::move(last_file));
+  // The current file is always kept
+  if (log_files_.size() >= log_file_num_ && log_files_.size() > 1) {
+    MutexGuard remove_guard(remove_mtx_);
 
-    KANON_MUTEX_GUARD(remove_mtx_);
+    log_files_dup_.insert(log_files_dup_.end(), log_files_.begin(),
+                          log_files_.end() - 1);
+    log_files_.erase(log_files_.begin(), log_files_.end() - 1);
     remove_cond_.Notify();
   }
 }
-- 
2.43.0


From 547cd779a63e0ba1853a65a5bab7e3a7840693b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 080/131] fix: log files rolled by different threads mixed up
 their names in shared buffers

---
 kanon/log/log_file.cc         |  9 +++++----
 kanon/process/process_info.cc | 28 +++++++++++-----------------
 2 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/kanon/log/log_file.cc b/kanon/log/log_file.cc
index 993c463..feecaec 100644
--- a/kanon/log/log_file.cc
+++ b/kanon/log/log_file.cc
@@ -146,13 +146,14 @@ std::string LogFile<T>::GetLogFilename(time_t &now)
   char timebuf[32];
   ::tzset();
 
-  // FIXME Don't call localtime_r() here?
-#if 0
+  // localtime() returns an object shared by all threads
   struct tm tm;
+#ifdef KANON_ON_UNIX
   ::localtime_r(&now, &tm);
+#else
+  ::localtime_s(&tm, &now);
 #endif
-  auto tm = localtime(&now);
-  ::strftime(timebuf, sizeof timebuf, ".%Y%m%d-%H%M%S.", tm);
+  ::strftime(timebuf, sizeof timebuf, ".%Y%m%d-%H%M%S.", &tm);
 
   filename += timebuf;
   filename += process::PidString().data();
diff --git a/kanon/process/process_info.cc b/kanon/process/process_info.cc
index 2934217..0693e5c 100644
--- a/kanon/process/process_info.cc
+++ b/kanon/process/process_info.cc
@@ -5,15 +5,12 @@ using namespace kanon;
 StringView 
 process::PidString() KANON_NOEXCEPT {
 
-  static char pid_cache[32];
-  static bool has_cache = false;
-  
-  if (!has_cache) {
-    
-    if (::snprintf(pid_cache, sizeof pid_cache, 
-          "%d", Pid()) < 0) {
-      ::fprintf(stderr, "cache pid failed: %s\n", ::strerror(errno));
-    } 
+  // One buffer for each thread, since it is filled by every call
+  static KANON_TLS char pid_cache[32];
+
+  if (::snprintf(pid_cache, sizeof pid_cache, 
+        "%d", Pid()) < 0) {
+    ::fprintf(stderr, "cache pid failed: %s\n", ::strerror(errno));
   } 
 
   return pid_cache;
@@ -23,14 +20,11 @@ StringView
 process::Hostname() KANON_NOEXCEPT {
   // hostname is limited to HOST_NAME_MAX in posix,
   // it is 64 in linux.
-  static char hostname_cache[64];
-  static bool has_cache = false;
-  
-  if (!has_cache) {
-    
-    if (::gethostname(hostname_cache, sizeof hostname_cache) < 0) {
-      ::fprintf(stderr, "cache pid failed: %s\n", ::strerror(errno));
-    } 
+  // The length does not include the terminator.
+  static KANON_TLS char hostname_cache[64 + 1];
+
+  if (::gethostname(hostname_cache, sizeof hostname_cache) < 0) {
+    ::fprintf(stderr, "cache pid failed: %s\n", ::strerror(errno));
   } 
 
   return hostname_cache;
-- 
2.43.0


From 1bb39485a5d530c29c63cb1bd29a523d1d396de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 081/131] fix: a log directory was created without write
 permission, and nested ones aborted

---
 kanon/log/append_file.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kanon/log/append_file.cc b/kanon/log/append_file.cc
index 81300ee..067b181 100644
--- a/kanon/log/append_file.cc
+++ b/kanon/log/append_file.cc
@@ -23,13 +23,18 @@ AppendFile::AppendFile(StringArg filename)
       ::abort();
     }
 
-    auto filename_view = StringView(filename.data());
-    const std::string dir =
-        filename_view.substr(0, filename_view.rfind('/')).ToString();
+    const std::string path(filename.data());
+    const std::string dir = path.substr(0, path.rfind('/'));
     auto ret = 0;
 
 #ifdef KANON_ON_UNIX
-    ret = ::mkdir(dir.data(), S_IRUSR);
+    // Also create the missing parents, another one may create them meanwhile
+    for (size_t pos = path.find('/', 1); pos != std::string::npos;
+         pos = path.find('/', pos + 1))
+    {
+      ret = ::mkdir(path.substr(0, pos).c_str(), 0755);
+      if (ret != 0 && errno == EEXIST) ret = 0;
+    }
 #elif defined(KANON_ON_WIN)
     ret = ::_mkdir(dir.data());
 #else
-- 
2.43.0


From fc0eaf11e06cf357297dd327a4ce9ca1b2acb723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 082/131] fix: the thread of an asynchronous log switched the
 colour off while other threads were logging

---
 kanon/log/logger.cc |  6 +++---
 kanon/log/logger.h  | 14 +++++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index 78610ae..cc8e9cc 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -23,7 +23,7 @@ static KANON_TLS char t_timebuf[64] = {0};
 bool g_kanon_log = true;
 bool g_all_log = true;
 
-bool Logger::need_color_ = true;
+std::atomic<bool> Logger::need_color_{true};
 
 char const
     *Logger::s_log_level_names_[Logger::LogLevel::KANON_LL_NUM_LOG_LEVEL] = {
@@ -68,7 +68,7 @@ static Logger::LogLevel initLogLevel() KANON_NOEXCEPT
   return Logger::LogLevel::KANON_LL_INFO;
 }
 
-Logger::LogLevel Logger::log_level_ = initLogLevel();
+std::atomic<Logger::LogLevel> Logger::log_level_{initLogLevel()};
 
 void DefaultOutput(char const *data, size_t num)
 {
@@ -141,7 +141,7 @@ Logger::Logger(SourceFile file, size_t line, LogLevel level)
   else
     stream_ << "Unnamed ";
 
-  if (need_color_) {
+  if (need_color_.load(std::memory_order_relaxed)) {
     stream_ << g_logLevelColor[level] << "[" << s_log_level_names_[level] << "]"
             << NONE << " ";
   } else {
diff --git a/kanon/log/logger.h b/kanon/log/logger.h
index 9d9f316..b6385ab 100644
--- a/kanon/log/logger.h
+++ b/kanon/log/logger.h
@@ -1,6 +1,7 @@
 #ifndef KANON_LOGGER_H
 #define KANON_LOGGER_H
 
+#include <atomic>
 #include <functional>
 
 #include "kanon/string/fmt_stream.h"
@@ -128,14 +129,17 @@ class Logger : noncopyable {
 
   KANON_INLINE LogStream &stream() KANON_NOEXCEPT { return stream_; }
 
-  KANON_INLINE static void SetColor(bool c) KANON_NOEXCEPT { need_color_ = c; }
+  KANON_INLINE static void SetColor(bool c) KANON_NOEXCEPT
+  {
+    need_color_.store(c, std::memory_order_relaxed);
+  }
   KANON_INLINE static LogLevel GetLogLevel() KANON_NOEXCEPT
   {
-    return log_level_;
+    return log_level_.load(std::memory_order_relaxed);
   }
   KANON_INLINE static void SetLogLevel(LogLevel level) KANON_NOEXCEPT
   {
-    log_level_ = level;
+    log_level_.store(level, std::memory_order_relaxed);
   }
   KANON_INLINE static OutputCallback GetOutputCallback() KANON_NOEXCEPT
   {
@@ -169,8 +173,8 @@ class Logger : noncopyable {
    * Current Log Level, initial value is INFO
    * You can define environment variable to specify WARN or TRACE
    */
-  KANON_CORE_API static LogLevel log_level_;
-  KANON_CORE_API static bool need_color_;
+  KANON_CORE_API static std::atomic<LogLevel> log_level_;
+  KANON_CORE_API static std::atomic<bool> need_color_;
   KANON_CORE_API static OutputCallback output_callback_;
   KANON_CORE_API static FlushCallback flush_callback_;
 };
-- 
2.43.0


From 23a82d4bddcd90d43de51cfe117c88e7bd54464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 083/131] fix: stopping an asynchronous log lost the last
 records, and could take as long as the flush interval

---
 kanon/log/async_log.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/kanon/log/async_log.cc b/kanon/log/async_log.cc
index 89e1e0f..b801c52 100644
--- a/kanon/log/async_log.cc
+++ b/kanon/log/async_log.cc
@@ -65,7 +65,7 @@ void AsyncLog::StartRun()
                      roll_interval_, flush_interval_);
 
     // back thread do long loop
-    while (running_) {
+    for (bool stopped = false; !stopped;) {
       assert(buffer1 && buffer1->len() == 0);
       assert(buffer2 && buffer2->len() == 0);
       assert(buffers_dup_.empty());
@@ -80,7 +80,7 @@ void AsyncLog::StartRun()
         // \note
         //   This is not a classic use,
         //   but there is one cosumer, use if here is safe
-        if (buffers_.empty()) {
+        if (buffers_.empty() && running_) {
           // If front thread log message is so short,
           // we also awake and write
           // To ensure real time message
@@ -88,6 +88,9 @@ void AsyncLog::StartRun()
           // not_empty_.Wait();
         }
 
+        // What was appended before Stop() is written by this last round
+        stopped = !running_;
+
         // Although current_buffer_ have space to fill
         // we also push it to buffers_
         buffers_.emplace_back(std::move(current_buffer_));
@@ -152,8 +155,12 @@ void AsyncLog::Stop() KANON_NOEXCEPT
 {
   assert(running_);
 
-  running_ = false;
-  not_empty_.Notify();
+  {
+    // Otherwise, the back thread may miss it and sleep flush_interval_ seconds
+    MutexGuard guard{mutex_};
+    running_ = false;
+    not_empty_.Notify();
+  }
   back_thr_.Join();
 }
 
-- 
2.43.0


From 93517667f3cda0af062c1df13a73acb8ba162844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 084/131] fix: an asynchronous log dropped records as large as
 its buffer

---
 kanon/log/async_log.cc | 38 +++++++++++++++++++++-----------------
 kanon/log/async_log.h  | 19 ++++++++++++++++++-
 2 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/kanon/log/async_log.cc b/kanon/log/async_log.cc
index b801c52..e29e8e2 100644
--- a/kanon/log/async_log.cc
+++ b/kanon/log/async_log.cc
@@ -117,26 +117,24 @@ void AsyncLog::StartRun()
                            buffers_dup_.end());
       }
 
-      for (auto &buffer : buffers_dup_) {
-        output.Append(buffer->data(), buffer->len());
+      for (auto &block : buffers_dup_) {
+        if (block.buffer) {
+          output.Append(block.buffer->data(), block.buffer->len());
+        } else {
+          output.Append(block.record.data(), block.record.size());
+        }
       }
 
-      // only leave the two warmed buffer
-      // and move to buffer1 and buffer2
-      if (buffers_dup_.size() > 2) buffers_dup_.resize(2);
-
-      if (!buffer1) {
-        buffer1 = std::move(buffers_dup_.back());
-        // reuse buffer
-        buffer1->reset();
-        buffers_dup_.pop_back();
+      // reuse two of the warmed buffers as buffer1 and buffer2
+      for (auto &block : buffers_dup_) {
+        auto &buffer = buffer1 ? buffer2 : buffer1;
+        if (buffer) break;
+        buffer = std::move(block.buffer);
+        if (buffer) buffer->reset();
       }
 
-      if (!buffer2) {
-        buffer2 = std::move(buffers_dup_.back());
-        buffer2->reset();
-        buffers_dup_.pop_back();
-      }
+      if (!buffer1) buffer1 = kanon::make_unique<Buffer>();
+      if (!buffer2) buffer2 = kanon::make_unique<Buffer>();
 
       buffers_dup_.clear();
 
@@ -182,7 +180,13 @@ void AsyncLog::Append(char const *data, size_t len) KANON_NOEXCEPT
 
     current_buffer_ = std::move(next_buffer_);
     assert(!next_buffer_);
-    current_buffer_->Append(data, (unsigned)len);
+
+    if (len < current_buffer_->avali()) {
+      current_buffer_->Append(data, (unsigned)len);
+    } else {
+      // Not even an empty buffer has room for it
+      buffers_.emplace_back(data, len);
+    }
     not_empty_.Notify();
   }
 }
diff --git a/kanon/log/async_log.h b/kanon/log/async_log.h
index fc4101c..1c2d0fe 100644
--- a/kanon/log/async_log.h
+++ b/kanon/log/async_log.h
@@ -54,7 +54,24 @@ class KANON_CORE_API AsyncLog : noncopyable {
 
   // Don't expose the FixedBuffer
   typedef std::unique_ptr<Buffer> BufferUPtr;
-  typedef std::vector<BufferUPtr> Buffers;
+
+  // A filled buffer, or a record that is larger than a buffer
+  struct Block {
+    explicit Block(BufferUPtr buf)
+      : buffer(std::move(buf))
+    {
+    }
+
+    Block(char const *data, size_t len)
+      : record(data, len)
+    {
+    }
+
+    BufferUPtr buffer;
+    std::string record;
+  };
+
+  typedef std::vector<Block> Buffers;
 
   // Forward parameter to LogFile
   std::string basename_;
-- 
2.43.0


From a4a93b5fa2801e304168783c55c2a4a640189501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 085/131] fix: flushing an asynchronous log did nothing, so
 that the record of a fatal statement never reached the file

---
 kanon/log/async_log.cc | 32 ++++++++++++++++++++++++++++++--
 kanon/log/async_log.h  |  8 ++++++++
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/kanon/log/async_log.cc b/kanon/log/async_log.cc
index e29e8e2..59a13b9 100644
--- a/kanon/log/async_log.cc
+++ b/kanon/log/async_log.cc
@@ -22,6 +22,10 @@ AsyncLog::AsyncLog(StringView basename, size_t roll_size, StringView prefix,
   , next_buffer_{kanon::make_unique<Buffer>()}
   , mutex_{}
   , not_empty_{mutex_}
+  , flush_requested_{0}
+  , flush_done_{0}
+  , flushed_{mutex_}
+  , pid_{0}
   , back_thr_{"AsyncLog"}
   , latch_{1}
 {
@@ -45,6 +49,7 @@ void AsyncLog::StartRun()
   assert(!running_);
 
   running_ = true;
+  pid_ = process::Pid();
 
   buffers_dup_.reserve(16);
 
@@ -66,6 +71,8 @@ void AsyncLog::StartRun()
 
     // back thread do long loop
     for (bool stopped = false; !stopped;) {
+      uint64_t flush_request;
+
       assert(buffer1 && buffer1->len() == 0);
       assert(buffer2 && buffer2->len() == 0);
       assert(buffers_dup_.empty());
@@ -80,7 +87,7 @@ void AsyncLog::StartRun()
         // \note
         //   This is not a classic use,
         //   but there is one cosumer, use if here is safe
-        if (buffers_.empty() && running_) {
+        if (buffers_.empty() && running_ && flush_requested_ == flush_done_) {
           // If front thread log message is so short,
           // we also awake and write
           // To ensure real time message
@@ -90,6 +97,7 @@ void AsyncLog::StartRun()
 
         // What was appended before Stop() is written by this last round
         stopped = !running_;
+        flush_request = flush_requested_;
 
         // Although current_buffer_ have space to fill
         // we also push it to buffers_
@@ -139,6 +147,14 @@ void AsyncLog::StartRun()
       buffers_dup_.clear();
 
       output.Flush();
+
+      {
+        MutexGuard guard{mutex_};
+        if (flush_done_ != flush_request) {
+          flush_done_ = flush_request;
+          flushed_.NotifyAll();
+        }
+      }
     }
 
     // Flush output buffer(the last)
@@ -193,5 +209,17 @@ void AsyncLog::Append(char const *data, size_t len) KANON_NOEXCEPT
 
 void AsyncLog::Flush() KANON_NOEXCEPT
 {
-  // The flush operation is called in back thread
+  // The flush operation is called in back thread,
+  // wait until it has written the messages appended before
+  MutexGuard guard{mutex_};
+
+  // There is no back thread in a forked child
+  if (!running_ || pid_ != process::Pid()) return;
+
+  const auto request = ++flush_requested_;
+  not_empty_.Notify();
+
+  while (flush_done_ < request) {
+    flushed_.Wait();
+  }
 }
diff --git a/kanon/log/async_log.h b/kanon/log/async_log.h
index 1c2d0fe..ad3c63b 100644
--- a/kanon/log/async_log.h
+++ b/kanon/log/async_log.h
@@ -14,6 +14,8 @@
 #include "kanon/string/string_view.h"
 #include "kanon/string/stream_common.h"
 
+#include "kanon/process/process_info.h"
+
 #include "kanon/thread/thread.h"
 #include "kanon/thread/condition.h"
 #include "kanon/thread/mutex_lock.h"
@@ -98,6 +100,12 @@ class KANON_CORE_API AsyncLog : noncopyable {
   // If buffers_ is empty, back thread sleeping
   Condition not_empty_;
 
+  // Flush() waits until the back thread has served its request
+  uint64_t flush_requested_;
+  uint64_t flush_done_;
+  Condition flushed_;
+  process::PId pid_; // the process which has the back thread
+
   // back thread log buffer to disk
   Thread back_thr_;
 
-- 
2.43.0


From b2f611566dd7fe7a55e42b4707706006650c18ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 086/131] fix: find of a view must not stop at NUL or assert on
 a position past the end

---
 kanon/string/string_view.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 05b0b79..f7711c5 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -231,13 +231,10 @@ class StringView {
     // Intead of kmp or other efficient algorithm?
     // It is maybe bring some overhead.
 
-    // Ensure the len_ - pos not be a negative number
-    KANON_ASSERT(pos <= len_, "The position argument should be [0, len)");
-
     if (v.size() <= len_) {
       size_type n = len_ - v.size() + 1;
       for (size_type i = pos; i < n; ++i) {
-        if (!::strncmp(data_ + i, v.data(), v.size())) {
+        if (!::memcmp(data_ + i, v.data(), v.size())) {
           return i;
         }
       }
-- 
2.43.0


From 73e75d9bbe8453755b376252d7e5a5c61c375d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 087/131] fix: rfind on an empty view reads outside it, and an
 empty pattern is found at the end

---
 kanon/string/string_view.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index f7711c5..a6d3a32 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -260,14 +260,12 @@ class StringView {
    */
   size_type rfind(StringView v, size_type pos = npos) const KANON_NOEXCEPT
   {
-    if (!v.empty()) {
-      auto len = std::min(len_ - 1, pos);
+    if (v.size() <= len_) {
+      auto len = std::min(len_ - v.size(), pos);
 
       // Avoid --len == size_type(-1)
       for (;; --len) {
-        if (data_[len] == v.front() && len_ - len >= v.size() &&
-            memcmp(data_ + len, v.data(), v.size()) == 0)
-          return len;
+        if (memcmp(data_ + len, v.data(), v.size()) == 0) return len;
 
         if (len == 0) break;
       }
@@ -278,6 +276,7 @@ class StringView {
 
   size_type rfind(char c, size_type pos = npos) const KANON_NOEXCEPT
   {
+    if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto len = std::min(len_ - 1, pos);
     for (;; --len) {
       if (data_[len] == c) {
-- 
2.43.0


From 6f25e97d77634e9d836f9e2ebc3c097158e33752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 088/131] fix: find_last_of/find_last_not_of hang, miss the
 first character or give a wrong index

---
 kanon/string/string_view.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index a6d3a32..fcd5c62 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -355,7 +355,7 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0;) {
+    for (;; --i) {
       if (charInRange(data_[i], v)) return i;
       if (i == 0) break;
     }
@@ -368,8 +368,8 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
-      if (data_[i] == c) return pos;
+    for (;; --i) {
+      if (data_[i] == c) return i;
       if (i == 0) break;
     }
 
@@ -399,7 +399,7 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
+    for (;; --i) {
       if (!charInRange(data_[i], v)) return i;
       if (i == 0) break;
     }
@@ -412,8 +412,8 @@ class StringView {
     if (KANON_UNLIKELY((len_ == 0))) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
-      if (data_[i] == c) return i;
+    for (;; --i) {
+      if (data_[i] != c) return i;
       if (i == 0) break;
     }
 
-- 
2.43.0


From 35a9106d252caeabc07a682b7ee063b34d34bf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 089/131] fix: comparing views: characters are unsigned, NUL
 does not end a view, an empty view has no first character

---
 kanon/string/string_view.h | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index fcd5c62..c05b53a 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -422,29 +422,21 @@ class StringView {
 
   int caseCompare(StringView v) const KANON_NOEXCEPT
   {
-    int r = kanon::StrNCaseCompare(data_, v.data(),
-                                   len_ < v.size() ? len_ : v.size());
-
-    if (r == 0) {
-      if (len_ < v.size())
-        r = -1;
-      else if (len_ > v.size())
-        r = 1;
+    // Not strncasecmp(): the view may contain '\0'
+    auto len = std::min(len_, v.size());
+    for (size_type i = 0; i < len; ++i) {
+      int r = ::tolower((unsigned char)data_[i]) -
+              ::tolower((unsigned char)v.data_[i]);
+      if (r != 0) return r;
     }
 
-    return r;
+    if (len_ < v.size()) return -1;
+    return len_ > v.size() ? 1 : 0;
   }
 
   int caseCompare(char c) const KANON_NOEXCEPT
   {
-    auto data_0 = ::toupper(data_[0]);
-    auto _c = ::toupper(c);
-
-    if (len_ < 1 || data_0 < _c) return -1;
-
-    if (data_0 > _c) return 1;
-
-    return (data_0 == c && len_ == 1) ? 0 : 1;
+    return caseCompare(StringView(&c, 1));
   }
 
   // lexicographic compare
@@ -464,11 +456,7 @@ class StringView {
 
   int compare(char c) const KANON_NOEXCEPT
   {
-    if (len_ < 1 || data_[0] < c) return -1;
-
-    if (data_[0] > c) return 1;
-
-    return (data_[0] == c && len_ == 1) ? 0 : 1;
+    return compare(StringView(&c, 1));
   }
 
   KANON_CORE_API std::vector<std::string> split(StringView spliter = " ") const;
-- 
2.43.0


From 3744b37eade20d2082a2824f442cd72973f88513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 090/131] fix: substr and copy of a view reach past its end

---
 kanon/string/string_view.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index c05b53a..3c30630 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -201,10 +201,11 @@ class StringView {
   KANON_INLINE size_type copy(char *dst, size_type count,
                               size_type pos = 0) const
   {
-    if (pos >= len_) {
+    if (pos > len_) {
       throw std::out_of_range{"Given position over length of StringView"};
     }
 
+    count = std::min(count, len_ - pos);
     ::memcpy(dst, data_ + pos, count);
     return count;
   }
@@ -216,8 +217,8 @@ class StringView {
   KANON_CONSTEXPR StringView substr(size_type pos = 0,
                                     size_type count = npos) const KANON_NOEXCEPT
   {
-    auto len = std::min(count, len_ - pos);
-    return StringView(data_ + pos, len);
+    pos = std::min(pos, len_);
+    return StringView(data_ + pos, std::min(count, len_ - pos));
   }
 
   KANON_CONSTEXPR StringView
-- 
2.43.0


From a87c1c9e43cec6b8f1a1b4ee1400696c1747abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 091/131] fix: splitting a view at an empty text never ends

---
 kanon/string/string_view.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/string/string_view.cc b/kanon/string/string_view.cc
index b560a46..3c92ca2 100644
--- a/kanon/string/string_view.cc
+++ b/kanon/string/string_view.cc
@@ -4,6 +4,9 @@ namespace kanon {
 
 std::vector<std::string> StringView::split(StringView spliter) const 
 {
+  // Nothing to split at
+  if (spliter.empty()) return {ToString()};
+
   size_type indicator_begin = 0;
   size_type indicator_end = find(spliter);
   std::vector<std::string> ret{};
-- 
2.43.0


From cf20a4266e53b4171ac3bfc35a07e75094d02acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 092/131] fix: converting an empty optional to another type
 asserts, and assigning a temporary one does not compile

---
 kanon/util/optional.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kanon/util/optional.h b/kanon/util/optional.h
index 67f7e77..1f4858e 100644
--- a/kanon/util/optional.h
+++ b/kanon/util/optional.h
@@ -59,6 +59,9 @@ struct is_optional
 template <typename T>
 class optional {
   typedef optional<T> Self;
+  template <typename U>
+  friend class optional;
+
   typedef std::pair<bool, T> Rep;
 
  public:
@@ -81,13 +84,13 @@ class optional {
   //
   template <typename U>
   optional(optional<U> const &other)
-    : opt_{Rep{other.has_value(), other.value()}}
+    : opt_{Rep{other.opt_.first, T(other.opt_.second)}}
   {
   }
 
   template <typename U>
   optional(optional<U> &&other) KANON_NOEXCEPT
-    : opt_{Rep{other.has_value(), std::move(other.value())}}
+    : opt_{Rep{other.opt_.first, T(std::move(other.opt_.second))}}
   {
   }
 
@@ -97,7 +100,7 @@ class optional {
   template <typename U>
   optional &operator=(optional<U> const &other)
   {
-    opt_ = Rep{other.has_value(), other.value()};
+    opt_ = Rep{other.opt_.first, T(other.opt_.second)};
 
     return *this;
   }
@@ -105,7 +108,7 @@ class optional {
   template <typename U>
   optional &operator=(optional<U> &&other) KANON_NOEXCEPT
   {
-    std::swap(opt_, other.opt_);
+    opt_ = Rep{other.opt_.first, T(std::move(other.opt_.second))};
 
     return *this;
   }
-- 
2.43.0


From 991a9bb6c1bbf6de1e6b4a0d0fe687398b9cfcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 093/131] fix: text to number conversions accept what is no
 number, give other numbers when out of range, assert on long texts and share
 one buffer among threads

---
 kanon/string/string_view_util.cc | 78 ++++++++++++------------------
 kanon/string/string_view_util.h  | 81 +++++++++++++++++++++++---------
 2 files changed, 87 insertions(+), 72 deletions(-)

diff --git a/kanon/string/string_view_util.cc b/kanon/string/string_view_util.cc
index ba2b153..ec3e075 100644
--- a/kanon/string/string_view_util.cc
+++ b/kanon/string/string_view_util.cc
@@ -1,68 +1,48 @@
 #include "string_view_util.h"
 
-#include <string.h> // memcpy
-#include <assert.h> // assert
+#include <ctype.h>
+#include <errno.h>
 #include <stdlib.h> // strtoXXX()
 
 using namespace kanon;
 
-optional<uint64_t> kanon::StringViewToU64(StringView const &sv,
-                                          int base) KANON_NOEXCEPT
+// strtoXXX() need a terminator, skip leading spaces and stop at the first
+// character that is not a digit.
+// Only a text that is a number as a whole is converted.
+template <typename Int, typename Func>
+static bool Parse(StringView sv, int base, Func func, Int *ret)
 {
-  assert(sv.size() < 64);
-  static char buf[64];
-  memcpy(buf, sv.data(), sv.size());
-  buf[sv.size()] = 0;
-  char *end = NULL;
-  uint64_t ret = strtoull(buf, &end, base);
-  if (ret == 0 && end == buf) {
-    return make_null_optional<uint64_t>();
-  }
-  return ret;
-}
+  if (sv.empty() || isspace((unsigned char)sv[0])) return false;
 
-optional<uint32_t> kanon::StringViewToU32(StringView const &sv,
-                                          int base) KANON_NOEXCEPT
-{
-  assert(sv.size() < 32);
-  static char buf[32];
-  memcpy(buf, sv.data(), sv.size());
-  buf[sv.size()] = 0;
+  std::string const str(sv.data(), sv.size());
   char *end = NULL;
-  uint32_t ret = (uint32_t)strtoul(buf, &end, base);
-  if (ret == 0 && end == buf) {
-    return make_null_optional<uint32_t>();
-  }
-  return ret;
+  const int saved_errno = errno;
+  errno = 0;
+  *ret = func(str.c_str(), &end, base);
+  const bool ok = errno == 0 && end == str.c_str() + str.size();
+  errno = saved_errno;
+  return ok;
 }
 
-optional<int32_t> kanon::StringViewTo32(StringView const &sv,
-                                        int base) KANON_NOEXCEPT
+optional<uint64_t> kanon::detail::StringViewToUnsigned(StringView sv, int base,
+                                                       uint64_t max)
+    KANON_NOEXCEPT
 {
-  assert(sv.size() < 32);
-  static char buf[32];
-  memcpy(buf, sv.data(), sv.size());
-  buf[sv.size()] = 0;
-  char *end = NULL;
-  int32_t ret = (int32_t)strtol(buf, &end, base);
-  if (ret == 0 && end == buf) {
-    return make_null_optional<int32_t>();
+  unsigned long long ret = 0;
+  // strtoull() accepts negative number
+  if (sv.contains('-') || !Parse(sv, base, strtoull, &ret) || ret > max) {
+    return make_null_optional<uint64_t>();
   }
-  return ret;
+  return (uint64_t)ret;
 }
 
-optional<int64_t> kanon::StringViewTo64(StringView const &sv,
-                                        int base) KANON_NOEXCEPT
+optional<int64_t> kanon::detail::StringViewToSigned(StringView sv, int base,
+                                                    int64_t min, int64_t max)
+    KANON_NOEXCEPT
 {
-  assert(sv.size() < 64);
-  static char buf[64];
-  memcpy(buf, sv.data(), sv.size());
-  buf[sv.size()] = 0;
-  char *end = NULL;
-  int64_t ret = strtoll(buf, &end, base);
-  if (ret == 0 && end == buf) {
+  long long ret = 0;
+  if (!Parse(sv, base, strtoll, &ret) || ret < min || ret > max) {
     return make_null_optional<int64_t>();
   }
-  return ret;
+  return (int64_t)ret;
 }
-
diff --git a/kanon/string/string_view_util.h b/kanon/string/string_view_util.h
index 9221723..6360539 100644
--- a/kanon/string/string_view_util.h
+++ b/kanon/string/string_view_util.h
@@ -6,57 +6,92 @@
 #include "kanon/util/optional.h"
 
 #include <cstdint>
+#include <limits>
+#include <type_traits>
 
 namespace kanon {
 
+namespace detail {
+
+KANON_CORE_API optional<uint64_t>
+StringViewToUnsigned(StringView sv, int base, uint64_t max) KANON_NOEXCEPT;
+
+KANON_CORE_API optional<int64_t> StringViewToSigned(StringView sv, int base,
+                                                    int64_t min,
+                                                    int64_t max) KANON_NOEXCEPT;
+
+template <typename T, bool = std::is_signed<T>::value>
+struct StringViewToInteger {
+  static optional<T> apply(StringView sv, int base) KANON_NOEXCEPT
+  {
+    return StringViewToSigned(sv, base, std::numeric_limits<T>::min(),
+                              std::numeric_limits<T>::max());
+  }
+};
+
+template <typename T>
+struct StringViewToInteger<T, false> {
+  static optional<T> apply(StringView sv, int base) KANON_NOEXCEPT
+  {
+    return StringViewToUnsigned(sv, base, std::numeric_limits<T>::max());
+  }
+};
+
+} // namespace detail
+
 /**
- * strtoull() wrapper
+ * Convert the text to a number
  *
- * To robust, reuse the libc routines
+ * \return
+ *   null if the text is not a number as a whole or
+ *   the number is out of the range of the result type
  */
-KANON_CORE_API optional<uint64_t> StringViewToU64(StringView const &sv,
-                                                  int base = 10) KANON_NOEXCEPT;
+KANON_INLINE optional<uint64_t> StringViewToU64(StringView const &sv,
+                                                int base = 10) KANON_NOEXCEPT
+{
+  return detail::StringViewToInteger<uint64_t>::apply(sv, base);
+}
 
-/**
- * strtoul() wrapper
- */
-KANON_CORE_API optional<uint32_t> StringViewToU32(StringView const &sv,
-                                                  int base = 10) KANON_NOEXCEPT;
+KANON_INLINE optional<uint32_t> StringViewToU32(StringView const &sv,
+                                                int base = 10) KANON_NOEXCEPT
+{
+  return detail::StringViewToInteger<uint32_t>::apply(sv, base);
+}
 
-/**
- * strtoll() wrapper
- */
-KANON_CORE_API optional<int64_t> StringViewTo64(StringView const &sv,
-                                                int base = 10) KANON_NOEXCEPT;
+KANON_INLINE optional<int64_t> StringViewTo64(StringView const &sv,
+                                              int base = 10) KANON_NOEXCEPT
+{
+  return detail::StringViewToInteger<int64_t>::apply(sv, base);
+}
 
-/**
- * strtol() wrapper
- */
-KANON_CORE_API optional<int32_t> StringViewTo32(StringView const &sv,
-                                                int base = 10) KANON_NOEXCEPT;
+KANON_INLINE optional<int32_t> StringViewTo32(StringView const &sv,
+                                              int base = 10) KANON_NOEXCEPT
+{
+  return detail::StringViewToInteger<int32_t>::apply(sv, base);
+}
 
 KANON_INLINE optional<int16_t> StringViewTo16(StringView const &sv,
                                               int base = 10) KANON_NOEXCEPT
 {
-  return StringViewTo32(sv, base);
+  return detail::StringViewToInteger<int16_t>::apply(sv, base);
 }
 
 KANON_INLINE optional<uint16_t> StringViewToU16(StringView const &sv,
                                                 int base = 10) KANON_NOEXCEPT
 {
-  return StringViewToU32(sv, base);
+  return detail::StringViewToInteger<uint16_t>::apply(sv, base);
 }
 
 KANON_INLINE optional<int8_t> StringViewTo8(StringView const &sv,
                                             int base = 10) KANON_NOEXCEPT
 {
-  return StringViewTo32(sv, base);
+  return detail::StringViewToInteger<int8_t>::apply(sv, base);
 }
 
 KANON_INLINE optional<uint8_t> StringViewToU8(StringView const &sv,
                                               int base = 10) KANON_NOEXCEPT
 {
-  return StringViewToU32(sv, base);
+  return detail::StringViewToInteger<uint8_t>::apply(sv, base);
 }
 
 } // namespace kanon
-- 
2.43.0


From d2eeb6570620279b4667c74daf762e9089886661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 094/131] fix: lexical_cast to a number accepts empty texts and
 numbers out of range, and reads a buffer shared among threads

---
 kanon/string/lexical_cast.h | 77 ++++++++-----------------------------
 1 file changed, 17 insertions(+), 60 deletions(-)

diff --git a/kanon/string/lexical_cast.h b/kanon/string/lexical_cast.h
index e0595f4..37a184a 100644
--- a/kanon/string/lexical_cast.h
+++ b/kanon/string/lexical_cast.h
@@ -8,6 +8,7 @@
 #include "kanon/util/arithmetic_type.h"
 
 #include "kanon/string/lexical_stream.h"
+#include "kanon/string/string_view_util.h"
 #include "kanon/string/type.h"
 
 namespace kanon {
@@ -53,45 +54,13 @@ class LexicalCast<char const *, Src, false> {
 DST_STRING_SPECIALIZATION(std::string);
 DST_STRING_SPECIALIZATION(kanon::StringView);
 
-static char lexical_cvt_buf[64];
-
-#define Str2Int(integer_type, str_type, func)                                  \
+#define STR2INT(integer_type, str_type)                                        \
   template <>                                                                  \
   class LexicalCast<integer_type, str_type, false> {                           \
    public:                                                                     \
     static kanon::optional<integer_type> apply(str_type const &src)            \
     {                                                                          \
-      if (src.size() > 63) return kanon::make_null_optional<integer_type>();   \
-      ::strncpy(lexical_cvt_buf, src.data(), src.size());                      \
-      lexical_cvt_buf[src.size()] = 0;                                         \
-                                                                               \
-      char *endptr = nullptr;                                                  \
-                                                                               \
-      auto ret =                                                               \
-          static_cast<integer_type>(func(lexical_cvt_buf, &endptr, 10));       \
-      if (*endptr == 0) {                                                      \
-        return kanon::optional<integer_type>(ret);                             \
-      }                                                                        \
-                                                                               \
-      return kanon::make_null_optional<integer_type>();                        \
-    }                                                                          \
-  }
-
-#define Str2Int2(integer_type, str_type, func)                                 \
-  template <>                                                                  \
-  class LexicalCast<integer_type, str_type, false> {                           \
-   public:                                                                     \
-    static kanon::optional<integer_type> apply(str_type const &src)            \
-    {                                                                          \
-      if (src.size() > 63) return kanon::make_null_optional<integer_type>();   \
-      char *endptr = nullptr;                                                  \
-                                                                               \
-      auto ret = static_cast<integer_type>(func(src.c_str(), &endptr, 10));    \
-      if (*endptr == 0) {                                                      \
-        return kanon::optional<integer_type>(ret);                             \
-      }                                                                        \
-                                                                               \
-      return kanon::make_null_optional<integer_type>();                        \
+      return detail::StringViewToInteger<integer_type>::apply(src, 10);        \
     }                                                                          \
   }
 
@@ -99,32 +68,20 @@ static char lexical_cvt_buf[64];
 // i64 == long
 // isize = long
 // u~ == ~
-#define Str2IntForOne(str)                                                     \
-  Str2Int(i8, str, ::strtol);                                                  \
-  Str2Int(i16, str, ::strtol);                                                 \
-  Str2Int(int, str, ::strtol);                                                 \
-  Str2Int(long, str, ::strtol);                                                \
-  Str2Int(long long, str, ::strtoll);                                          \
-  Str2Int(u8, str, ::strtoul);                                                 \
-  Str2Int(u16, str, ::strtoul);                                                \
-  Str2Int(unsigned int, str, ::strtoul);                                       \
-  Str2Int(unsigned long, str, ::strtoul);                                      \
-  Str2Int(unsigned long long, str, ::strtoull)
-
-#define Str2IntForOne2(str)                                                    \
-  Str2Int(i8, str, ::strtol);                                                  \
-  Str2Int(i16, str, ::strtol);                                                 \
-  Str2Int(int, str, ::strtol);                                                 \
-  Str2Int(long, str, ::strtol);                                                \
-  Str2Int(long long, str, ::strtoll);                                          \
-  Str2Int(u8, str, ::strtoul);                                                 \
-  Str2Int(u16, str, ::strtoul);                                                \
-  Str2Int(unsigned int, str, ::strtoul);                                       \
-  Str2Int(unsigned long, str, ::strtoul);                                      \
-  Str2Int(unsigned long long, str, ::strtoull)
-
-Str2IntForOne(kanon::StringView);
-Str2IntForOne2(std::string);
+#define STR2INT_FOR_ONE(str)                                                   \
+  STR2INT(i8, str);                                                            \
+  STR2INT(i16, str);                                                           \
+  STR2INT(int, str);                                                           \
+  STR2INT(long, str);                                                          \
+  STR2INT(long long, str);                                                     \
+  STR2INT(u8, str);                                                            \
+  STR2INT(u16, str);                                                           \
+  STR2INT(unsigned int, str);                                                  \
+  STR2INT(unsigned long, str);                                                 \
+  STR2INT(unsigned long long, str)
+
+STR2INT_FOR_ONE(kanon::StringView);
+STR2INT_FOR_ONE(std::string);
 
 template <typename Dst, typename Src>
 auto lexical_cast(Src const &src) -> decltype(LexicalCast<Dst, Src>::apply(src))
-- 
2.43.0


From b7991e35b21cae0c5ac8b31de3f697fd3ca781a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 095/131] fix: lexical_cast to a text writes a stream shared
 among threads

---
 kanon/string/lexical_cast.cc | 2 +-
 kanon/string/lexical_cast.h  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/kanon/string/lexical_cast.cc b/kanon/string/lexical_cast.cc
index 4f81149..3e6da4b 100644
--- a/kanon/string/lexical_cast.cc
+++ b/kanon/string/lexical_cast.cc
@@ -1,4 +1,4 @@
 #include "kanon/string/lexical_cast.h"
 
 using namespace kanon;
-CastLexicalStream kanon::_cast_stream;
+thread_local CastLexicalStream kanon::_cast_stream;
diff --git a/kanon/string/lexical_cast.h b/kanon/string/lexical_cast.h
index 37a184a..8256347 100644
--- a/kanon/string/lexical_cast.h
+++ b/kanon/string/lexical_cast.h
@@ -24,7 +24,8 @@ class LexicalCast {
   }
 };
 
-extern CastLexicalStream _cast_stream;
+// The result refers to it: one for each thread
+extern thread_local CastLexicalStream _cast_stream;
 
 #define DST_STRING_SPECIALIZATION(type)                                        \
   template <typename Src>                                                      \
-- 
2.43.0


From feef84f30749573f3bc3c19ab3c05c842600587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 096/131] fix: FmtStream reads behind a format that ends with a
 placeholder

---
 kanon/string/fmt_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/fmt_stream.h b/kanon/string/fmt_stream.h
index 878e595..5ec85ae 100644
--- a/kanon/string/fmt_stream.h
+++ b/kanon/string/fmt_stream.h
@@ -134,7 +134,7 @@ void FMT_STREAM_TEMPLATE::ParseAndSerializeSingle(StringView fmt, Arg arg,
   stream_.Append(fmt.data(), pos == StringView::npos ? fmt.size() : pos);
 
   if (pos < fmt.size()) {
-    if (fmt[pos + 1] == '%') {
+    if (pos + 1 < fmt.size() && fmt[pos + 1] == '%') {
       stream_.Append("%");
       ParseAndSerialize(fmt.substr(pos + 2), arg, args...);
     } else {
-- 
2.43.0


From cbf1927a41296832c9588b89a2076932bddaf4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 097/131] fix: FmtStream prints the address of a C string
 instead of the string

---
 kanon/string/fmt_stream.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kanon/string/fmt_stream.h b/kanon/string/fmt_stream.h
index 5ec85ae..bcd27c5 100644
--- a/kanon/string/fmt_stream.h
+++ b/kanon/string/fmt_stream.h
@@ -65,6 +65,11 @@ class FmtStream {
 
   void SerializeOne(bool arg) KANON_NOEXCEPT { stream_.appendBool(arg); }
   void SerializeOne(void const *p) KANON_NOEXCEPT { stream_.appendPtr(p); }
+  void SerializeOne(char const *s) KANON_NOEXCEPT { stream_.Append(s); }
+  void SerializeOne(std::nullptr_t) KANON_NOEXCEPT
+  {
+    stream_.appendPtr(nullptr);
+  }
   void SerializeOne(char c) KANON_NOEXCEPT { stream_.appendChar(c); }
   void SerializeOne(std::string const &s) KANON_NOEXCEPT
   {
-- 
2.43.0


From 872a2f22170e55fa2910c95dab8a732f4352873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 098/131] fix: length of a Fmt exceeds its buffer when the text
 was cut off

---
 kanon/string/lexical_stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/string/lexical_stream.h b/kanon/string/lexical_stream.h
index fae952a..61302db 100644
--- a/kanon/string/lexical_stream.h
+++ b/kanon/string/lexical_stream.h
@@ -175,7 +175,8 @@ class KANON_DEPRECATED_ATTR Fmt {
                   "Fmt: Give value's type must be integer or floating-point");
     auto ret = snprintf(buf_, sizeof buf_, str, val);
     if (ret < 0) throw std::runtime_error("Failed to call snprintf in Fmt");
-    len_ = (size_type)ret;
+    // What does not fit is cut off
+    len_ = std::min((size_type)ret, (size_type)sizeof buf_ - 1);
   }
 
   explicit Fmt(std::string const &str)
-- 
2.43.0


From 2a16d9da2ed53e8ebd63ae919043bafbd065e936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 099/131] fix: operator> of a view and a literal stops at a NUL
 in the literal

---
 kanon/string/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 3c30630..d0806ea 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -566,7 +566,7 @@ template <StringView::size_type N>
 KANON_INLINE bool operator>(StringView const &lhs,
                             char const (&rhs)[N]) KANON_NOEXCEPT
 {
-  return rhs < lhs;
+  return MakeStringView(rhs) < lhs;
 }
 
 KANON_INLINE bool operator>=(StringView const &lhs,
-- 
2.43.0


From ea9345bb5ec7e7d2805f7b9ed6cba8ea91ee163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 100/131] fix: InetAddr left the flow info and scope id of IPv6
 addresses uninitialized

---
 kanon/net/inet_addr.cc | 2 ++
 kanon/net/sock_api.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/kanon/net/inet_addr.cc b/kanon/net/inet_addr.cc
index 37c50c4..2773243 100644
--- a/kanon/net/inet_addr.cc
+++ b/kanon/net/inet_addr.cc
@@ -34,6 +34,8 @@ static_assert(sizeof(InetAddr) == sizeof(struct sockaddr_in6),
 
 InetAddr::InetAddr(Port port, bool loopback, bool v6)
 {
+  BZERO(&addr6_, sizeof addr6_);
+
   if (v6) {
     addr6_.sin6_port = sock::ToNetworkByteOrder16(port);
     addr6_.sin6_addr = loopback ? in6addr_loopback : in6addr_any;
diff --git a/kanon/net/sock_api.h b/kanon/net/sock_api.h
index b6dd4ef..048df1d 100644
--- a/kanon/net/sock_api.h
+++ b/kanon/net/sock_api.h
@@ -91,6 +91,8 @@ KANON_INLINE void FromIpPort(StringArg ip, uint16_t port,
 KANON_INLINE void FromIpPort(StringArg ip, uint16_t port,
                              sockaddr_in6 &addr) KANON_NOEXCEPT
 {
+  addr.sin6_flowinfo = 0;
+  addr.sin6_scope_id = 0;
   addr.sin6_family = AF_INET6;
   addr.sin6_port = sock::ToNetworkByteOrder16(port);
 
-- 
2.43.0


From f3022febaf676a9a7a9868c1eed5849df405b072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 101/131] fix: InetAddr aborted the process, read outside the
 text or gave another address for texts that are no address

---
 kanon/net/inet_addr.cc | 42 ++++++++++++++++++++++--------------------
 kanon/net/sock_api.h   | 14 ++++++--------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/kanon/net/inet_addr.cc b/kanon/net/inet_addr.cc
index 2773243..1e175ae 100644
--- a/kanon/net/inet_addr.cc
+++ b/kanon/net/inet_addr.cc
@@ -50,12 +50,13 @@ InetAddr::InetAddr(Port port, bool loopback, bool v6)
 
 InetAddr::InetAddr(StringView ip, Port port)
 {
-  if (ip.find('.') != StringView::npos) {
-    sock::FromIpPort(ip.data(), port, addr_);
-  } else if (ip.find(':') != StringView::npos) {
-    sock::FromIpPort(ip.data(), port, addr6_);
-  } else {
-    throw InetAddr("This is invalid ip argument");
+  auto const ip_str = ip.ToString();
+  // Ipv6 address can also hold dot(e.g. ::ffff:127.0.0.1)
+  if (ip.contains('\0') || !(ip.contains(':')
+                                 ? sock::FromIpPort(ip_str, port, addr6_)
+                                 : sock::FromIpPort(ip_str, port, addr_)))
+  {
+    throw InetAddrException("This is invalid ip argument");
   }
 }
 
@@ -122,17 +123,22 @@ InetAddr::InetAddr(StringView addr)
     }
   }
 #else
-  if (std::isalpha(addr[0])) {
+  if (addr.empty() || addr.contains('\0'))
+    throw InetAddrException("This a invalid address");
+
+  unsigned char const first = addr[0];
+  if (std::isalpha(first)) {
     // Hostname
     auto colon_pos = addr.find(':');
-    if (colon_pos != StringView::npos) {
+    // Empty service is not a port
+    if (colon_pos != StringView::npos && colon_pos + 1 != addr.size()) {
       auto const hostname = addr.substr(0, colon_pos).ToString();
       auto const service = addr.substr(colon_pos + 1).ToString();
       *this = InetAddr(hostname, service);
       return;
     }
-  } else if ((std::isalnum(addr[0]) && addr.find('.') != StringView::npos) ||
-             addr[0] == '*')
+  } else if ((std::isalnum(first) && addr.find('.') != StringView::npos) ||
+             first == '*')
   {
     // Ipv4 address
     auto colon_pos = addr.find(':');
@@ -142,21 +148,17 @@ InetAddr::InetAddr(StringView addr)
       if (ip == "*") ip = "0.0.0.0";
       auto const port = addr.substr(colon_pos + 1).ToString();
       auto o_port = StringViewToU16(port);
-      if (o_port) {
-        sock::FromIpPort(ip, *o_port, addr_);
-        return;
-      }
+      if (o_port && sock::FromIpPort(ip, *o_port, addr_)) return;
     }
-  } else if (addr[0] == '[') {
+  } else if (first == '[') {
     auto right_pos = addr.find(']');
-    if (right_pos != StringView::npos) {
+    if (right_pos != StringView::npos &&
+        addr.substr(right_pos + 1).starts_with(':'))
+    {
       auto const ip = addr.substr_range(1, right_pos).ToString();
       auto const port = addr.substr(right_pos + 2).ToString();
       auto o_port = StringViewToU16(port);
-      if (o_port) {
-        sock::FromIpPort(ip, *o_port, addr6_);
-        return;
-      }
+      if (o_port && sock::FromIpPort(ip, *o_port, addr6_)) return;
     }
   }
 
diff --git a/kanon/net/sock_api.h b/kanon/net/sock_api.h
index 048df1d..70dd95a 100644
--- a/kanon/net/sock_api.h
+++ b/kanon/net/sock_api.h
@@ -77,18 +77,18 @@ to_sockaddr(S *addr) KANON_NOEXCEPT
 KANON_NET_NO_API void ToIpPort(char *buf, size_t size, sockaddr const *addr);
 KANON_NET_NO_API void ToIp(char *buf, size_t size, sockaddr const *addr);
 
-KANON_INLINE void FromIpPort(StringArg ip, uint16_t port,
+//! \return false if \p ip is not a Ipv4 address
+KANON_INLINE bool FromIpPort(StringArg ip, uint16_t port,
                              sockaddr_in &addr) KANON_NOEXCEPT
 {
   addr.sin_family = AF_INET;
   addr.sin_port = sock::ToNetworkByteOrder16(port);
 
-  if (!::inet_pton(addr.sin_family, ip, &addr.sin_addr)) {
-    LOG_SYSFATAL << "fail to convert ip presentation to numeric";
-  }
+  return ::inet_pton(AF_INET, ip, &addr.sin_addr) == 1;
 }
 
-KANON_INLINE void FromIpPort(StringArg ip, uint16_t port,
+//! \return false if \p ip is not a Ipv6 address
+KANON_INLINE bool FromIpPort(StringArg ip, uint16_t port,
                              sockaddr_in6 &addr) KANON_NOEXCEPT
 {
   addr.sin6_flowinfo = 0;
@@ -96,9 +96,7 @@ KANON_INLINE void FromIpPort(StringArg ip, uint16_t port,
   addr.sin6_family = AF_INET6;
   addr.sin6_port = sock::ToNetworkByteOrder16(port);
 
-  if (!::inet_pton(addr.sin6_family, ip, &addr.sin6_addr)) {
-    LOG_SYSFATAL << "fail to convert ip presentation to numeric(ipv6)";
-  }
+  return ::inet_pton(AF_INET6, ip, &addr.sin6_addr) == 1;
 }
 
 KANON_NET_NO_API void SetNonBlockAndCloExec(FdType fd) KANON_NOEXCEPT;
-- 
2.43.0


From e67c0b116f508f262c13d980814eb3b3d675e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 102/131] fix: InetAddr::Resolve() took a port number over
 65535 modulo 65536

---
 kanon/net/inet_addr.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/kanon/net/inet_addr.cc b/kanon/net/inet_addr.cc
index 1e175ae..3c9334b 100644
--- a/kanon/net/inet_addr.cc
+++ b/kanon/net/inet_addr.cc
@@ -2,6 +2,7 @@
 
 #include <cctype>
 #include <memory>
+#include <stdlib.h>
 #include <string.h>
 
 #ifdef KANON_ON_UNIX
@@ -240,6 +241,15 @@ std::vector<InetAddr> InetAddr::Resolve(StringArg hostname, StringArg service,
 {
   std::vector<InetAddr> addrs;
 
+  // getaddrinfo() only takes the low 16 bits of a port number
+  char *end = nullptr;
+  if (service.data() && *service.data() &&
+      ::strtoull(service.data(), &end, 10) > UINT16_MAX && *end == 0)
+  {
+    LOG_ERROR_KANON << "Port number out of range: " << service.data();
+    return addrs;
+  }
+
   struct addrinfo *addr_list;
   auto ret = ::getaddrinfo(hostname.data(), service.data(), hint, &addr_list);
 
-- 
2.43.0


From 0fd71e8bbcf3a8d2dcbc043f0a042f3bb0168baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 103/131] fix: Any and UniqueAny crashed when asked for the
 type or the value while empty

---
 kanon/util/any.h        | 8 ++++++--
 kanon/util/unique_any.h | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/kanon/util/any.h b/kanon/util/any.h
index e05eb19..24cee87 100644
--- a/kanon/util/any.h
+++ b/kanon/util/any.h
@@ -96,7 +96,11 @@ class Any final {
     holder_ = nullptr;
   }
 
-  std::type_info const &type() const { return holder_->type(); }
+  /* The type of an empty object is void */
+  std::type_info const &type() const
+  {
+    return empty() ? typeid(void) : holder_->type();
+  }
 
   void swap(Any &rhs) KANON_NOEXCEPT { std::swap(holder_, rhs.holder_); }
 
@@ -199,7 +203,7 @@ KANON_INLINE V *SafeAnyCast(Any const &from)
   static_assert(!std::is_reference<V>::value,
                 "The type to cast must not be reference");
 
-  if (from.type() == typeid(V)) {
+  if (!from.empty() && from.type() == typeid(V)) {
     return std::addressof(static_cast<Any::Holder<V> *>(from.holder_)->holder_);
   }
 
diff --git a/kanon/util/unique_any.h b/kanon/util/unique_any.h
index 058a7a0..238cf6d 100644
--- a/kanon/util/unique_any.h
+++ b/kanon/util/unique_any.h
@@ -65,7 +65,11 @@ class UniqueAny final {
     holder_ = nullptr;
   }
 
-  std::type_info const &type() const { return holder_->type(); }
+  /* The type of an empty object is void */
+  std::type_info const &type() const
+  {
+    return empty() ? typeid(void) : holder_->type();
+  }
 
   void swap(UniqueAny &rhs) KANON_NOEXCEPT { std::swap(holder_, rhs.holder_); }
 
@@ -154,7 +158,7 @@ KANON_INLINE V *SafeUniqueAnyCast(UniqueAny const &from)
   static_assert(!std::is_reference<V>::value,
                 "The type to cast must not be reference");
 
-  if (from.type() == typeid(V)) {
+  if (!from.empty() && from.type() == typeid(V)) {
     return std::addressof(
         static_cast<UniqueAny::Holder<V> *>(from.holder_)->holder_);
   }
-- 
2.43.0


From 8f749b687d2c5bc91e4d266dfa6006157d0b8cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 104/131] fix: TimeStamp::ToString() printed a literal 6 and no
 leading zeros instead of the six digits of the microseconds

---
 kanon/util/time_stamp.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kanon/util/time_stamp.cc b/kanon/util/time_stamp.cc
index 815472c..c115219 100644
--- a/kanon/util/time_stamp.cc
+++ b/kanon/util/time_stamp.cc
@@ -22,7 +22,10 @@ std::string TimeStamp::ToString() const
 
   int64_t seconds = microseconds_ / kMicrosecondsPerSeconds_;
   int microseconds = static_cast<int>(microseconds_ % kMicrosecondsPerSeconds_);
-  snprintf(buf, sizeof buf, "%" PRId64 ".6%d", seconds, microseconds);
+  // The sign is lost in seconds if it is 0
+  snprintf(buf, sizeof buf, "%s%" PRId64 ".%06d",
+           seconds == 0 && microseconds < 0 ? "-" : "", seconds,
+           microseconds < 0 ? -microseconds : microseconds);
 
   return buf;
 }
-- 
2.43.0


From 272c14e7d7051b2a7d2d02d5aaf5f5c4f52fa63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 105/131] fix: TimeStamp::ToFormattedString() gave a wrong
 second and a negative fraction before the epoch

---
 kanon/util/time_stamp.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kanon/util/time_stamp.cc b/kanon/util/time_stamp.cc
index c115219..4210cb3 100644
--- a/kanon/util/time_stamp.cc
+++ b/kanon/util/time_stamp.cc
@@ -35,6 +35,12 @@ std::string TimeStamp::ToFormattedString(bool isShowMicroseconds) const
   char buf[64]{ 0 };
 
   auto seconds = static_cast<time_t>(microseconds_ / kMicrosecondsPerSeconds_);
+  int microseconds = static_cast<int>(microseconds_ % kMicrosecondsPerSeconds_);
+  if (microseconds < 0) {
+    // The time before epoch
+    --seconds;
+    microseconds += kMicrosecondsPerSeconds_;
+  }
   struct tm tm;
   // gmtime_r(&seconds, &tm);
 #ifdef KANON_ON_UNIX
@@ -43,10 +49,7 @@ std::string TimeStamp::ToFormattedString(bool isShowMicroseconds) const
   ::localtime_s(&tm, &seconds);
 #endif
   if (isShowMicroseconds) {
-    int microseconds =
-        static_cast<int>(microseconds_ % kMicrosecondsPerSeconds_);
-
-    snprintf(buf, sizeof buf, "%4d%02d%02d %02d:%02d:%02d.%06d",
+    snprintf(buf, sizeof buf, "%04d%02d%02d %02d:%02d:%02d.%06d",
              tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour,
              tm.tm_min, tm.tm_sec, microseconds);
   } else {
-- 
2.43.0


From 52685d57b7188a9b8a6b4ec1a78e9311188131e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 106/131] fix: adding or subtracting more than 2147 seconds or
 2147483 milliseconds to a TimeStamp overflows

---
 kanon/util/time_stamp.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kanon/util/time_stamp.h b/kanon/util/time_stamp.h
index d2f8752..523b83f 100644
--- a/kanon/util/time_stamp.h
+++ b/kanon/util/time_stamp.h
@@ -148,12 +148,12 @@ class TimeStamp
 
   TimeStamp operator+(MilliSecond ms) const KANON_NOEXCEPT
   {
-    return *this + Microsecond(ms.count * 1000);
+    return TimeStamp(microseconds_ + int64_t(ms.count) * 1000);
   }
 
   TimeStamp operator+(Second sec) const KANON_NOEXCEPT
   {
-    return *this + Microsecond(sec.count * 1000000);
+    return TimeStamp(microseconds_ + int64_t(sec.count) * 1000000);
   }
 
   TimeStamp operator-(double seconds) const KANON_NOEXCEPT
@@ -164,17 +164,17 @@ class TimeStamp
 
   TimeStamp operator-(Microsecond us) const KANON_NOEXCEPT
   {
-    return *this + Microsecond(-us.count);
+    return TimeStamp(microseconds_ - us.count);
   }
 
   TimeStamp operator-(MilliSecond ms) const KANON_NOEXCEPT
   {
-    return *this + MilliSecond(-ms.count);
+    return TimeStamp(microseconds_ - int64_t(ms.count) * 1000);
   }
 
   TimeStamp operator-(Second sec) const KANON_NOEXCEPT
   {
-    return *this + Second(-sec.count);
+    return TimeStamp(microseconds_ - int64_t(sec.count) * 1000000);
   }
 
   friend TimeStamp operator+(double seconds, TimeStamp ts) KANON_NOEXCEPT
-- 
2.43.0


From adedf209ee4d21401f1df65cad21e12a0b191fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 107/131] fix: TimeStamp::FromTimeStr() converted a half-parsed
 time if the caller passed no ok

---
 kanon/util/time_stamp.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kanon/util/time_stamp.cc b/kanon/util/time_stamp.cc
index 4210cb3..7d10c93 100644
--- a/kanon/util/time_stamp.cc
+++ b/kanon/util/time_stamp.cc
@@ -68,10 +68,8 @@ TimeStamp TimeStamp::FromTimeStr(char const *format, std::string const &rep,
   memset(&tm, 0, sizeof tm);
   // Must init
   if (!strptime(rep.c_str(), format, &tm)) {
-    if (ok) {
-      *ok = false;
-      return TimeStamp(0);
-    }
+    if (ok) *ok = false;
+    return TimeStamp(0);
   }
   time_t t = mktime(&tm);
   if (ok) *ok = true;
-- 
2.43.0


From 1cd8ad866be1c9562d63cb33f1aabe9907ec326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 108/131] fix: TimeStamp::FromTimeStr() was an hour off during
 daylight saving time

---
 kanon/util/time_stamp.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/util/time_stamp.cc b/kanon/util/time_stamp.cc
index 7d10c93..54147aa 100644
--- a/kanon/util/time_stamp.cc
+++ b/kanon/util/time_stamp.cc
@@ -66,6 +66,8 @@ TimeStamp TimeStamp::FromTimeStr(char const *format, std::string const &rep,
 #ifdef KANON_ON_UNIX
   struct tm tm;
   memset(&tm, 0, sizeof tm);
+  // Let mktime() determine whether the daylight saving time is in effect
+  tm.tm_isdst = -1;
   // Must init
   if (!strptime(rep.c_str(), format, &tm)) {
     if (ok) *ok = false;
-- 
2.43.0


From 9ac2783dc74fc4ca5b2d42e3c77b8a0e951da83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 109/131] fix: a const TimeStamp can't be negated

---
 kanon/util/time_stamp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/util/time_stamp.h b/kanon/util/time_stamp.h
index 523b83f..20796dc 100644
--- a/kanon/util/time_stamp.h
+++ b/kanon/util/time_stamp.h
@@ -219,7 +219,7 @@ class TimeStamp
     return -(ts - sec);
   }
 
-  TimeStamp operator-() KANON_NOEXCEPT
+  TimeStamp operator-() const KANON_NOEXCEPT
   {
     return TimeStamp(-microseconds_);
   }
-- 
2.43.0


From b11fee98ff805b477f6a459cf60602ced740de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 110/131] fix: down_pointer_cast gave a wrong address if the
 base is not the first one

---
 kanon/util/ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/util/ptr.h b/kanon/util/ptr.h
index 53ca831..3348eec 100644
--- a/kanon/util/ptr.h
+++ b/kanon/util/ptr.h
@@ -97,7 +97,7 @@ KANON_INLINE std::unique_ptr<T, D> down_pointer_cast(std::unique_ptr<F, D> &ptr)
 #ifndef NDEBUG
   assert(ptr != nullptr && dynamic_cast<T *>(ptr.get()) != nullptr);
 #endif
-  return std::unique_ptr<T>(reinterpret_cast<T *>(ptr.release()));
+  return std::unique_ptr<T>(static_cast<T *>(ptr.release()));
 }
 
 template <typename T, typename F>
@@ -115,7 +115,7 @@ KANON_INLINE T *down_pointer_cast(F *ptr)
 #ifndef NDEBUG
   assert(ptr != nullptr && dynamic_cast<T *>(ptr) != nullptr);
 #endif
-  return reinterpret_cast<T *>(ptr);
+  return static_cast<T *>(ptr);
 }
 
 template <typename T>
-- 
2.43.0


From 46fb9e776caf8d7ccbf79551c5f21ba519a0e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 111/131] fix: AddTime(x, TimeDifference(y, x)) was a
 microsecond short of y

---
 kanon/util/time_stamp.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kanon/util/time_stamp.h b/kanon/util/time_stamp.h
index 20796dc..f8b1fe8 100644
--- a/kanon/util/time_stamp.h
+++ b/kanon/util/time_stamp.h
@@ -1,6 +1,7 @@
 #ifndef KANON_TIMESTAMP_H
 #define KANON_TIMESTAMP_H
 
+#include <cmath>
 #include <ctime>
 #include <stdint.h>
 #include <string>
@@ -138,7 +139,7 @@ class TimeStamp
   TimeStamp operator+(double seconds) const KANON_NOEXCEPT
   {
     return TimeStamp(microseconds_ +
-                     (int64_t)(seconds * kMicrosecondsPerSeconds_));
+                     std::llround(seconds * kMicrosecondsPerSeconds_));
   }
 
   TimeStamp operator+(Microsecond us) const KANON_NOEXCEPT
@@ -159,7 +160,7 @@ class TimeStamp
   TimeStamp operator-(double seconds) const KANON_NOEXCEPT
   {
     return TimeStamp(microseconds_ -
-                     int64_t(seconds * kMicrosecondsPerSeconds_));
+                     std::llround(seconds * kMicrosecondsPerSeconds_));
   }
 
   TimeStamp operator-(Microsecond us) const KANON_NOEXCEPT
@@ -283,7 +284,7 @@ KANON_INLINE TimeStamp AddTime(TimeStamp x, double seconds) KANON_NOEXCEPT
 {
   return TimeStamp(
       x.GetMicrosecondsSinceEpoch() +
-      static_cast<int64_t>(seconds * TimeStamp::kMicrosecondsPerSeconds_));
+      std::llround(seconds * TimeStamp::kMicrosecondsPerSeconds_));
 }
 
 KANON_INLINE TimeStamp AddTimeUs(TimeStamp x, uint64_t us) KANON_NOEXCEPT
-- 
2.43.0


From 92f68dbde3a1b9ddaf30ca54aa2bec2f7c8d2c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 112/131] fix: Any, UniqueAny and optional held a container of
 itself instead of a copy when the container can be made from a list

---
 kanon/util/any.h        | 4 ++--
 kanon/util/optional.h   | 4 ++--
 kanon/util/unique_any.h | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/kanon/util/any.h b/kanon/util/any.h
index 24cee87..58c78c2 100644
--- a/kanon/util/any.h
+++ b/kanon/util/any.h
@@ -162,7 +162,7 @@ class Any final {
     ~Holder() = default;
 
     Holder(V const &v)
-      : holder_{v}
+      : holder_(v)
     {
     }
 
@@ -170,7 +170,7 @@ class Any final {
 
     /* Don't mark KANON_NOEXCEPT */
     Holder(V &&v)
-      : holder_{std::move(v)}
+      : holder_(std::move(v))
     {
     }
 
diff --git a/kanon/util/optional.h b/kanon/util/optional.h
index 1f4858e..cfbae24 100644
--- a/kanon/util/optional.h
+++ b/kanon/util/optional.h
@@ -74,7 +74,7 @@ class optional {
   template <typename U = T,
             typename = typename std::enable_if<!is_optional<U>::value>::type>
   optional(U &&value)
-    : opt_{Rep{true, T{std::forward<U>(value)}}}
+    : opt_{Rep{true, T(std::forward<U>(value))}}
   {
   }
 
@@ -120,7 +120,7 @@ class optional {
             typename = typename std::enable_if<!is_optional<U>::value>::type>
   optional &operator=(U &&other)
   {
-    opt_ = Rep{true, T{std::forward<U>(other)}};
+    opt_ = Rep{true, T(std::forward<U>(other))};
     return *this;
   }
 
diff --git a/kanon/util/unique_any.h b/kanon/util/unique_any.h
index 238cf6d..e044ae2 100644
--- a/kanon/util/unique_any.h
+++ b/kanon/util/unique_any.h
@@ -127,7 +127,7 @@ class UniqueAny final {
     Holder &operator=(Holder const &) = delete;
 
     Holder(V &&v)
-      : holder_{std::move(v)}
+      : holder_(std::move(v))
     {
     }
 
-- 
2.43.0


From ee54aea4b81fb0d07866c91417d801969b238ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 113/131] fix: converting an empty optional to another type
 converted the missing value

---
 kanon/util/optional.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kanon/util/optional.h b/kanon/util/optional.h
index cfbae24..294d7a0 100644
--- a/kanon/util/optional.h
+++ b/kanon/util/optional.h
@@ -84,13 +84,15 @@ class optional {
   //
   template <typename U>
   optional(optional<U> const &other)
-    : opt_{Rep{other.opt_.first, T(other.opt_.second)}}
+    : opt_(other.opt_.first ? Rep{true, T(other.opt_.second)}
+                            : Rep{false, T{}})
   {
   }
 
   template <typename U>
   optional(optional<U> &&other) KANON_NOEXCEPT
-    : opt_{Rep{other.opt_.first, T(std::move(other.opt_.second))}}
+    : opt_(other.opt_.first ? Rep{true, T(std::move(other.opt_.second))}
+                            : Rep{false, T{}})
   {
   }
 
@@ -100,7 +102,8 @@ class optional {
   template <typename U>
   optional &operator=(optional<U> const &other)
   {
-    opt_ = Rep{other.opt_.first, T(other.opt_.second)};
+    opt_ = other.opt_.first ? Rep{true, T(other.opt_.second)}
+                            : Rep{false, T{}};
 
     return *this;
   }
@@ -108,7 +111,8 @@ class optional {
   template <typename U>
   optional &operator=(optional<U> &&other) KANON_NOEXCEPT
   {
-    opt_ = Rep{other.opt_.first, T(std::move(other.opt_.second))};
+    opt_ = other.opt_.first ? Rep{true, T(std::move(other.opt_.second))}
+                            : Rep{false, T{}};
 
     return *this;
   }
-- 
2.43.0


From fe5fddbf7fae774b24dc951135b3a701b857e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 114/131] fix: ChunkStream accepts BackUp(0) of an empty
 message

---
 kanon/protobuf/chunk_stream.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/protobuf/chunk_stream.cc b/kanon/protobuf/chunk_stream.cc
index ee133d0..c17d28a 100644
--- a/kanon/protobuf/chunk_stream.cc
+++ b/kanon/protobuf/chunk_stream.cc
@@ -18,6 +18,8 @@ bool ChunkStream::Next(void **data, int *size)
 
 void ChunkStream::BackUp(int count)
 {
+  // protobuf backs up nothing without Next() for an empty message
+  if (count == 0) return;
   auto last_chunk = chunk_list.GetLastChunk();
   last_chunk->AdvanceWrite(-count);
 }
-- 
2.43.0


From 06318b1fd59dfd2bf252a93fe785a1f5fe21c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 115/131] fix: protobuf codec accepts every message up to its
 limit, whatever follows it

---
 kanon/protobuf/generic_pb_codec.cc | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/kanon/protobuf/generic_pb_codec.cc b/kanon/protobuf/generic_pb_codec.cc
index 1fed446..fcdf404 100644
--- a/kanon/protobuf/generic_pb_codec.cc
+++ b/kanon/protobuf/generic_pb_codec.cc
@@ -108,15 +108,6 @@ void GenericPbCodec::OnMessage(TcpConnectionPtr const &conn, Buffer &buffer,
    * 3.2 Otherwise, call message_callback_
    */
 
-  // Discard too large buffer early to avoid making memory overflow
-  if (buffer.GetReadableSize() >= kMaxMessageLength) {
-    LOG_WARN_KANON_PROTOBUF << "A single message too large, just discard";
-    buffer.AdvanceAll();
-    buffer.Shrink();
-    error_callback_(conn, kInvalidLength);
-    return;
-  }
-
   // Use while here since maybe not just one message in buffer
   while (buffer.GetReadableSize() >= kMinMessageLength) {
     const uint32_t size_header = buffer.GetReadBegin32();
-- 
2.43.0


From 966e0d4e3b6915b3571f2c08ebc155475167b49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 116/131] fix: RpcChannel of a client starts with defined ids
 and without services

---
 kanon/rpc/rpc_channel.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index d5bf897..445dc01 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -21,12 +21,17 @@ using namespace kanon::protobuf::rpc;
 
 static char const *GetRpcErrorString(RpcMessage::ErrorCode error) noexcept;
 
-RpcChannel::RpcChannel() = default;
+RpcChannel::RpcChannel()
+  : id_(0)
+  , services_(nullptr)
+{
+}
 
 // Constructor does not recommended to do many thing except for initial work
 RpcChannel::RpcChannel(TcpConnectionPtr const &conn)
   : id_(0)
   , codec_()
+  , services_(nullptr)
 {
   SetConnection(conn);
 }
@@ -264,10 +269,14 @@ void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
   RpcMessage::ErrorCode error_code = RpcMessage::kNoError;
   if (message->has_request() && message->has_service() && message->has_method())
   {
-    const auto it = services_->find(message->service());
+    // A channel of client has no services
+    Service *service = nullptr;
+    if (services_) {
+      const auto it = services_->find(message->service());
+      if (it != services_->end()) service = it->second;
+    }
 
-    if (it != services_->end()) {
-      Service *service = it->second;
+    if (service) {
       MethodDescriptor const *method =
           service->GetDescriptor()->FindMethodByName(message->method());
 
-- 
2.43.0


From 7a623d6fc86b071ee3d1c199db812b2058c5b63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 117/131] fix: RpcChannel never gives one id to calls of two
 threads

---
 kanon/rpc/rpc_channel.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index 445dc01..38c12b7 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -55,9 +55,8 @@ void RpcChannel::CallMethod(MethodDescriptor const *method,
   RpcController *contr = kanon::down_pointer_cast<RpcController>(controller);
 
   RpcMessage message;
-  auto id = id_.load(std::memory_order_relaxed);
-  message.set_id(id);
-  id_.fetch_add(1, std::memory_order_relaxed);
+  // The id must be unique even if there are multiple callers
+  message.set_id(id_.fetch_add(1, std::memory_order_relaxed));
 
   message.set_type(RpcMessage::kRequest);
   message.set_request(request->SerializeAsString());
-- 
2.43.0


From 16a2378acb748d71f526253a9b31065df05182af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 118/131] fix: RpcChannel::CallMethod() takes the deadline from
 the controller at once and accepts no controller

---
 kanon/rpc/rpc_channel.cc | 21 ++++++++++++---------
 kanon/rpc/rpc_channel.h  |  2 +-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index 38c12b7..593bfd4 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -52,7 +52,9 @@ void RpcChannel::CallMethod(MethodDescriptor const *method,
                             Message const *request, Message *response,
                             Closure *done)
 {
-  RpcController *contr = kanon::down_pointer_cast<RpcController>(controller);
+  RpcController *contr =
+      controller ? kanon::down_pointer_cast<RpcController>(controller)
+                 : nullptr;
 
   RpcMessage message;
   // The id must be unique even if there are multiple callers
@@ -65,13 +67,17 @@ void RpcChannel::CallMethod(MethodDescriptor const *method,
   message.set_method(method->name());
   message.set_service(method->service()->full_name());
 
+  // The controller is optional and it may be destroyed by the user once this
+  // function returns, so don't access it in the loop
+  if (contr && contr->deadline() != INVALID_DEADLINE)
+    message.set_deadline(contr->deadline());
+
   conn_->GetLoop()->RunInLoop(std::bind(&RpcChannel::SendRpcRequest, this,
-                                        std::move(message), response, done,
-                                        contr));
+                                        std::move(message), response, done));
 }
 
 void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
-                                Closure *done, RpcController *controller)
+                                Closure *done)
 {
   // Must insert <id, outstanding_call> into outstanding_calls_ first
   // There are maybe server response reach but outstanding_call is not
@@ -91,18 +97,15 @@ void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
                  "Notifiction(done is NULL) no need to set response");
   }
 
-  if (controller->deadline() != INVALID_DEADLINE)
-    message.set_deadline(controller->deadline());
-
   codec_.Send(conn_, &message);
 
-  if (controller->deadline() != INVALID_DEADLINE) {
+  if (message.has_deadline()) {
     auto id = message.id();
     conn_->GetLoop()->RunAt(
         [this, id]() {
           outstanding_calls_.erase(id);
         },
-        TimeStamp((int64_t)controller->deadline() * 1000));
+        TimeStamp((int64_t)message.deadline() * 1000));
   }
 }
 
diff --git a/kanon/rpc/rpc_channel.h b/kanon/rpc/rpc_channel.h
index 1124e24..61ad724 100644
--- a/kanon/rpc/rpc_channel.h
+++ b/kanon/rpc/rpc_channel.h
@@ -66,7 +66,7 @@ class RpcChannel
    * since c++11 don't allow variable initialization in capture list
    */
   void SendRpcRequest(RpcMessage &message, PROTOBUF::Message *response,
-                      PROTOBUF::Closure *done, RpcController *controller);
+                      PROTOBUF::Closure *done);
   /**
    * This call the Service::CallMethod(), the logic is
    * fill the response according to the request
-- 
2.43.0


From ac915b03f910baedbcb2258d31fe499a603837e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 119/131] fix: the timer of an rpc deadline may fire after the
 channel is gone

---
 kanon/rpc/rpc_channel.cc | 23 ++++++++++++++---------
 kanon/rpc/rpc_channel.h  |  6 +++++-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index 593bfd4..e91d5ae 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -24,6 +24,7 @@ static char const *GetRpcErrorString(RpcMessage::ErrorCode error) noexcept;
 RpcChannel::RpcChannel()
   : id_(0)
   , services_(nullptr)
+  , outstanding_calls_(std::make_shared<OutstandingCallMap>())
 {
 }
 
@@ -32,6 +33,7 @@ RpcChannel::RpcChannel(TcpConnectionPtr const &conn)
   : id_(0)
   , codec_()
   , services_(nullptr)
+  , outstanding_calls_(std::make_shared<OutstandingCallMap>())
 {
   SetConnection(conn);
 }
@@ -91,7 +93,7 @@ void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
   if (done) {
     // outstanding_calls_.emplace_hint(outstanding_calls_.end(), message.id(),
     //                                 OutstandingCall{response, done});
-    outstanding_calls_.emplace(message.id(), OutstandingCall{response, done});
+    outstanding_calls_->emplace(message.id(), OutstandingCall{response, done});
   } else {
     KANON_ASSERT(!response,
                  "Notifiction(done is NULL) no need to set response");
@@ -99,11 +101,14 @@ void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
 
   codec_.Send(conn_, &message);
 
-  if (message.has_deadline()) {
+  if (done && message.has_deadline()) {
     auto id = message.id();
+    // The channel may be destroyed before the deadline
+    std::weak_ptr<OutstandingCallMap> weak_calls(outstanding_calls_);
     conn_->GetLoop()->RunAt(
-        [this, id]() {
-          outstanding_calls_.erase(id);
+        [weak_calls, id]() {
+          auto calls = weak_calls.lock();
+          if (calls) calls->erase(id);
         },
         TimeStamp((int64_t)message.deadline() * 1000));
   }
@@ -196,18 +201,18 @@ void RpcChannel::OnRpcMessageForResponse(TcpConnectionPtr const &conn,
     // insert the outstanding_calls in the loop.
     OutstandingCall outstanding_call{nullptr, nullptr};
 
-    auto it = outstanding_calls_.find(id);
+    auto it = outstanding_calls_->find(id);
 
-    // KANON_ASSERT(it != outstanding_calls_.end(),
+    // KANON_ASSERT(it != outstanding_calls_->end(),
     //              "The outstanding_call must be setted before the RpcMessage "
     //              "on_message Callback");
 
     // If deadline is setted, may the done is erased
-    if (it == outstanding_calls_.end()) {
+    if (it == outstanding_calls_->end()) {
       return;
     }
     outstanding_call = it->second;
-    outstanding_calls_.erase(it);
+    outstanding_calls_->erase(it);
 
     // done and response is setted by client
     KANON_ASSERT(outstanding_call.response != nullptr,
@@ -231,7 +236,7 @@ void RpcChannel::OnRpcMessageForResponse(TcpConnectionPtr const &conn,
     outstanding_call.done->Run();
   } else {
     // Response with error setted
-    const auto n = outstanding_calls_.erase(message->id());
+    const auto n = outstanding_calls_->erase(message->id());
     KANON_UNUSED(n);
     assert(n == 1);
 
diff --git a/kanon/rpc/rpc_channel.h b/kanon/rpc/rpc_channel.h
index 61ad724..8a12258 100644
--- a/kanon/rpc/rpc_channel.h
+++ b/kanon/rpc/rpc_channel.h
@@ -2,6 +2,7 @@
 #define KANON_KRPC_RPCHANNLE_H_
 
 #include <atomic>
+#include <memory>
 #include <unordered_map>
 
 // ProtobufCodec<> need class definition for following reasons:
@@ -131,7 +132,10 @@ class RpcChannel
    * response and done is filled by client
    * ! Used for client side
    */
-  std::unordered_map<IdType, OutstandingCall> outstanding_calls_;
+  using OutstandingCallMap = std::unordered_map<IdType, OutstandingCall>;
+
+  /** Shared with the timers of the deadline */
+  std::shared_ptr<OutstandingCallMap> outstanding_calls_;
 
   std::unordered_map<IdType, OutstandingCall> canceling_calls_;
 };
-- 
2.43.0


From f4c8cd5aeeea283cba467c62dadf3be598fc042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 120/131] fix: far rpc deadlines do not overflow into the past

---
 kanon/rpc/rpc_channel.cc   | 4 +++-
 kanon/rpc/rpc_controller.h | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index e91d5ae..a48170f 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -101,7 +101,9 @@ void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
 
   codec_.Send(conn_, &message);
 
-  if (done && message.has_deadline()) {
+  // TimeStamp can't represent a deadline exceeds kMaxDeadline(never reached)
+  constexpr uint64_t kMaxDeadline = INT64_MAX / 1000;
+  if (done && message.has_deadline() && message.deadline() <= kMaxDeadline) {
     auto id = message.id();
     // The channel may be destroyed before the deadline
     std::weak_ptr<OutstandingCallMap> weak_calls(outstanding_calls_);
diff --git a/kanon/rpc/rpc_controller.h b/kanon/rpc/rpc_controller.h
index a1b099b..58a1d11 100644
--- a/kanon/rpc/rpc_controller.h
+++ b/kanon/rpc/rpc_controller.h
@@ -38,7 +38,10 @@ class RpcController : public ::google::protobuf::RpcController {
 
   KANON_INLINE void SetTimeout(uint64_t timeout) KANON_NOEXCEPT
   {
-    deadline_ = TimeStamp::Now().GetMilliseconds() + timeout;
+    const uint64_t now = TimeStamp::Now().GetMilliseconds();
+    // Avoid overflow
+    deadline_ = timeout < INVALID_DEADLINE - now ? now + timeout
+                                                 : INVALID_DEADLINE;
   }
 
   KANON_INLINE void SetDeadline(TimeStamp dead_line) KANON_NOEXCEPT
-- 
2.43.0


From 979880346efad48c6dd20505bb3895802659e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 121/131] fix: error, malformed and unsolicited rpc responses
 do not end the process

---
 kanon/rpc/rpc_channel.cc | 97 ++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 54 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index a48170f..245b941 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -182,70 +182,59 @@ void RpcChannel::OnRpcMessageForResponse(TcpConnectionPtr const &conn,
   KANON_UNUSED(stamp);
   /**
    * Receive the response from the RpcServer
-   * 0. Check error, response
-   * 0.1. If error is setted, log error and abort
    * 1. Get the response and done callback from the outstanding_calls_ and
    * remove it
-   * 2. Fill(/Parse) the response
-   * 3. Call done with the response, it will process the response
+   * 2. Check error, response
+   * 2.1. If error is setted or there is no valid response, log error and drop
+   * the call
+   * 3. Fill(/Parse) the response
+   * 4. Call done with the response, it will process the response
+   *
+   * The message is sent by the peer, can't assume it is expected or valid.
    */
-  if (!message->has_error()) {
-    // The response must be setted in RpcServer
-    KANON_ASSERT(message->has_response(),
-                 "Server Internal error or unknown error");
-
-    const uint64_t id = message->id();
-
-    KANON_ASSERT(id <= id_, "The id in response should be not greater than the "
-                            "id_ maintained by client");
-
-    // Thread safe since the CallMethod()
-    // insert the outstanding_calls in the loop.
-    OutstandingCall outstanding_call{nullptr, nullptr};
+  const uint64_t id = message->id();
 
-    auto it = outstanding_calls_->find(id);
-
-    // KANON_ASSERT(it != outstanding_calls_->end(),
-    //              "The outstanding_call must be setted before the RpcMessage "
-    //              "on_message Callback");
-
-    // If deadline is setted, may the done is erased
-    if (it == outstanding_calls_->end()) {
-      return;
-    }
-    outstanding_call = it->second;
-    outstanding_calls_->erase(it);
+  // Thread safe since the CallMethod()
+  // insert the outstanding_calls in the loop.
+  auto it = outstanding_calls_->find(id);
 
-    // done and response is setted by client
-    KANON_ASSERT(outstanding_call.response != nullptr,
-                 "response must be setted by client");
-    KANON_ASSERT(outstanding_call.done != nullptr,
-                 "done must be setted by client");
+  // If deadline is setted, may the done is erased
+  // Or nobody wait it
+  if (it == outstanding_calls_->end()) {
+    LOG_DEBUG_KANON_PROTOBUF_RPC << "There is no outstanding call, id=" << id;
+    return;
+  }
 
-    // done->Run() will delete this itself
-    // i.e. self-delete
-    // std::unique_ptr<Closure> done_wrapper(outstanding_call.done);
+  const OutstandingCall outstanding_call = it->second;
+  outstanding_calls_->erase(it);
 
-    const auto res =
-        outstanding_call.response->ParseFromString(message->response());
-    KANON_UNUSED(res);
+  // done and response is setted by client
+  KANON_ASSERT(outstanding_call.response != nullptr,
+               "response must be setted by client");
+  KANON_ASSERT(outstanding_call.done != nullptr,
+               "done must be setted by client");
 
-    KANON_ASSERT(
-        res, "There are some error occurred in the parse of  response contents"
-             "Server error or probobuf internal error");
+  if (message->has_error() && message->error() != RpcMessage::kNoError) {
+    LOG_ERROR_KANON_PROTOBUF_RPC << "Rpc error message from server: "
+                                 << GetRpcErrorString(message->error());
+    return;
+  }
 
-    // done manage the lifetime of response
-    outstanding_call.done->Run();
-  } else {
-    // Response with error setted
-    const auto n = outstanding_calls_->erase(message->id());
-    KANON_UNUSED(n);
-    assert(n == 1);
-
-    // Since this error is logic error(i.e. ensure it don't happened)
-    LOG_FATAL << "Rpc error message from server: "
-              << GetRpcErrorString(message->error());
+  if (!message->has_response() ||
+      !outstanding_call.response->ParseFromString(message->response()))
+  {
+    LOG_ERROR_KANON_PROTOBUF_RPC << "Rpc error: "
+                                 << GetRpcErrorString(
+                                        RpcMessage::kInvalidResponse);
+    return;
   }
+
+  // done->Run() will delete this itself
+  // i.e. self-delete
+  // std::unique_ptr<Closure> done_wrapper(outstanding_call.done);
+  //
+  // done manage the lifetime of response
+  outstanding_call.done->Run();
 }
 
 void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
-- 
2.43.0


From 8c17191b20846ada6bed00fa9fef20f08fe64383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 122/131] fix: malformed rpc request leaked its messages

---
 kanon/rpc/rpc_channel.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index 245b941..ff1ba74 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -310,6 +310,9 @@ void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
               PROTOBUF::NewCallback(this, &RpcChannel::SendRpcResponse,
                                     response, message->id()));
         } else {
+          // Nobody manage them
+          delete request;
+          delete response;
           error_code = RpcMessage::kInvalidRequest;
         }
       } else {
-- 
2.43.0


From a63c314579a0bf8e47bc315c6e665f4b185bc7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 123/131] fix: an rpc method may complete after its connection
 is gone, and its controller is released

---
 kanon/rpc/rpc_channel.cc | 29 +++++++++++++++++++++--------
 kanon/rpc/rpc_channel.h  |  6 +++++-
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index ff1ba74..bd6d625 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -116,18 +116,25 @@ void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
   }
 }
 
-void RpcChannel::SendRpcResponse(Message *response, uint64_t id)
+void RpcChannel::SendRpcResponse(TcpConnectionPtr const &conn,
+                                 Message *response, RpcController *controller,
+                                 uint64_t id)
 {
   // The method is completed, fill RpcMessae and send
-  RpcMessage message;
-  message.set_id(id);
-  message.set_response(response->SerializeAsString());
-  message.set_type(RpcMessage::kResponse);
+  if (conn) {
+    RpcMessage message;
+    message.set_id(id);
+    message.set_response(response->SerializeAsString());
+    message.set_type(RpcMessage::kResponse);
+
+    Codec codec;
+    codec.Send(conn, &message);
+  }
 
-  codec_.Send(conn_, &message);
   // The response is new by Service::GetResponsePrototype().
   // Must delete it to avoid memory leak.
   delete response;
+  delete controller;
 }
 
 static char const *GetRpcErrorString(RpcMessage::ErrorCode error) noexcept
@@ -305,10 +312,16 @@ void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
             controller->SetDeadline(message->deadline());
             LOG_DEBUG_KANON_PROTOBUF_RPC << "deadline=" << controller->deadline() << " Ms";
           }
+          // The method may complete after the connection is down(i.e. the
+          // channel is destroyed), so don't access this in the callback.
+          // Also don't prolong the lifetime of the connection.
+          std::weak_ptr<TcpConnection> weak_conn(conn);
+          auto id = message->id();
           service->CallMethod(
               method, controller, request, response,
-              PROTOBUF::NewCallback(this, &RpcChannel::SendRpcResponse,
-                                    response, message->id()));
+              NewCallable([weak_conn, response, controller, id]() {
+                SendRpcResponse(weak_conn.lock(), response, controller, id);
+              }));
         } else {
           // Nobody manage them
           delete request;
diff --git a/kanon/rpc/rpc_channel.h b/kanon/rpc/rpc_channel.h
index 8a12258..b9b818c 100644
--- a/kanon/rpc/rpc_channel.h
+++ b/kanon/rpc/rpc_channel.h
@@ -96,8 +96,12 @@ class RpcChannel
   /**
    * Fill response and send
    * Used for server side
+   * \param conn NULL if the connection is gone
+   * \note This may be called after the channel is destroyed
    */
-  void SendRpcResponse(PROTOBUF::Message *response, uint64_t id);
+  static void SendRpcResponse(TcpConnectionPtr const &conn,
+                              PROTOBUF::Message *response,
+                              RpcController *controller, uint64_t id);
 
  private:
   TcpConnectionPtr conn_;
-- 
2.43.0


From c05751976fd51129d1543fe70d773b525c9e649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 124/131] fix: the services of RpcServer outlive the
 connections of its loops

---
 kanon/rpc/rpc_server.cc | 6 ++++--
 kanon/rpc/rpc_server.h  | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/kanon/rpc/rpc_server.cc b/kanon/rpc/rpc_server.cc
index f3829de..1c8a9c8 100644
--- a/kanon/rpc/rpc_server.cc
+++ b/kanon/rpc/rpc_server.cc
@@ -8,11 +8,13 @@ using namespace kanon::protobuf::rpc;
 RpcServer::RpcServer(EventLoop *loop, InetAddr const &addr, StringArg name,
                      bool reuseport)
   : TcpServer(loop, addr, name, reuseport)
+  , services_(std::make_shared<RpcChannel::ServiceMap>())
 {
-  SetConnectionCallback([this](TcpConnectionPtr const &conn) {
+  auto services = services_;
+  SetConnectionCallback([services](TcpConnectionPtr const &conn) {
     if (conn->IsConnected()) {
       auto channel = new RpcChannel(conn);
-      channel->SetServices(services_);
+      channel->SetServices(*services);
       conn->SetContext(*channel);
     } else {
       auto p = AnyCast<RpcChannel>(conn->GetContext());
diff --git a/kanon/rpc/rpc_server.h b/kanon/rpc/rpc_server.h
index 96ea74f..24a5aff 100644
--- a/kanon/rpc/rpc_server.h
+++ b/kanon/rpc/rpc_server.h
@@ -22,12 +22,13 @@ public:
 
   inline void AddServices(PROTOBUF::Service* service);
 private:
-  RpcChannel::ServiceMap services_;
+  /** Shared with the connections since they may live longer than this */
+  std::shared_ptr<RpcChannel::ServiceMap> services_;
 };
 
 void RpcServer::AddServices(PROTOBUF::Service* service)
 {
-  services_.emplace(service->GetDescriptor()->full_name(), service);
+  services_->emplace(service->GetDescriptor()->full_name(), service);
 }
 
 } // namespace rpc
-- 
2.43.0


From a3aca12bca9f94ea5d6ca3f218ebc2eecfa9af94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 125/131] fix: merge the forward list with itself is no-op

---
 kanon/algo/forward_list/forward_list_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index c24e9bf..0bbb807 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -292,7 +292,8 @@ FORWARD_LIST_TEMPLATE_LIST
 template <typename BinaryPred>
 void FORWARD_LIST_TEMPLATE::merge(Self &list, BinaryPred pred)
 {
-  if (list.empty()) return;
+  // Merge with itself is no-op
+  if (&list == this || list.empty()) return;
 
   BaseNode *beg = &header_;
   BaseNode *obeg = &list.header_;
-- 
2.43.0


From d926933a2d4e0c01e7aefcc1ca75dcd53190e54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 126/131] fix: the value passed to remove() of forward list can
 be an element of it

---
 kanon/algo/forward_list/forward_list_impl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 0bbb807..ed51af8 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -371,11 +371,14 @@ template <typename UnaryPred>
 auto FORWARD_LIST_TEMPLATE::remove_if(UnaryPred pred) -> SizeType
 {
   SizeType count = 0;
+  // The value to be removed maybe is an element of this list,
+  // it can be dropped only when all elements are checked
+  Self removed;
 
   auto it = search_before(pred);
   while (it != end()) {
     ++count;
-    erase_after(it);
+    removed.push_front(extract_after_node(it));
     it = search_before(pred, it);
   }
 
-- 
2.43.0


From 34bfc6d5eb93429c5cc33e502296e04c43f0d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:41 +0000
Subject: [PATCH 127/131] fix: debug print of empty chunk list

---
 kanon/buffer/chunk_list.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index 97d593d..9cd4e44 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -229,10 +229,10 @@ auto ChunkList::DebugPrint() -> void
   if (!buffers_.empty()) {
     printf("Chunk Header info: %zu %zu %zu\n", (size_t)iter->read_index_,
            (size_t)iter->write_index_, (size_t)iter->GetMaxSize());
+    ++iter;
   }
 
-  size_t i = 1;
-  for (++iter; buffers_.end() != iter; ++iter, ++i) {
+  for (size_t i = 1; buffers_.end() != iter; ++iter, ++i) {
     printf("Chunk[%zu]: %zu %zu %zu\n", i, (size_t)iter->read_index_,
            (size_t)iter->write_index_, (size_t)iter->GetMaxSize());
   }
-- 
2.43.0


From 1b03fd43225adfce7c5cca99b1729231c39fe020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:34 +0000
Subject: [PATCH 128/131] fix: client destroyed while its connection is busy
 closes it when it is no longer used

---
 kanon/net/tcp_client.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index 6a03e69..c9f5103 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -95,6 +95,11 @@ void TcpClient::CheckReleasedConnection(TcpConnectionPtr const &conn,
   } else if (rounds > 0) {
     conn->GetLoop()->QueueToLoop(
         std::bind(&TcpClient::CheckReleasedConnection, conn, rounds - 1));
+  } else {
+    // The user holds it or the functors of it queue new functors, look again
+    // later
+    conn->GetLoop()->RunAfter(
+        std::bind(&TcpClient::CheckReleasedConnection, conn, 0), 0.1);
   }
 }
 
-- 
2.43.0


From 8908f607afae119ebc1bc677cac27d3e653ddb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:35 +0000
Subject: [PATCH 129/131] fix: wake-up lost when destroying a finished task
 queues another one

---
 kanon/net/event_loop.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 18500cc..8598ce3 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -281,6 +281,10 @@ void EventLoop::CallFunctors()
     }
   }
 
+  // The objects owned by the functors may queue functors in destructor,
+  // the next poll must not block then.
+  functors.clear();
+
   calling_functors_ = false;
 }
 
-- 
2.43.0


From 85f30b6eca5cd6f90e8f8008452ca7f993d780c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:35 +0000
Subject: [PATCH 130/131] fix: timer freed twice when its callback's objects
 cancel it as the loop is destroyed

---
 kanon/linux/net/timer/timer_queue.cc | 18 +++++++++++++++---
 kanon/linux/net/timer/timer_queue.h  |  3 +++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 7eb6969..291aea6 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -125,13 +125,25 @@ TimerQueue::TimerQueue(EventLoop *loop)
 
 TimerQueue::~TimerQueue() KANON_NOEXCEPT
 {
-  for (auto &seq_timer : active_timers_) {
-    delete seq_timer.second;
-  }
+  ClearTimers();
 
   ::close(timer_channel_->GetFd());
 }
 
+void TimerQueue::ClearTimers() KANON_NOEXCEPT
+{
+  // The object owned by the callback of a timer may cancel or add timers in
+  // destructor, so forget the timer before destroy it.
+  while (!active_timers_.empty()) {
+    const auto iter = active_timers_.begin();
+    const auto timer = iter->second;
+
+    timers_.erase({timer, iter->first});
+    active_timers_.erase(iter);
+    delete timer;
+  }
+}
+
 TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
                              double interval)
 {
diff --git a/kanon/linux/net/timer/timer_queue.h b/kanon/linux/net/timer/timer_queue.h
index ace0fab..47b13a8 100644
--- a/kanon/linux/net/timer/timer_queue.h
+++ b/kanon/linux/net/timer/timer_queue.h
@@ -25,6 +25,9 @@ class TimerQueue : public ITimerQueuePlatform {
 
   virtual void CancelTimer(TimerId const id) override;
 
+  /** Destroy all timers without calling them */
+  void ClearTimers() KANON_NOEXCEPT;
+
  private:
   /*
    * Don't use std::unique_ptr as key before C++14
-- 
2.43.0


From 7bb8666c0943aedfe3e8148622535d4885c5f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:35 +0000
Subject: [PATCH 131/131] fix: tasks and timers left over are destroyed while
 the loop is still complete

---
 kanon/net/event_loop.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 8598ce3..b4e6cd6 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -147,6 +147,19 @@ EventLoop::~EventLoop()
     MutexGuard guard(lock_);
   }
 
+#ifdef KANON_ON_UNIX
+  // The timers and functors that are never called may own objects which use
+  // the loop in destructor, so destroy them when the loop is complete.
+  std::vector<FunctorCallback> functors;
+  do {
+    timer_queue_->ClearTimers();
+    functors.clear();
+
+    MutexGuard guard(lock_);
+    functors.swap(functors_);
+  } while (!functors.empty());
+#endif
+
 #ifdef KANON_ON_UNIX
   ::close(ev_channel_->GetFd());
 #endif
-- 
2.43.0

