From aa9497dd5b3af46e0a357c3695b14ff768783802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 01/24] fix: copy the elements when a ChunkedList is copied

ResourceUser's copy constructor yielded an empty access list, so every
update_properties() was rejected as an extension of the task's accesses.
---
 redGrapes/util/chunked_list.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 84629df..17cfc30 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -25,6 +25,7 @@
 #include <limits>
 #include <memory>
 #include <optional>
+#include <vector>
 
 namespace redGrapes
 {
@@ -503,7 +504,15 @@ namespace redGrapes
 
         ChunkedList(Allocator&& alloc, ChunkedList const& other) : ChunkedList(std::move(alloc))
         {
-            spdlog::error("copy construct ChunkedList!!");
+            /* elements can only be visited from newest to oldest,
+             * but must be inserted in their original order
+             */
+            std::vector<T> items;
+            for(auto it = other.crbegin(); it != other.crend(); ++it)
+                items.push_back(*it);
+
+            for(auto it = items.rbegin(); it != items.rend(); ++it)
+                push(*it);
         }
 
         /* decrement item_count and in case all items of this chunk are deleted,
-- 
2.43.0


From a097961172787a3c040dc16b3a069098a5751904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 02/24] fix: refuse arena requests which no chunk can hold, and
 align all blocks

---
 redGrapes/memory/chunked_bump_alloc.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 20a6e87..2b51240 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -17,6 +17,7 @@
 #include <boost/core/demangle.hpp>
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <atomic>
 #include <cstddef>
 #include <cstdint>
@@ -82,9 +83,13 @@ namespace redGrapes
             Block allocate(std::size_t n = 1) noexcept
             {
                 TRACE_EVENT("Allocator", "ChunkedBumpAlloc::allocate()");
-                size_t alloc_size = roundup_to_poweroftwo(n);
+                // space which is left for blocks in an empty chunk
+                size_t const chunk_capacity = bump_allocators.get_chunk_capacity()
+                                              - bump_allocators.get_controlblock_size() - sizeof(BumpAllocator);
 
-                size_t const chunk_capacity = bump_allocators.get_chunk_capacity();
+                // every block is suitably aligned for any fundamental type
+                size_t const alloc_size
+                    = n <= chunk_capacity ? roundup_to_poweroftwo(std::max(n, alignof(std::max_align_t))) : n;
 
                 if(alloc_size <= chunk_capacity)
                 {
-- 
2.43.0


From f05afd5b2807754029221f32e65088dfba47940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 03/24] fix: give back the whole chunk, not only its control
 block

---
 redGrapes/util/atomic_list.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index f67cc00..bc3dbe3 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -104,14 +104,19 @@ namespace redGrapes
 
                 Allocator alloc;
                 T* ptr;
+                size_t n_bytes;
 
-                StaticAlloc(Allocator alloc, size_t n_bytes) : alloc(alloc), ptr((T*) alloc.allocate(n_bytes))
+                StaticAlloc(Allocator alloc, size_t n_bytes)
+                    : alloc(alloc)
+                    , ptr((T*) alloc.allocate(n_bytes))
+                    , n_bytes(n_bytes)
                 {
                 }
 
                 template<typename U>
                 constexpr StaticAlloc(StaticAlloc<U> const& other) noexcept : alloc(other.alloc)
                                                                             , ptr((T*) other.ptr)
+                                                                            , n_bytes(other.n_bytes)
                 {
                 }
 
@@ -122,7 +127,8 @@ namespace redGrapes
 
                 void deallocate(T* p, std::size_t n) noexcept
                 {
-                    alloc.deallocate(Block{.ptr = (uintptr_t) p, .len = sizeof(T) * n});
+                    // give back everything that was allocated, not only the part known to the shared_ptr
+                    alloc.deallocate(Block{.ptr = (uintptr_t) p, .len = n_bytes});
                 }
             };
 
-- 
2.43.0


From 036385a91e03205d6fe5067c70f4fdd20b1da34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 04/24] fix: never give back an arena chunk in which a block is
 being allocated

---
 redGrapes/memory/bump_allocator.cpp     |  9 ++++++---
 redGrapes/memory/chunked_bump_alloc.hpp | 23 +++++++++++++++--------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/redGrapes/memory/bump_allocator.cpp b/redGrapes/memory/bump_allocator.cpp
index ba77e2a..3ee19ac 100644
--- a/redGrapes/memory/bump_allocator.cpp
+++ b/redGrapes/memory/bump_allocator.cpp
@@ -57,14 +57,17 @@ namespace redGrapes
 
         Block BumpAllocator::allocate(size_t n_bytes)
         {
+            // register first, so that this chunk never looks unused while the new block already exists
+            count++;
+
             uintptr_t addr = next_addr.fetch_sub(n_bytes) - n_bytes;
             if(addr >= lower_limit)
-            {
-                count++;
                 return Block{addr, n_bytes};
-            }
             else
+            {
+                count--;
                 return Block::null();
+            }
         }
 
         uint16_t BumpAllocator::deallocate(Block blk)
diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 2b51240..14fde24 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -106,7 +106,16 @@ namespace redGrapes
 
                             // chunk is full, create a new one
                             if(!blk)
+                            {
                                 bump_allocators.allocate_item();
+
+                                // all of its blocks might be deallocated already
+                                if(chunk->full() && chunk->empty())
+                                {
+                                    bump_allocators.erase(chunk);
+                                    bump_allocators.rbegin().optimize();
+                                }
+                            }
                         }
                         // no chunk exists, create a new one
                         else
@@ -141,17 +150,15 @@ namespace redGrapes
                     if(it->owns(blk))
                     {
                         /* if no allocations remain in this chunk
-                         * and this chunk is not `head`,
-                         * remove this chunk
+                         * and this chunk is exhausted, so that no
+                         * allocation can succeed anymore, remove this chunk.
                          */
-                        if(it->deallocate(blk) == 1)
+                        it->deallocate(blk);
+                        if(it->full() && it->empty())
                         {
                             SPDLOG_TRACE("ChunkedBumpAlloc: erase chunk");
-                            if(it->full())
-                            {
-                                bump_allocators.erase(it);
-                                prev.optimize();
-                            }
+                            bump_allocators.erase(it);
+                            prev.optimize();
                         }
 
                         return;
-- 
2.43.0


From 8e85c2663e52f78fc332e11ea2f2c75b5c3fbe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 05/24] fix: AtomicBitfield returns the previous value of every
 bit and leaves out the start position

---
 redGrapes/dispatch/thread/worker_pool.hpp |  3 ++-
 redGrapes/util/bitfield.hpp               | 13 ++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/redGrapes/dispatch/thread/worker_pool.hpp b/redGrapes/dispatch/thread/worker_pool.hpp
index d8acefa..1248e66 100644
--- a/redGrapes/dispatch/thread/worker_pool.hpp
+++ b/redGrapes/dispatch/thread/worker_pool.hpp
@@ -87,7 +87,8 @@ namespace redGrapes
                     return worker_state.template probe_by_value<T, F>(
                         std::move(f),
                         expected_worker_state,
-                        start_worker_idx);
+                        start_worker_idx,
+                        exclude_start);
                 }
 
                 /*!
diff --git a/redGrapes/util/bitfield.hpp b/redGrapes/util/bitfield.hpp
index 716f42a..3b404de 100644
--- a/redGrapes/util/bitfield.hpp
+++ b/redGrapes/util/bitfield.hpp
@@ -37,7 +37,7 @@ namespace redGrapes
         inline bool set(unsigned idx, bool new_value)
         {
             __INDEX_CALC(idx, chunk_idx, k, mask)
-            unsigned old_val;
+            uint64_t old_val;
 
             switch(new_value)
             {
@@ -79,17 +79,16 @@ namespace redGrapes
             bool exclude_start = true)
         {
             uint64_t start_field_idx = start_idx / bitfield_len;
-            uint64_t first_mask = (uint64_t(-1) << (start_idx % bitfield_len));
-            uint64_t second_mask = ~first_mask;
+            uint64_t second_mask = (uint64_t(-1) << (start_idx % bitfield_len));
+            uint64_t first_mask = ~second_mask;
+
+            if(exclude_start)
+                second_mask &= ~(uint64_t(1) << (start_idx % bitfield_len));
 
             /* probe second-half of current chunk
              */
             if(start_field_idx == state.size() - 1 && size() % bitfield_len != 0)
                 second_mask &= (uint64_t(1) << (size() % bitfield_len)) - 1;
-
-            if(exclude_start)
-                second_mask &= ~(uint64_t(1) << (start_idx % bitfield_len));
-
             if(auto x = probe_chunk_by_value<T>(start_field_idx, second_mask, expected_value, f))
                 return x;
 
-- 
2.43.0


From df9777e6a627507f0ee6a94df7e0a634b6c385a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 06/24] fix: ChunkedList distinguishes slots without an element
 from deleted elements

---
 redGrapes/util/chunked_list.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 17cfc30..5961d9a 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -121,7 +121,9 @@ namespace redGrapes
              * iter_offset = 0 means this item exists
              * iter_offset = 1 means previous item exists
              * ...
+             * iter_offset = uninitialized means this item does not exist yet
              */
+            static constexpr iter_offset_t uninitialized = std::numeric_limits<iter_offset_t>::max();
             std::atomic<iter_offset_t> iter_offset;
 
             /* counts the number of iterators pointing
@@ -138,7 +140,7 @@ namespace redGrapes
 
             Item()
                 // any item starts uninitialized
-                : iter_offset(1)
+                : iter_offset(uninitialized)
                 , refcount(0)
                 , storage(TrivialInit_t{})
             {
@@ -146,7 +148,8 @@ namespace redGrapes
 
             ~Item()
             {
-                release<false>();
+                if(iter_offset != uninitialized)
+                    release<false>();
             }
 
             /* initialize value of this item.
@@ -157,10 +160,10 @@ namespace redGrapes
              */
             T& operator=(T const& value)
             {
-                assert(iter_offset != 0);
+                assert(iter_offset == uninitialized);
                 assert(refcount == 0);
 
-                storage.value = value;
+                new(&storage.value) T(value);
 
                 /* here, item.value is now fully initalized,
                  * so allow iterators to access this item now.
@@ -210,7 +213,16 @@ namespace redGrapes
                         --refcount;
                 }
 
-                return off;
+                return off == uninitialized ? 1 : off;
+            }
+
+            /* distance to jump back from the successor of this item,
+             * if that is deleted
+             */
+            iter_offset_t successor_offset() const
+            {
+                iter_offset_t off = iter_offset.load();
+                return off == uninitialized ? 1 : off + 1;
             }
 
             /* decrement refcount and in case this
@@ -592,7 +604,7 @@ namespace redGrapes
 
                 // if we have a predecessor in this chunk, reuse their offset
                 else
-                    pos.item().iter_offset = (pos.get_item_ptr() - 1)->iter_offset + 1;
+                    pos.item().iter_offset = (pos.get_item_ptr() - 1)->successor_offset();
 
 
                 /* TODO: scan in other direction for deleted items too,
-- 
2.43.0


From ba25a1f4ff9a67a2ad831e8e71505f8c17c82de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 07/24] fix: ChunkedList destructs an element which is removed
 while an iterator acquires it

---
 redGrapes/util/chunked_list.hpp | 42 +++++++++++++--------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 5961d9a..87352eb 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -183,34 +183,26 @@ namespace redGrapes
             iter_offset_t acquire()
             {
                 iter_offset_t off = iter_offset.load();
-                refcount_t old_refcount = refcount.load();
-
-                if(off == 0 && old_refcount >= 0)
+                if(off == 0)
                 {
-                    old_refcount = refcount.fetch_add(1);
+                    /* take a reference, but only as long as the item data is not already destructed.
+                     */
+                    refcount_t old_refcount = refcount.load();
+                    while(old_refcount >= 0 && !refcount.compare_exchange_strong(old_refcount, old_refcount + 1))
+                        ;
+
+                    /* Only when `iter_offset` is still set to `0`
+                     * as initialized by `operator=`, the item still exists.
+                     * In case `off > 0`, some thread already called `remove()`
+                     * on this iterator position.
+                     */
                     off = iter_offset.load();
 
-                    if(old_refcount >= 0)
-                    {
-                        /* The item data is not already destructed,
-                         * but only when `iter_offset` is still set to `0`
-                         * as initialized by `operator=`, the item still exists.
-                         * In case `off > 0`, some thread already called `remove()`
-                         * on this iterator position.
-                         */
-
-                        /* keep others from falsely trying to acquire this item
-                         * if it is deleted already.
-                         */
-                        if(off != 0)
-                            --refcount;
-                    }
-                    else
-                        /* item data is already destructed.
-                         * just decrement refcount to keep others from trying to
-                         * acquire this item.
-                         */
-                        --refcount;
+                    /* drop the reference again if the item is deleted already.
+                     * If it was the last one, the item is destructed here.
+                     */
+                    if(off != 0 && old_refcount >= 0)
+                        release();
                 }
 
                 return off == uninitialized ? 1 : off;
-- 
2.43.0


From 62e0af4eeff2e67af83d233f5b6cee733f19b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 08/24] fix: iteration of a ChunkedList does not miss
 everything while a new chunk is still empty

---
 redGrapes/util/chunked_list.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 87352eb..c564651 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -519,6 +519,17 @@ namespace redGrapes
                 push(*it);
         }
 
+        /* the newest chunk may have been allocated just now,
+         * so that no slot in it is taken yet
+         */
+        typename memory::AtomicList<Chunk, Allocator>::MutBackwardIterator newest_used_chunk() const
+        {
+            auto c = chunks.rbegin();
+            while(c && c->next_item == c->first_item)
+                ++c;
+            return c;
+        }
+
         /* decrement item_count and in case all items of this chunk are deleted,
          * and this chunk is not `head`, delete the chunk too
          */
@@ -623,7 +634,7 @@ namespace redGrapes
 
         MutBackwardIterator rbegin() const
         {
-            auto c = chunks.rbegin();
+            auto c = newest_used_chunk();
             return MutBackwardIterator(c, (c != chunks.rend()) ? c->get_last_item() : nullptr);
         }
 
@@ -634,7 +645,7 @@ namespace redGrapes
 
         ConstBackwardIterator crbegin() const
         {
-            auto c = chunks.rbegin();
+            auto c = newest_used_chunk();
             return ConstBackwardIterator(c, (c != chunks.rend()) ? c->get_last_item() : nullptr);
         }
 
-- 
2.43.0


From 4d3980fe1095f790b0d38773b73f39462fa8dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 09/24] fix: read the link to the previous chunk atomically

---
 redGrapes/util/atomic_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index bc3dbe3..3885980 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -246,7 +246,7 @@ namespace redGrapes
                     if(c)
                     {
                         c->skip_deleted_prev();
-                        c = c->prev;
+                        c = std::atomic_load(&c->prev);
                     }
 
                     return *this;
-- 
2.43.0


From 13882a8ac234980ea0502b481bc2a13888d1e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 10/24] fix: a task with several accesses to one resource is
 one user of it

It was entered into the resource's list of users once per access, and thus
waited for itself forever when its accesses conflict with each other.
---
 redGrapes/resource/resource_user.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/redGrapes/resource/resource_user.cpp b/redGrapes/resource/resource_user.cpp
index 489bd05..1778810 100644
--- a/redGrapes/resource/resource_user.cpp
+++ b/redGrapes/resource/resource_user.cpp
@@ -39,7 +39,12 @@ namespace redGrapes
     {
         this->access_list.push(ra);
         std::shared_ptr<ResourceBase> r = ra.get_resource();
-        // unique_resources.erase(ResourceEntry{ r, r->users.end() });
+
+        // several accesses to the same resource make only one user of it
+        for(auto u = unique_resources.rbegin(); u != unique_resources.rend(); ++u)
+            if(u->resource == r)
+                return;
+
         unique_resources.push(ResourceUsageEntry{r, r->users.rend()});
     }
 
-- 
2.43.0


From 703ae20c02d3ec96593d65df254c9e6535b3d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 11/24] fix: a task does not finish before sub-tasks which are
 not initialised yet

The edge from a sub-task to its parent was added when the sub-task was
initialised. If the body of the parent returned before that, the parent
finished, and was destroyed, too early.
---
 redGrapes/task/property/graph.cpp | 7 -------
 redGrapes/task/property/graph.hpp | 1 -
 redGrapes/task/task_space.cpp     | 7 +++++++
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index 3680c79..75f1ebc 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -72,13 +72,6 @@ namespace redGrapes
                 }
             }
         }
-
-        // add dependency to parent
-        if(auto parent = this->space->parent)
-        {
-            SPDLOG_TRACE("add event dep to parent");
-            this->post_event.add_follower(parent->get_post_event());
-        }
     }
 
     void GraphProperty::delete_from_resources()
diff --git a/redGrapes/task/property/graph.hpp b/redGrapes/task/property/graph.hpp
index d7d7cad..897f646 100644
--- a/redGrapes/task/property/graph.hpp
+++ b/redGrapes/task/property/graph.hpp
@@ -146,7 +146,6 @@ namespace redGrapes
          * Abstractly adds a dependeny from preceding task to this,
          * by setting up an edge from the post-event of the
          * preceding task to the pre-event of this task.
-         * Additionally, an edge to the post-event of the parent is added.
          */
         void add_dependency(Task& preceding_task);
 
diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index c889d53..96c4ccb 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -76,8 +76,15 @@ namespace redGrapes
         ++task_count;
 
         if(parent)
+        {
             assert(this->is_superset(*parent, *task));
 
+            // The parent is still running. From now on it must not finish before its child,
+            // even if the dependencies of the child are initialized much later.
+            SPDLOG_TRACE("add event dep to parent");
+            task->post_event.add_follower(parent->get_post_event());
+        }
+
         for(auto r = task->unique_resources.rbegin(); r != task->unique_resources.rend(); ++r)
         {
             r->task_entry = r->resource->users.push(task);
-- 
2.43.0


From 76632488270c6715ad44163d60458fc5e755ed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:54 +0000
Subject: [PATCH 12/24] fix: tasks can be activated by threads which are no
 workers

activate_task() dereferenced current_worker, which is null in all other threads, when all workers were busy.
---
 redGrapes/scheduler/default_scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/default_scheduler.cpp b/redGrapes/scheduler/default_scheduler.cpp
index bf2366f..674b577 100644
--- a/redGrapes/scheduler/default_scheduler.cpp
+++ b/redGrapes/scheduler/default_scheduler.cpp
@@ -79,7 +79,8 @@ namespace redGrapes
             if(worker_id < 0)
             {
                 worker_id = next_worker.fetch_add(1) % SingletonContext::get().worker_pool->size();
-                if(worker_id == SingletonContext::get().current_worker->get_worker_id())
+                if(SingletonContext::get().current_worker
+                   && worker_id == SingletonContext::get().current_worker->get_worker_id())
                     worker_id = next_worker.fetch_add(1) % SingletonContext::get().worker_pool->size();
             }
 
-- 
2.43.0


From 0d686f5de6f1b86aea9d1c8eb91208c847efadd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 13/24] fix: a follower added while its event is reached is not
 lost

The notifying thread could have passed the follower list already, and a follower could be notified before its counter was incremented. waker_id is read and written by different threads.
---
 redGrapes/scheduler/event.cpp | 15 ++++++++++++---
 redGrapes/scheduler/event.hpp |  6 +++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 566c9c4..e1b67f9 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -32,14 +32,14 @@ namespace redGrapes
 
         Event::Event(Event& other)
             : state((uint16_t) other.state)
-            , waker_id(other.waker_id)
+            , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
         }
 
         Event::Event(Event&& other)
             : state((uint16_t) other.state)
-            , waker_id(other.waker_id)
+            , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
         }
@@ -68,11 +68,14 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "add_follower");
 
+            // the event may be reached concurrently: either it is notified after the follower
+            // was added completely, or the follower is not added at all
+            std::lock_guard<SpinLock> lock(followers_mutex);
             if(!is_reached())
             {
                 SPDLOG_TRACE("Event add follower");
-                followers.push(follower);
                 follower->state++;
+                followers.push(follower);
             }
         }
 
@@ -88,6 +91,12 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "notify_followers");
 
+            // wait until concurrent calls of add_follower(), which did not see yet
+            // that this event is reached, are done
+            {
+                std::lock_guard<SpinLock> lock(followers_mutex);
+            }
+
             for(auto follower = followers.rbegin(); follower != followers.rend(); ++follower)
                 follower->notify();
         }
diff --git a/redGrapes/scheduler/event.hpp b/redGrapes/scheduler/event.hpp
index 8ff2c5c..35f6121 100644
--- a/redGrapes/scheduler/event.hpp
+++ b/redGrapes/scheduler/event.hpp
@@ -8,6 +8,7 @@
 #pragma once
 
 #include <redGrapes/scheduler/scheduler.hpp>
+#include <redGrapes/sync/spinlock.hpp>
 #include <redGrapes/util/chunked_list.hpp>
 
 #include <spdlog/spdlog.h>
@@ -94,7 +95,10 @@ namespace redGrapes
             std::atomic_uint16_t state;
 
             //! waker that is waiting for this event
-            WakerId waker_id;
+            std::atomic<WakerId> waker_id;
+
+            //! guards the decision whether a follower is still notified
+            SpinLock followers_mutex;
 
             //! the set of subsequent events
             ChunkedList<EventPtr, REDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE> followers;
-- 
2.43.0


From 0f2b2691652426c859155aeeeb004a432e76a6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 14/24] fix: notify() leaves an event alone once another thread
 may destroy it

After a task was activated, or while the event is not reached, the event and its task can be gone at any time.
---
 redGrapes/scheduler/event.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index e1b67f9..d3a2ccd 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -165,12 +165,14 @@ namespace redGrapes
                     task->delete_from_resources();
             }
 
-            // if event is ready or reached (state ∈ {0,1})
-            if(state <= 1 && this->get_event().waker_id >= 0)
-                SingletonContext::get().scheduler->wake(this->get_event().waker_id);
-
+            // The event must not be accessed anymore if it is not reached yet: others could reach it
+            // at any time, or execute the activated task, and destroy it.
             if(state == 0)
             {
+                auto waker_id = this->get_event().waker_id.load();
+                if(waker_id >= 0)
+                    SingletonContext::get().scheduler->wake(waker_id);
+
                 this->get_event().notify_followers();
 
                 // the second one of either post-event or result-get-event shall destroy the task
-- 
2.43.0


From 35f8284121eb75f9237d03747aaba80b5f8f026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 15/24] fix: a paused task is activated exactly once

The event could be reached, and the task be activated, between add_follower() and up(). The waker of the event is left alone: activate_task() wakes the worker which gets the task, while a thread waiting for the same event would never be woken.
---
 redGrapes/dispatch/thread/execute.cpp | 3 ---
 redGrapes/task/property/graph.hpp     | 7 +++++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/redGrapes/dispatch/thread/execute.cpp b/redGrapes/dispatch/thread/execute.cpp
index 2e2dc25..35afcfe 100644
--- a/redGrapes/dispatch/thread/execute.cpp
+++ b/redGrapes/dispatch/thread/execute.cpp
@@ -38,10 +38,7 @@ namespace thread
 
         if(event)
         {
-            event->get_event().waker_id = current_worker->get_waker_id();
             task.sg_pause(*event);
-
-            task.pre_event.up();
             task.get_pre_event().notify();
         }
         else
diff --git a/redGrapes/task/property/graph.hpp b/redGrapes/task/property/graph.hpp
index 897f646..ab7f40a 100644
--- a/redGrapes/task/property/graph.hpp
+++ b/redGrapes/task/property/graph.hpp
@@ -126,11 +126,14 @@ namespace redGrapes
 
         /*!
          * represent ›pausation of the task until event is reached‹
-         * in the scheduling graph
+         * in the scheduling graph.
+         * The pre-event has to be notified afterwards.
          */
         inline void sg_pause(scheduler::EventPtr event)
         {
-            pre_event.state = 1;
+            // not ready until the caller notifies the pre-event,
+            // even if `event` is reached immediately
+            pre_event.state = 2;
             event->add_follower(get_pre_event());
         }
 
-- 
2.43.0


From e134b727a2f9e990ec176ae977a54e0d0aa23ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 16/24] fix: barrier() returns after the tasks have been
 destroyed

free_task() decremented the number of tasks before it destroyed the task and its function object.
---
 redGrapes/task/task_space.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index 96c4ccb..75eaa41 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -50,7 +50,8 @@ namespace redGrapes
     void TaskSpace::free_task(Task* task)
     {
         TRACE_EVENT("TaskSpace", "free_task()");
-        unsigned count = task_count.fetch_sub(1) - 1;
+        // the task may hold the last reference to its space
+        auto self = shared_from_this();
 
         unsigned arena_id = task->arena_id;
         task->~Task();
@@ -59,6 +60,9 @@ namespace redGrapes
         SingletonContext::get().worker_pool->get_worker(arena_id).alloc.deallocate(
             memory::Block{(uintptr_t) task, sizeof(Task)});
 
+        // only now the task is gone completely
+        unsigned count = task_count.fetch_sub(1) - 1;
+
         // TODO: implement this using post-event of root-task?
         //  - event already has in_edge count
         //  -> never have current_task = nullptr
-- 
2.43.0


From 113c4e2ab24d1f4a578e58a0c5cd9dc3567b8b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 17/24] fix: a task without its own stack is not executed again
 after it waited for an event

The event stayed set when the task returned, so the task was paused and executed once more.
---
 redGrapes/task/task_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redGrapes/task/task_base.hpp b/redGrapes/task/task_base.hpp
index e9f40e5..510a327 100644
--- a/redGrapes/task/task_base.hpp
+++ b/redGrapes/task/task_base.hpp
@@ -72,10 +72,10 @@ namespace redGrapes
 
         void yield(scheduler::EventPtr event)
         {
-            this->event = event;
-
             if(enable_stack_switching)
             {
+                this->event = event;
+
                 std::optional<boost::context::continuation> old_yield;
                 this->yield_cont.swap(old_yield);
 
-- 
2.43.0


From 879ef4a2e493a00668d929d92584626d8f43a0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 18/24] fix: each worker uses its own arena, also if there are
 more workers than PUs

Tasks were allocated in the arena of their worker, but given back to the arena of the first worker on the same PU.
---
 redGrapes/dispatch/thread/worker_pool.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/redGrapes/dispatch/thread/worker_pool.cpp b/redGrapes/dispatch/thread/worker_pool.cpp
index 194df68..ee5ed9b 100644
--- a/redGrapes/dispatch/thread/worker_pool.cpp
+++ b/redGrapes/dispatch/thread/worker_pool.cpp
@@ -45,9 +45,13 @@ namespace redGrapes
                     hwloc_obj_t obj = hwloc_get_obj_by_type(hwloc_ctx.topology, HWLOC_OBJ_PU, pu_id);
                     allocs.emplace_back(memory::HwlocAlloc(hwloc_ctx, obj), REDGRAPES_ALLOC_CHUNKSIZE);
 
-                    SingletonContext::get().current_arena = pu_id;
-                    auto worker
-                        = memory::alloc_shared_bind<WorkerThread>(pu_id, get_alloc(pu_id), hwloc_ctx, obj, worker_id);
+                    SingletonContext::get().current_arena = worker_id;
+                    auto worker = memory::alloc_shared_bind<WorkerThread>(
+                        worker_id,
+                        get_alloc(worker_id),
+                        hwloc_ctx,
+                        obj,
+                        worker_id);
                     //        auto worker = std::make_shared< WorkerThread >( get_alloc(i), hwloc_ctx, obj, i );
                     workers.emplace_back(worker);
                 }
-- 
2.43.0


From 0bdfbee5d249c0c71b6dde8b126196544050988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 19/24] fix: barrier() returns after the sub-tasks have been
 destroyed

A sub-task notifies its parent before it is destroyed itself, so the parent could be gone, and barrier() return, while the function object of the sub-task still existed.
---
 redGrapes/task/task_space.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index 75eaa41..949bcd9 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -60,6 +60,9 @@ namespace redGrapes
         SingletonContext::get().worker_pool->get_worker(arena_id).alloc.deallocate(
             memory::Block{(uintptr_t) task, sizeof(Task)});
 
+        if(parent && parent->removal_countdown.fetch_sub(1) == 1)
+            parent->space->free_task(parent);
+
         // only now the task is gone completely
         unsigned count = task_count.fetch_sub(1) - 1;
 
@@ -87,6 +90,9 @@ namespace redGrapes
             // even if the dependencies of the child are initialized much later.
             SPDLOG_TRACE("add event dep to parent");
             task->post_event.add_follower(parent->get_post_event());
+
+            // and it is not destroyed before its child
+            parent->removal_countdown++;
         }
 
         for(auto r = task->unique_resources.rbegin(); r != task->unique_resources.rend(); ++r)
-- 
2.43.0


From 43a8b078261493104ff8ce16edf7e5c5c2086c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 20/24] fix: reduced accesses release every dependency of later
 tasks, but not the parent task

---
 redGrapes/task/property/graph.cpp | 35 ++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index 75f1ebc..4e57261 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -14,7 +14,9 @@
 #include <redGrapes/util/trace.hpp>
 
 #include <memory>
+#include <mutex>
 #include <unordered_set>
+#include <vector>
 
 namespace redGrapes
 {
@@ -104,25 +106,34 @@ namespace redGrapes
 
     void GraphProperty::update_graph()
     {
-        // std::unique_lock< SpinLock > lock( post_event.followers_mutex );
+        // A follower has one entry for each resource both tasks use. It could be executed
+        // and destroyed as soon as it is notified for the last of them.
+        std::vector<scheduler::EventPtr> released;
 
-        //    for( auto follower : post_event.followers )
-        for(auto it = post_event.followers.rbegin(); it != post_event.followers.rend(); ++it)
         {
-            scheduler::EventPtr follower = *it;
-            if(follower.task)
+            std::lock_guard<SpinLock> lock(post_event.followers_mutex);
+
+            for(auto it = post_event.followers.rbegin(); it != post_event.followers.rend(); ++it)
             {
-                if(!space->is_serial(*this->task, *follower.task))
-                {
-                    // remove dependency
-                    // follower.task->in_edges.erase(std::find(std::begin(follower.task->in_edges),
-                    // std::end(follower.task->in_edges), this));
-                    post_event.followers.erase(follower);
+                scheduler::EventPtr follower = *it;
 
-                    follower.notify();
+                // the post-event of the parent task always has to wait
+                if(follower.task && follower.tag == scheduler::T_EVT_PRE)
+                {
+                    if(!space->is_serial(*this->task, *follower.task))
+                    {
+                        // remove dependency
+                        // follower.task->in_edges.erase(std::find(std::begin(follower.task->in_edges),
+                        // std::end(follower.task->in_edges), this));
+                        post_event.followers.remove(it);
+                        released.push_back(follower);
+                    }
                 }
             }
         }
+
+        for(auto& follower : released)
+            follower.notify();
     }
 
 } // namespace redGrapes
-- 
2.43.0


From 376d1aa975e520e17a5ef4582347a24e3c419904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:31 +0000
Subject: [PATCH 21/24] fix: a refused update leaves the accesses of the task
 as they were

---
 redGrapes/task/property/resource.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/redGrapes/task/property/resource.hpp b/redGrapes/task/property/resource.hpp
index 9a2f57e..496b6b4 100644
--- a/redGrapes/task/property/resource.hpp
+++ b/redGrapes/task/property/resource.hpp
@@ -112,25 +112,32 @@ namespace redGrapes
             this->rm_resource_access(ra);
         }
 
-        void apply_patch(Patch const& patch)
+        static void apply_diff(ResourceUser& user, Patch const& patch)
         {
-            ResourceUser before(*this);
-
-            for(auto x : patch.diff)
+            for(auto& x : patch.diff)
             {
                 switch(x.first)
                 {
                 case Patch::DiffType::ADD:
-                    (*this) += x.second;
+                    user.add_resource_access(x.second);
                     break;
                 case Patch::DiffType::REMOVE:
-                    (*this) -= x.second;
+                    user.rm_resource_access(x.second);
                     break;
                 }
             }
+        }
 
-            if(!before.is_superset_of(*this))
+        void apply_patch(Patch const& patch)
+        {
+            // a refused patch must not change anything
+            ResourceUser after(*this);
+            apply_diff(after, patch);
+
+            if(!this->is_superset_of(after))
                 throw std::runtime_error("redGrapes: ResourceUserPolicy: updated access list is no subset!");
+
+            apply_diff(*this, patch);
         }
     };
 
-- 
2.43.0


From 73fea7b1ffd1f0ffc777bf2dca05842605bea343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 22/24] fix: later tasks are ordered by the previous or the new
 accesses, also while these are updated

---
 redGrapes/redGrapes.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/redGrapes/redGrapes.cpp b/redGrapes/redGrapes.cpp
index 9d1e502..8ff16bd 100644
--- a/redGrapes/redGrapes.cpp
+++ b/redGrapes/redGrapes.cpp
@@ -14,9 +14,12 @@
 
 #include <moodycamel/concurrentqueue.h>
 
+#include <algorithm>
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <optional>
+#include <vector>
 
 #if REDGRAPES_ENABLE_TRACE
 PERFETTO_TRACK_EVENT_STATIC_STORAGE();
@@ -174,6 +177,20 @@ namespace redGrapes
     {
         if(current_task)
         {
+            // Tasks which are initialized concurrently hold the lock of a resource while they check
+            // for a dependency: they see either the previous or the new accesses, and either their
+            // dependency is already recorded or it is not added.
+            std::vector<ResourceBase*> resources;
+            for(auto r = current_task->unique_resources.rbegin(); r != current_task->unique_resources.rend(); ++r)
+                resources.push_back(r->resource.get());
+
+            // always in the same order, since other tasks may update their properties too
+            std::sort(resources.begin(), resources.end());
+
+            std::vector<std::unique_lock<SpinLock>> locks;
+            for(auto r : resources)
+                locks.emplace_back(r->users_mutex);
+
             current_task->apply_patch(patch);
             current_task->update_graph();
         }
-- 
2.43.0


From d09f0ee106a0d2eb0d01281ad15d9544dfa3d6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 23/24] fix: the tag matching scheduler decides the kind of
 dependency

TagMatch::task_dependency_type() did not override the function of
IScheduler, since its last argument was not const.
---
 redGrapes/scheduler/tag_match.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/tag_match.hpp b/redGrapes/scheduler/tag_match.hpp
index 4fd9533..a7c722b 100644
--- a/redGrapes/scheduler/tag_match.hpp
+++ b/redGrapes/scheduler/tag_match.hpp
@@ -81,7 +81,7 @@ namespace redGrapes
                 return std::nullopt;
             }
 
-            bool task_dependency_type(Task const& a, Task& b)
+            bool task_dependency_type(Task const& a, Task const& b) override
             {
                 /// fixme: b or a ?
                 if(auto sub_scheduler = get_matching_scheduler(b.required_scheduler_tags))
-- 
2.43.0


From a7f649db08120d9d67e43d0ea58f714f90301a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 24/24] fix: followers of an event are notified once, even if
 it is reached again

The pre-event of a task is reached again each time the task continues
after a yield. Tasks which depend on the pre-event (task_dependency_type()
of a scheduler) were notified once more.
---
 redGrapes/scheduler/event.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index d3a2ccd..a3eb460 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -97,8 +97,14 @@ namespace redGrapes
                 std::lock_guard<SpinLock> lock(followers_mutex);
             }
 
+            // Each follower is notified only once, even if this event is reached again,
+            // as it is the case for the pre-event of a task which was yielding.
             for(auto follower = followers.rbegin(); follower != followers.rend(); ++follower)
-                follower->notify();
+            {
+                EventPtr f = *follower;
+                followers.remove(follower);
+                f.notify();
+            }
         }
 
         /*! A preceding event was reached and thus an incoming edge got removed.
-- 
2.43.0

