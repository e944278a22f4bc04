// Replaces the arenas (which C07 and C08 decide) by their specification: every block is an object of its own, which is
// freed exactly once and by the arena it came from. Uses of freed blocks are found exactly.
#pragma once
#include "sym.h"

#include <redGrapes/dispatch/thread/cpuset.hpp>
#include <redGrapes/memory/bump_allocator.hpp>
#include <redGrapes/memory/hwloc_alloc.hpp>
#include <redGrapes/scheduler/scheduler.hpp>
#include <redGrapes/util/atomic_list.hpp>
#include <redGrapes/util/trace.hpp>

#include <boost/core/demangle.hpp>
#include <spdlog/spdlog.h>

#include <algorithm>
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <mutex>
#include <new>
#include <vector>
#ifndef REDGRAPES_ALLOC_CHUNKSIZE
#    define REDGRAPES_ALLOC_CHUNKSIZE (64 * 1024)
#endif
namespace redGrapes
{
    namespace memory
    {
        template<typename Alloc>
        struct ChunkedBumpAlloc
        {
            size_t const chunk_size;
            ChunkedBumpAlloc const* self;
            struct alignas(16) Header
            {
                ChunkedBumpAlloc const* owner;
            };
            ChunkedBumpAlloc(Alloc&&, size_t chunk_size = REDGRAPES_ALLOC_CHUNKSIZE) : chunk_size(chunk_size), self(this)
            {
            }
            ChunkedBumpAlloc(ChunkedBumpAlloc&& other) : chunk_size(other.chunk_size), self(other.self)
            {
            }
            Block allocate(std::size_t n = 1) noexcept
            {
                auto* h = (Header*) ::operator new(sizeof(Header) + n);
                h->owner = self;
                return Block{(uintptr_t) (h + 1), n};
            }
            void deallocate(Block blk)
            {
                auto* h = (Header*) blk.ptr - 1;
                __sym_assert(h->owner == self, "a block is returned to the arena it came from");
                ::operator delete(h);
            }
        };
    } // namespace memory
} // namespace redGrapes
