// Handle-style heap allocator for the library's dynamic arrays.  Every reallocation moves the block
// and releases the old one, so that stale pointers are visible to ASan; sizes are exact.
#pragma once
#include "vf.h"
#include <estd/memory.h>
#include <estd/internal/container/traditional_accessor.h>
#include <estd/internal/container/iterator.h>
#include <map>
#include <stdlib.h>

namespace vf {
// bytes of every block handed out and not given back (freed by the driver after each case, since
// the library's dynamic arrays do not release memory on destruction)
inline std::map<void*, size_t>& heap_blocks() { static VF_TLS std::map<void*, size_t> m; return m; }
inline void heap_release_all() { for(auto& b : heap_blocks()) free(b.first); heap_blocks().clear(); }

template <class T> class HeapAlloc
{
public:
    static constexpr bool is_locking() { return false; }
    typedef T value_type;
    typedef T* pointer;
    typedef const void* const_void_pointer;
    typedef T* handle_type;
    typedef size_t size_type;
    typedef estd::internal::handle_with_offset_raw<pointer> handle_with_offset;
    typedef T& accessor;
    typedef estd::internal::locking_iterator<HeapAlloc, estd::internal::traditional_accessor<value_type>> iterator;

    static handle_type invalid() { return nullptr; }
    pointer allocate(size_t n) { void* p = malloc(n * sizeof(T) ? n * sizeof(T) : 1); memset(p, 0xA5, n * sizeof(T)); heap_blocks()[p] = n * sizeof(T); return (pointer)p; }
    void deallocate(handle_type p, size_t) { heap_blocks().erase((void*)p); free((void*)p); }
    void free_(handle_type p) { heap_blocks().erase((void*)p); ::free((void*)p); }
    handle_type reallocate(handle_type h, size_t n)
    {
        auto it = heap_blocks().find((void*)h);
        size_t old = it == heap_blocks().end() ? 0 : it->second;
        pointer p = allocate(n);
        memcpy((void*)p, (void*)h, old < n * sizeof(T) ? old : n * sizeof(T));
        memset((void*)h, 0x5A, old);
        heap_blocks().erase((void*)h);
        ::free((void*)h);
        return p;
    }
    handle_with_offset offset(handle_type h, ptrdiff_t n) const { return handle_with_offset(h + n); }
    value_type& lock(const estd::internal::handle_with_offset_raw<pointer, size_t>& a) const { return *a.handle(); }
    static unsigned max_size() { return 99999; }
};
}
