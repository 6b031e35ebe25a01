// allocators behind allocator_traits and handle_descriptor: fixed in place, external, runtime sized, heap, std and relocating
#include <cstring>
#include <map>
#include <vector>
#include <memory>
#include <estd/array.h>
#include <estd/vector.h>
#include <estd/allocators/fixed.h>
#include <estd/allocators/handle_desc.h>
#include "../../lib/vf.h"
#include "../../lib/heap_alloc.h"
using namespace vf;
namespace {
// heap allocator which refuses on demand
VF_TLS int refuse;
template <class T> struct Budget : HeapAlloc<T>
{
    typedef HeapAlloc<T> B; typedef typename B::handle_type handle_type; typedef typename B::pointer pointer;
    typedef estd::internal::locking_iterator<Budget, estd::internal::traditional_accessor<T>> iterator;
    pointer allocate(size_t n) { return refuse ? nullptr : B::allocate(n); }
    handle_type reallocate(handle_type h, size_t n) { return refuse ? nullptr : B::reallocate(h, n); }
    void free(handle_type h) { B::free_(h); }
};
// relocating allocator: a block only has an address while it is locked, and gets a new one at every first lock
template <class T> struct Arena
{
    struct Blk { std::unique_ptr<T[]> mem; size_t n = 0; int locks = 0; bool live = false; };
    std::vector<Blk> blks; unsigned max_blocks = 4; size_t limit = 64; const char* err = nullptr; unsigned relocations = 0, total_locks = 0;
    typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef const void* const_void_pointer; typedef size_t size_type; typedef int handle_type;
    typedef estd::internal::handle_with_offset<int> handle_with_offset; typedef void is_locking_tag; typedef void is_stateful_tag; typedef T* iterator;
    static constexpr int invalid() { return -1; }
    Blk* get(int h) { if(h < 0 || (size_t)h >= blks.size() || !blks[h].live) { err = "operation on an invalid handle"; return nullptr; } return &blks[h]; }
    int allocate(size_t n) { if(n > limit) return -1; unsigned used = 0; for(auto& b : blks) used += b.live; if(used >= max_blocks) return -1; blks.emplace_back(); auto& b = blks.back(); b.mem.reset(new T[n ? n : 1]()); b.n = n; b.live = true; return (int)blks.size() - 1; }
    void free(int h) { if(auto* b = get(h)) { if(b->locks) err = "freed while locked"; b->live = false; b->mem.reset(); } }
    void deallocate(int h, size_t) { free(h); }
    int reallocate(int h, size_t n) { auto* b = get(h); if(!b) return -1; if(b->locks) err = "reallocated while locked"; if(n > limit) return -1; std::unique_ptr<T[]> m(new T[n ? n : 1]()); for(size_t i = 0; i < n && i < b->n; ++i) m[i] = std::move(b->mem[i]); blks.emplace_back(); auto& nb = blks.back(); auto& ob = blks[h]; nb.mem = std::move(m); nb.n = n; nb.live = true; ob.live = false; ob.mem.reset(); return (int)blks.size() - 1; }
    T* addr(int h) { auto* b = get(h); static T dummy[64]; if(!b) return dummy; if(b->locks++ == 0) { std::unique_ptr<T[]> m(new T[b->n ? b->n : 1]); for(size_t i = 0; i < b->n; ++i) m[i] = std::move(b->mem[i]); b->mem = std::move(m); ++relocations; } ++total_locks; return b->mem.get(); }
    T& lock(int h, size_t pos = 0, size_t count = 0) { if(auto* b = get(h)) { if(pos + count > b->n) err = "locked range exceeds the block"; } return addr(h)[pos]; }
    T& lock(const handle_with_offset& h, size_t pos = 0, size_t count = 0) { return lock(h.handle(), h.offset() + pos, count); }
    const T& clock(int h, size_t pos = 0, size_t count = 0) const { return const_cast<Arena*>(this)->lock(h, pos, count); }
    const T& clock(const handle_with_offset& h, size_t pos = 0, size_t count = 0) const { return const_cast<Arena*>(this)->lock(h, pos, count); }
    void unlock(int h) { if(auto* b = get(h)) { if(b->locks <= 0) err = "unlocked without lock"; else --b->locks; } }
    void cunlock(int h) const { const_cast<Arena*>(this)->unlock(h); }
    handle_with_offset offset(int h, size_t p) const { return handle_with_offset(h, p); }
    size_t max_size() const { return limit; }
    int held() const { int s = 0; for(auto& b : blks) s += b.locks; return s; }
    unsigned live() const { unsigned s = 0; for(auto& b : blks) s += b.live; return s; }
};
typedef std::vector<int> Model;

// one fixed block: whole range usable, nothing outside of it, size truthful, allocation beyond it refused
template <class D, class A> void fixed_block(Ctx& c, D& d, A& a, size_t cap, const char* what, int* expect_base = nullptr)
{
    typedef estd::allocator_traits<A> tr; typedef typename tr::handle_type HT; VF_EQ((size_t)d.size(), cap, what); VF_EQ((size_t)tr::max_size(a), cap, "max_size"); VF_EQ((size_t)d.max_size(), cap, "descriptor max_size"); VF_REQ(d.is_allocated(), "%s: a fixed block is always there", what);
    Model m(cap); int* base = &d.lock(); d.unlock(); if(expect_base) VF_REQ(base == expect_base, "%s: the block is not the buffer given", what);
    for(size_t i = 0; i < cap; ++i) { VF_REQ(&d.lock(i) == base + i, "%s: element %zu is misplaced", what, i); m[i] = d.lock(i) = (int)c.rng.next(); d.unlock(); }
    for(unsigned k = 0; k < 20; ++k)
    {
        size_t pos = c.rng.below(cap), len = c.rng.below(cap - pos + 1);
        switch(c.rng.below(5))
        {
            case 0: { std::vector<int> src(len); for(auto& x : src) x = (int)c.rng.next(); d.copy_into(src.data(), pos, len); std::copy(src.begin(), src.end(), m.begin() + pos); c.op("copy_into(%zu,%zu)", pos, len); VF_EV("copied into a block"); break; }
            case 1: { std::vector<int> dst(len + 2, 0x5151); D::copy_from(a, HT(true), dst.data() + 1, pos, len); VF_REQ(std::equal(m.begin() + pos, m.begin() + pos + len, dst.begin() + 1) && dst[0] == 0x5151 && dst[len + 1] == 0x5151, "%s: copy_from(%zu,%zu)", what, pos, len); c.op("copy_from(%zu,%zu)", pos, len); VF_EV("copied from a block"); break; }
            case 2: { int v = (int)c.rng.next(); auto h = d.offset(pos); VF_EQ((size_t)h.offset(), pos, "offset of a handle"); a.lock(h) = v; a.unlock(HT(true)); m[pos] = v; if(pos + 1 < cap) { h += 1; VF_EQ(a.clock(h), m[pos + 1], "advanced handle"); VF_EQ(a.clock(h, -1), m[pos], "position relative to a handle"); VF_REQ(h - d.offset(pos) == 1 && h > d.offset(pos) && d.offset(pos) < h && h >= h && h == d.offset(pos + 1), "handle comparison"); h -= 1; VF_REQ(h == d.offset(pos), "handle stepped back"); } VF_EV("offset handles"); break; }
            case 3: { size_t n = c.rng.below(2 * cap + 2); VF_EQ((bool)tr::allocate(a, (typename tr::size_type)n), (typename tr::size_type)n <= cap, "allocate succeeds exactly within capacity"); VF_EV("fixed allocations"); break; }
            case 4: { int v = (int)c.rng.next(); d.construct(pos, v); m[pos] = v; VF_EQ(d.clock(pos), v, "constructed element"); d.cunlock(); VF_EQ(tr::clock(a, HT(true), pos), v, "traits clock"); VF_EQ(tr::lock(a, HT(true), pos), v, "traits lock"); VF_EV("constructed elements"); break; }
        }
        for(size_t i = 0; i < cap; ++i) VF_EQ(d.clock(i), m[i], what);
    }
}
template <size_t N> void fixed_all(Ctx& c)
{
    struct G { int pre[4]; estd::layer1::allocator<int, N> a; int post[4]; };
    switch(c.rng.below(6))
    {
        case 0: { typedef estd::layer1::allocator<int, N> A; struct S { int pre[4]; estd::handle_descriptor<A> d; int post[4]; }; Boxed<S> s; for(int i = 0; i < 4; ++i) s->pre[i] = s->post[i] = 0x7777; fixed_block(c, s->d, s->d.get_allocator(), N, "layer1"); for(int i = 0; i < 4; ++i) VF_REQ(s->pre[i] == 0x7777 && s->post[i] == 0x7777, "bytes beside the block changed"); break; }
        case 1: { typedef estd::layer1::allocator<int, N> A; Boxed<G> g; for(int i = 0; i < 4; ++i) g->pre[i] = g->post[i] = 0x7777; estd::handle_descriptor<A&> d(g->a); fixed_block(c, d, g->a, N, "layer1 by reference", (int*)&g->a); for(int i = 0; i < 4; ++i) VF_REQ(g->pre[i] == 0x7777 && g->post[i] == 0x7777, "bytes beside the block changed"); break; }
        case 2: { Raw<int> b(N); typedef estd::layer2::allocator<int, N> A; estd::handle_descriptor<A> d(b.p); fixed_block(c, d, d.get_allocator(), N, "layer2", b.p); break; }
        case 3: { Raw<int> b(N); typedef estd::layer2::allocator<int, N> A; A a(b.p); estd::handle_descriptor<A&> d(a); fixed_block(c, d, a, N, "layer2 by reference", b.p); break; }
        case 4: { static VF_TLS int b[N]; typedef estd::layer3::allocator<int> A; A a(b); estd::handle_descriptor<A&> d(a); fixed_block(c, d, a, N, "layer3 by reference", b); break; }
        default: { size_t n = 1 + c.rng.below(N); Raw<int> b(n); typedef estd::layer3::allocator<int> A; A a(A::InitParam(b.p, n)); estd::handle_descriptor<A&> d(a); fixed_block(c, d, a, n, "layer3 of runtime size", b.p); break; }
    }
}
template <class T> T val(Ctx& c); template <> int val<int>(Ctx& c) { return (int)c.rng.next(); }

// several blocks of one allocator, each behind a descriptor
template <class D, class A> void blocks(Ctx& c, A& a, std::vector<std::unique_ptr<D>>& ds, unsigned max_live, size_t limit, Arena<int>* arena, const char* what)
{
    struct M { bool alloc = false; Model v; }; std::vector<M> m(ds.size()); unsigned n = 20 + c.rng.below(60); typedef estd::allocator_traits<A> tr;
    for(unsigned i = 0; i < n; ++i)
    {
        size_t k = c.rng.below(ds.size()); D& d = *ds[k]; M& q = m[k]; unsigned live = 0; for(auto& x : m) live += x.alloc; refuse = !arena && c.rng.chance(1, 5);
        switch(c.rng.below(6))
        {
            case 0: { if(q.alloc) break; size_t sz = 1 + c.rng.below(c.rng.chance(1, 5) ? 2 * limit : 24); bool can = arena ? sz <= limit && live < max_live : !refuse; bool r = d.allocate(sz); c.op("%zu.allocate(%zu) -> %d", k, sz, r); VF_EQ(r, can, "allocate"); VF_EQ(d.is_allocated(), r, "is_allocated"); if(!r) { VF_EQ((size_t)d.size(), (size_t)0, "size without a block"); VF_EV("refused allocations"); break; } VF_EQ((size_t)d.size(), sz, "size"); q.alloc = true; q.v.assign(sz, 0); int* p = &d.lock(0, sz); for(size_t j = 0; j < sz; ++j) p[j] = q.v[j] = (int)c.rng.next(); d.unlock(); VF_EV("blocks allocated"); break; }
            case 1: { if(!q.alloc) break; size_t sz = 1 + c.rng.below(c.rng.chance(1, 5) ? 2 * limit : 24); bool can = arena ? sz <= limit : !refuse; size_t before = q.v.size(); bool r = d.reallocate(sz); c.op("%zu.reallocate(%zu) -> %d", k, sz, r); VF_EQ(r, can, "reallocate"); VF_REQ(d.is_allocated(), "%s: block lost by a reallocation", what); VF_EQ((size_t)d.size(), r ? sz : before, "size after a reallocation"); if(!r) { VF_EV("refused reallocations"); break; } q.v.resize(sz); if(sz > before) { int* p = &d.lock(0, sz); for(size_t j = before; j < sz; ++j) p[j] = q.v[j] = (int)c.rng.next(); d.unlock(); } VF_EV("blocks reallocated"); break; }
            case 2: { if(!q.alloc) break; d.free(); c.op("%zu.free", k); ds[k] = std::make_unique<D>(a); q.alloc = false; q.v.clear(); VF_EV("blocks freed"); break; }
            case 3: { if(!q.alloc) break; size_t pos = c.rng.below(q.v.size()), len = c.rng.below(q.v.size() - pos + 1); std::vector<int> src(len); for(auto& x : src) x = (int)c.rng.next(); d.copy_into(src.data(), pos, len); std::copy(src.begin(), src.end(), q.v.begin() + pos); c.op("%zu.copy_into(%zu,%zu)", k, pos, len); VF_EV("copied into a block"); break; }
            case 4: { if(!q.alloc) break; size_t pos = c.rng.below(q.v.size()), len = c.rng.below(q.v.size() - pos + 1); std::vector<int> dst(len + 1, 0x5151); D::copy_from(a, d.handle(), dst.data(), pos, len); VF_REQ(std::equal(dst.begin(), dst.begin() + len, q.v.begin() + pos) && dst[len] == 0x5151, "%s: copy_from(%zu,%zu)", what, pos, len); VF_EV("copied from a block"); break; }
            case 5: { if(!q.alloc) break; size_t pos = c.rng.below(q.v.size()); int v = (int)c.rng.next(); d.construct(pos, v); q.v[pos] = v; VF_EQ(tr::clock(a, d.handle(), pos), v, "traits clock"); tr::cunlock(a, d.handle()); d.destroy(pos); VF_EV("constructed elements"); break; }
        }
        refuse = 0;
        if(arena) { VF_REQ(!arena->err, "%s: %s", what, arena->err); VF_EQ(arena->held(), 0, "locks still held after the operation"); unsigned l = 0; for(auto& x : m) l += x.alloc; VF_EQ(arena->live(), l, "blocks alive in the allocator"); }
        for(size_t j = 0; j < ds.size(); ++j) if(m[j].alloc) { const D& d2 = *ds[j]; VF_EQ((size_t)d2.size(), m[j].v.size(), "size"); for(size_t e = 0; e < m[j].v.size(); ++e) { int g = d2.clock(e, 1); d2.cunlock(); VF_REQ(g == m[j].v[e], "%s: element %zu of block %zu is %d, expected %d", what, e, j, g, m[j].v[e]); } }
    }
    for(size_t j = 0; j < ds.size(); ++j) if(m[j].alloc) ds[j]->free();
}
VF_GROUP_W(fixed_blocks, 40) { c.nt(); switch(c.rng.below(5)) { case 0: fixed_all<1>(c); break; case 1: fixed_all<10>(c); break; case 2: fixed_all<100>(c); break; case 3: fixed_all<3>(c); break; default: fixed_all<255>(c); } }
VF_GROUP_W(heap_blocks, 30)
{
    c.nt(); typedef Budget<int> A; typedef estd::handle_descriptor<A> D; std::vector<std::unique_ptr<D>> ds; for(int i = 0; i < 5; ++i) ds.push_back(std::make_unique<D>()); A a;
    { struct DD : D { using D::D; }; } size_t before = heap_blocks().size();
    struct M { bool alloc = false; Model v; }; std::vector<M> m(5); unsigned n = 20 + c.rng.below(60);
    for(unsigned i = 0; i < n; ++i)
    {
        size_t k = c.rng.below(5); D& d = *ds[k]; M& q = m[k]; refuse = c.rng.chance(1, 5);
        switch(c.rng.below(5))
        {
            case 0: { if(q.alloc) break; size_t sz = 1 + c.rng.below(24); bool r = d.allocate(sz); c.op("%zu.allocate(%zu) -> %d", k, sz, r); VF_EQ(r, !refuse, "allocate"); VF_EQ(d.is_allocated(), r, "is_allocated"); if(!r) { VF_EQ((size_t)d.size(), (size_t)0, "size without a block"); VF_EV("refused allocations"); break; } q.alloc = true; q.v.resize(sz); for(size_t j = 0; j < sz; ++j) q.v[j] = d.lock(j, 1) = (int)c.rng.next(); VF_EV("blocks allocated"); break; }
            case 1: { if(!q.alloc) break; size_t sz = 1 + c.rng.below(40), old = q.v.size(); bool r = d.reallocate(sz); c.op("%zu.reallocate(%zu) -> %d", k, sz, r); VF_EQ(r, !refuse, "reallocate"); VF_REQ(d.is_allocated(), "block lost by a refused reallocation"); if(!r) { VF_EQ((size_t)d.size(), old, "size after a refused reallocation"); VF_EV("refused reallocations"); break; } q.v.resize(sz); for(size_t j = old; j < sz; ++j) q.v[j] = d.lock(j, 1) = (int)c.rng.next(); VF_EV("blocks reallocated"); break; }
            case 2: { if(!q.alloc) break; d.free(); ds[k] = std::make_unique<D>(); VF_REQ(!ds[k]->is_allocated(), "a fresh descriptor has no block"); q.alloc = false; q.v.clear(); c.op("%zu.free", k); VF_EV("blocks freed"); break; }
            case 3: { if(!q.alloc) break; size_t pos = c.rng.below(q.v.size()), len = c.rng.below(q.v.size() - pos + 1); std::vector<int> src(len); for(auto& x : src) x = (int)c.rng.next(); int* p = &d.lock(pos, len); std::copy(src.begin(), src.end(), p); d.unlock(); std::copy(src.begin(), src.end(), q.v.begin() + pos); VF_EV("written through a lock"); break; }
            case 4: { if(!q.alloc) break; size_t pos = c.rng.below(q.v.size()); int v = (int)c.rng.next(); d.construct(pos, v); q.v[pos] = v; VF_EV("constructed elements"); break; }
        }
        refuse = 0; size_t live = 0; for(auto& x : m) live += x.alloc; VF_EQ(heap_blocks().size() - before, live, "blocks alive on the heap");
        for(size_t j = 0; j < 5; ++j) if(m[j].alloc) { VF_EQ((size_t)ds[j]->size(), m[j].v.size(), "size"); for(size_t e = 0; e < m[j].v.size(); ++e) VF_EQ(ds[j]->clock(e, 1), m[j].v[e], "element"); }
    }
    for(size_t j = 0; j < 5; ++j) if(m[j].alloc) ds[j]->free(); heap_release_all();
}
VF_GROUP_W(relocating_blocks, 40)
{
    c.nt(); Arena<int> a; a.max_blocks = 1 + c.rng.below(4); a.limit = 8 + c.rng.below(60); typedef estd::handle_descriptor<Arena<int>&> D; std::vector<std::unique_ptr<D>> ds; for(int i = 0; i < 5; ++i) ds.push_back(std::make_unique<D>(a));
    for(auto& d : ds) VF_REQ(!d->is_allocated() && d->size() == 0, "a fresh descriptor has no block");
    blocks<D>(c, a, ds, a.max_blocks, a.limit, &a, "relocating allocator"); VF_REQ(!a.err, "%s", a.err); VF_EQ(a.live(), 0u, "blocks left"); VF_EVN("relocations", a.relocations);
}
// std::allocator through the library's traits
VF_GROUP_W(std_traits, 20)
{
    c.nt(); Ledger::reset(); typedef std::allocator<Tracked> A; typedef estd::allocator_traits<A> tr; A a; { size_t n = 1 + c.rng.below(30); Tracked* p = tr::allocate(a, n); std::vector<int> m(n, -1);
    for(unsigned i = 0; i < 60; ++i) { size_t k = c.rng.below(n); if(m[k] < 0) { int v = (int)c.rng.below(100000); tr::construct(a, p + k, v); m[k] = v; } else { VF_EQ(tr::lock(a, p, k, 1).v, m[k], "element"); tr::unlock(a, p); VF_EQ(tr::clock(a, p, k).v, m[k], "element"); tr::cunlock(a, p); tr::destroy(a, p + k); m[k] = -1; } VF_LEDGER((long)(n - std::count(m.begin(), m.end(), -1))); VF_EV("constructed through std traits"); }
    for(size_t k = 0; k < n; ++k) if(m[k] >= 0) tr::destroy(a, p + k); VF_LEDGER(0); tr::deallocate(a, p, n); }
    { typedef estd::allocator_traits<std::allocator<int>> ti; std::allocator<int> ai; size_t n = 2 + c.rng.below(20); int* p = ti::allocate(ai, n); for(size_t i = 0; i < n; ++i) p[i] = (int)i * 3;
      typename ti::iterator::accessor acc(p[0]); typename ti::iterator it(acc), first(it); size_t pos = 0; for(int i = 0; i < 40; ++i) { switch(c.rng.below(6)) { case 0: if(pos + 1 < n) { ++it; ++pos; } break; case 1: if(pos) { --it; --pos; } break; case 2: if(pos + 1 < n) { auto o = it++; VF_EQ((int)*o, (int)pos * 3, "postfix"); ++pos; } break; case 3: { size_t k = c.rng.below(n - pos); it += (ptrdiff_t)k; pos += k; break; } case 4: { size_t k = c.rng.below(pos + 1); it -= (ptrdiff_t)k; pos -= k; break; } case 5: { size_t k = c.rng.below(n - pos); VF_EQ((int)*(it + (ptrdiff_t)k), (int)(pos + k) * 3, "offset"); break; } }
        VF_EQ((int)*it, (int)pos * 3, "handle iterator"); VF_EQ((long)(it - first), (long)pos, "distance"); VF_REQ((it == first) == (pos == 0) && (it != first) == (pos != 0) && (it > first) == (pos > 0) && !(it < first) && it >= first, "comparison"); VF_EV("iterator steps"); }
      ti::deallocate(ai, p, n); }
}
}
