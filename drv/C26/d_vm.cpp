// second generation pools: linked list pool and handle based heap with compaction
#include <cstring>
#include <map>
#include <vector>
#include <estd/array.h>
#include <estd/exp/memory/memory_pool2.h>
#include "../../lib/vf.h"
using namespace vf;
namespace m2 = estd::experimental::memory::v2;
namespace {
template <unsigned S> struct Blob { unsigned char b[S]; };
template <class T, unsigned N> void ll(Ctx& c)
{
    typedef m2::memory_pool<T, N, m2::pool_types::linked_list> P; Boxed<P> bx; P& p = *bx; std::map<T*, unsigned char> live; unsigned n = 10 + c.rng.below(80);
    for(unsigned i = 0; i < n; ++i)
    {
        if(c.rng.coin())
        {
            T* t = p.allocate(); c.op("allocate -> %s", t ? "block" : "null"); VF_REQ((t != nullptr) == (live.size() < N), "allocate with %zu of %u in use", live.size(), N); if(!t) { VF_EV("v2 pool exhausted"); continue; }
            VF_REQ((char*)t >= (char*)&p && (char*)(t + 1) <= (char*)(&p + 1), "block outside of the pool"); VF_REQ((uintptr_t)t % alignof(T) == 0, "block misaligned"); VF_REQ(p.within_range(t), "within_range");
            for(auto& l : live) VF_REQ(t + 1 <= l.first || l.first + 1 <= t, "block overlaps one in use"); unsigned char f = (unsigned char)c.rng.next(); memset((void*)t, f, sizeof(T)); live[t] = f; VF_EV("v2 pool blocks");
        }
        else if(!live.empty()) { auto it = live.begin(); std::advance(it, c.rng.below(live.size())); for(unsigned k = 0; k < sizeof(T); ++k) VF_REQ(((unsigned char*)it->first)[k] == it->second, "content changed"); p.deallocate(it->first); live.erase(it); c.op("deallocate"); }
        VF_EQ((unsigned)p.count_free(), (unsigned)(N - live.size()), "count_free");
    }
    T other; VF_REQ(!p.within_range(&other), "within_range of a foreign object"); for(auto& l : live) for(unsigned k = 0; k < sizeof(T); ++k) VF_REQ(((unsigned char*)l.first)[k] == l.second, "content changed");
}
template <unsigned N, unsigned H> void vm(Ctx& c)
{
    typedef m2::virtual_memory<N, H> V; Boxed<V> bx; V& v = *bx; struct B { unsigned req; unsigned char fill; }; std::map<unsigned, B> live; unsigned n = 20 + c.rng.below(100); bool inmaint = false; (void)inmaint;
    const unsigned total = N / alignof(void*) * alignof(void*);
    auto check = [&] {
        unsigned used = 0; for(auto& l : live) { auto& h = v.handles[l.first]; VF_REQ(h.data >= v.storage && h.data + h.chunk_size <= v.storage + N, "block of handle %u lies outside of the storage", l.first); VF_REQ(h.chunk_size >= l.second.req, "block of handle %u is smaller than asked for", l.first); used += h.chunk_size;
            for(unsigned k = 0; k < l.second.req; ++k) VF_REQ(h.data[k] == l.second.fill, "content of handle %u changed", l.first); for(auto& o : live) if(o.first != l.first) { auto& g = v.handles[o.first]; VF_REQ(h.data + h.chunk_size <= g.data || g.data + g.chunk_size <= h.data, "blocks of handles %u and %u overlap", l.first, o.first); } }
        unsigned nodes = 0; VF_EQ(v.total_free(&nodes), total - used, "total_free"); VF_REQ(nodes <= N / 16 + 1, "free chunks"); c.state(hash_bytes(&nodes, sizeof nodes, used)); };
    for(unsigned i = 0; i < n; ++i)
    {
        switch(c.rng.below(8))
        {
            case 0: case 1: case 2:
            {
                unsigned sz = c.rng.chance(1, 20) ? 0xfffffff0u + (unsigned)c.rng.below(16) : c.rng.chance(1, 4) ? (unsigned)c.rng.below(N + 20) : 1 + (unsigned)c.rng.below(N / 8); unsigned before = v.total_free(); unsigned h = v.allocate(sz); c.op("allocate(%u) -> %d", sz, (int)h);
                if(h == (unsigned)-1) { VF_EQ(v.total_free(), before, "a refused allocation costs nothing"); VF_EV(live.size() == H ? "handles exhausted" : "memory exhausted"); if(live.empty() && c.rng.chance(0, 1)) {} break; }
                VF_REQ(h < H && !live.count(h), "handle %u is invalid or in use", h); VF_REQ(sz <= N, "%u bytes out of %u", sz, N); auto& hd = v.handles[h]; VF_REQ(hd.data >= v.storage && hd.data + sz <= v.storage + N, "block outside of the storage"); unsigned char f = (unsigned char)c.rng.next(); memset(hd.data, f, sz); live[h] = B{sz, f}; VF_EV("vm blocks"); break;
            }
            case 3: case 4: { if(live.empty()) break; auto it = live.begin(); std::advance(it, c.rng.below(live.size())); c.op("free(%u)", it->first); check(); v.free(it->first); live.erase(it); VF_EV("vm frees"); break; }
            case 5: case 6: { unsigned k = 1 + (unsigned)c.rng.below(6); c.op("maint x%u", k); while(k--) v.maint(); VF_EV("maintenance steps"); break; }
            case 7: { unsigned nodes; v.total_free(&nodes); unsigned bound = 3 * nodes + 10; do { v.maint(); VF_REQ(bound-- > 0, "maintenance pass does not end"); } while(v.state() != m2::maintenance_mode::uninitialized); unsigned after; v.total_free(&after); VF_REQ(after <= nodes, "a maintenance pass splits chunks"); c.op("maint pass %u->%u", nodes, after); if(after < nodes) VF_EV("passes that merged chunks"); VF_EV("maintenance passes"); break; }
        }
        check();
    }
    while(!live.empty()) { v.free(live.begin()->first); live.erase(live.begin()); check(); }
    VF_EQ(v.total_free(), total, "everything is free again");
}
VF_GROUP_W(pool_v2, 20) { c.nt(); switch(c.rng.below(4)) { case 0: ll<estd::array<unsigned char, 32>, 10>(c); break; case 1: ll<long, 1>(c); break; case 2: ll<Blob<40>, 7>(c); break; default: ll<char, 5>(c); } }
VF_GROUP_W(virtual_memory, 30) { c.nt(); switch(c.rng.below(4)) { case 0: vm<1024, 20>(c); break; case 1: vm<256, 4>(c); break; case 2: vm<515, 64>(c); break; default: vm<4096, 64>(c); } }
}
