// memory::v1::pool / typed_pool: exclusive in-bounds blocks, content, exhaustion, handles, lifetimes
#include <cstring>
#include <map>
#include <set>
#include <vector>
#include <estd/memory.h>
#include <estd/internal/memory/pool.h>
#include "../../lib/vf.h"
using namespace vf;
namespace mem = estd::internal::memory;
namespace {
template <unsigned B, unsigned N> void untyped(Ctx& c)
{
    typedef mem::v1::pool<B, N> P;
    struct Box { unsigned char pre[64]; P p; unsigned char post[64]; };
    Boxed<Box> bx; memset(bx->pre, 0x11, 64); memset(bx->post, 0x22, 64); P& p = bx->p;
    std::map<unsigned char*, unsigned char> live; std::set<void*> seen;
    VF_EQ(P::max_blocks(), N, "max_blocks"); VF_EQ(P::block_size(), B, "block_size");
    unsigned n = 10 + c.rng.below(4 * N + 20); unsigned bias = c.rng.below(3);
    for(unsigned i = 0; i < n; ++i)
    {
        bool al = bias == 0 ? c.rng.coin() : bias == 1 ? c.rng.chance(3, 4) : (i / N) % 2 == 0;
        if(al)
        {
            auto* b = (unsigned char*)p.alloc(); c.op("alloc -> %s", b ? "block" : "null");
            VF_REQ((b != nullptr) == (live.size() < N), "alloc with %zu of %u blocks in use returned %s", live.size(), N, b ? "a block" : "null");
            if(!b) { VF_EV("pool exhausted"); continue; }
            VF_REQ(b >= (unsigned char*)&p && b + B <= (unsigned char*)(&p + 1), "block outside of the pool");
            VF_REQ((uintptr_t)b % alignof(void*) == 0, "block misaligned");
            for(auto& l : live) VF_REQ(b + B <= l.first || l.first + B <= b, "block overlaps one in use");
            int h = p.to_handle(b); VF_REQ(h >= 0 && unsigned(h) < N, "handle %d of %u", h, N); VF_REQ(p.from_handle((int8_t)h) == b, "handle does not lead back to its block");
            unsigned char f = (unsigned char)c.rng.next(); memset(b, f, B); live[b] = f; seen.insert(b); VF_EV("pool blocks handed out");
        }
        else if(!live.empty())
        {
            auto it = live.begin(); std::advance(it, c.rng.below(live.size()));
            for(unsigned k = 0; k < B; ++k) VF_REQ(it->first[k] == it->second, "content of a block in use changed at byte %u", k);
            c.op("free"); p.free(it->first); live.erase(it); VF_EV("pool blocks freed");
        }
        VF_EQ((unsigned)p.available_blocks(), (unsigned)(N - live.size()), "available_blocks"); VF_EQ(p.full(), live.size() == N, "full");
        VF_REQ(bx->pre[63] == 0x11 && bx->post[0] == 0x22, "bytes beside the pool changed");
    }
    for(auto& l : live) for(unsigned k = 0; k < B; ++k) VF_REQ(l.first[k] == l.second, "content of a block in use changed at byte %u", k);
    for(auto& l : live) p.free(l.first);
    VF_EQ((unsigned)p.available_blocks(), N, "everything is available again"); std::set<void*> again; for(unsigned i = 0; i < N; ++i) { void* b = p.alloc(); VF_REQ(b && again.insert(b).second, "refill of a drained pool: block %u", i); } VF_REQ(!p.alloc() && p.full(), "refilled pool is full");
    for(void* s : seen) VF_REQ(again.count(s), "a block was lost"); VF_EV("pool refilled completely");
    for(unsigned char b : bx->pre) VF_REQ(b == 0x11, "bytes before the pool"); for(unsigned char b : bx->post) VF_REQ(b == 0x22, "bytes behind the pool");
}
// element with a throwing constructor
struct El { Tracked t; long pad[2]; El(int v, bool boom) : t(v) { if(boom) throw 7; pad[0] = ~v; } El() : El(0, false) {} El(const El& o) : t(o.t) { pad[0] = o.pad[0]; } };
struct MoveOnly { std::unique_ptr<int> p; int& r; MoveOnly(std::unique_ptr<int>&& p_, int& r_) : p(std::move(p_)), r(r_) {} };
template <unsigned N> void typed(Ctx& c)
{
    Ledger::reset();
    {
        Boxed<mem::v1::typed_pool<El, N>> bx; auto& p = *bx; std::map<El*, int> live; unsigned n = 10 + c.rng.below(60);
        for(unsigned i = 0; i < n; ++i)
        {
            switch(c.rng.below(5))
            {
                case 0: case 1: case 2:
                {
                    int v = (int)c.rng.below(1000000); bool boom = c.rng.chance(1, 5); El* e = nullptr; bool thrown = false;
                    try { e = p.emplace(v, boom); } catch(int) { thrown = true; }
                    c.op("emplace(%d%s) -> %s", v, boom ? ", throws" : "", thrown ? "thrown" : e ? "element" : "null");
                    if(live.size() == N) { VF_REQ(!e && !thrown, "emplace into a full pool"); VF_EV("typed pool exhausted"); break; }
                    VF_EQ(thrown, boom, "constructor ran"); if(thrown) { VF_EV("constructor threw"); break; }
                    VF_REQ(e && (char*)e >= (char*)&p && (char*)(e + 1) <= (char*)(&p + 1), "element outside of the pool"); for(auto& l : live) VF_REQ(e + 1 <= l.first || l.first + 1 <= e, "element overlaps one alive");
                    VF_REQ(p.from_handle(p.to_handle(e)) == e, "handle does not lead back"); live[e] = v; VF_EV("emplaced"); break;
                }
                case 3: case 4: { if(live.empty()) break; auto it = live.begin(); std::advance(it, c.rng.below(live.size())); VF_EQ(it->first->t.v, it->second, "element value"); VF_EQ(it->first->pad[0], (long)~it->second, "element tail"); p.erase(it->first); live.erase(it); c.op("erase"); VF_EV("erased"); break; }
            }
            VF_LEDGER(live.size()); VF_EQ((unsigned)p.available_blocks(), (unsigned)(N - live.size()), "available_blocks"); VF_EQ(p.full(), live.size() == N, "full");
        }
        for(auto& l : live) { VF_EQ(l.first->t.v, l.second, "element value"); p.erase(l.first); } VF_LEDGER(0); VF_EQ((unsigned)p.available_blocks(), N, "all blocks back");
    }
    {   // arguments are forwarded as they are
        mem::v1::typed_pool<MoveOnly, 2> p; int r = 5; auto u = std::make_unique<int>(3); auto* e = p.emplace(std::move(u), r); VF_REQ(e && *e->p == 3 && &e->r == &r && !u, "arguments forwarded"); p.erase(e);
    }
    VF_LEDGER(0);
}
VF_GROUP_W(pool, 60) { c.nt(); switch(c.rng.below(8)) { case 0: untyped<64, 4>(c); break; case 1: untyped<8, 1>(c); break; case 2: untyped<8, 16>(c); break; case 3: untyped<24, 7>(c); break; case 4: untyped<100, 3>(c); break; case 5: untyped<1, 5>(c); break; case 6: untyped<16, 127>(c); break; default: untyped<256, 20>(c); } }
VF_GROUP_W(typed_pool, 40) { c.nt(); switch(c.rng.below(4)) { case 0: typed<1>(c); break; case 1: typed<3>(c); break; case 2: typed<8>(c); break; default: typed<31>(c); } }
// far more blocks than a byte counts (their handles, being int8_t, can't tell them apart)
template <unsigned B, unsigned N> void many(Ctx& c)
{
    typedef mem::v1::pool<B, N> P; Boxed<P> bx; P& p = *bx; std::vector<unsigned char*> b(N, nullptr); unsigned used = 0;
    VF_EQ(P::max_blocks(), N, "max_blocks"); VF_EQ((unsigned)p.available_blocks(), N, "available_blocks of a new pool");
    std::set<unsigned char*> all;
    for(unsigned round = 0; round < 3; ++round)
    {
        for(unsigned i = 0; i < N; ++i) if(!b[i])
        {
            VF_EQ(p.full(), used == N, "full"); b[i] = (unsigned char*)p.alloc(); VF_REQ(b[i] != nullptr, "alloc with %u of %u blocks in use", used, N);
            VF_REQ(b[i] >= (unsigned char*)&p && b[i] + B <= (unsigned char*)(&p + 1), "block %u outside of the pool", i); VF_REQ(all.insert(b[i]).second, "block %u handed out twice", i);
            memset(b[i], (unsigned char)(i * 7 + 1), B); ++used; if(i % 37 == 0) VF_EQ((unsigned)p.available_blocks(), N - used, "available_blocks of a large pool");
        }
        VF_REQ(p.full() && !p.alloc(), "large pool exhausted"); VF_EQ((unsigned)p.available_blocks(), 0u, "nothing available");
        auto last = all.begin(); for(auto it = std::next(last); it != all.end(); ++it, ++last) VF_REQ(*last + B <= *it, "blocks overlap");
        unsigned drop = 1 + c.rng.below(N); for(unsigned k = 0; k < drop; ++k) { unsigned i = c.rng.below(N); if(!b[i]) continue; for(unsigned x = 0; x < B; ++x) VF_EQ(b[i][x], (unsigned char)(i * 7 + 1), "content of a block in a large pool"); all.erase(b[i]); p.free(b[i]); b[i] = nullptr; --used; }
        VF_EQ((unsigned)p.available_blocks(), N - used, "available_blocks after freeing"); VF_EV("large pool cycles");
    }
}
VF_GROUP_W(pool_many, 4) { c.nt(); switch(c.rng.below(3)) { case 0: many<8, 300>(c); break; case 1: many<12, 700>(c); break; default: many<1, 1100>(c); } }
}
