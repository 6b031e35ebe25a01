// first generation pools: handle based (packed) and pointer based, and pools of shared pointers
#include <cstring>
#include <map>
#include <vector>
#include <estd/exp/memory/memory_pool.h>
#include "../../lib/vf.h"
using namespace vf;
namespace m1 = estd::experimental::memory::v1;
namespace {
template <unsigned S> struct Blob { unsigned char b[S]; };
template <class P, unsigned N> void raw(Ctx& c)
{
    typedef typename P::value_type T; Boxed<P> bx; P& p = *bx; std::map<T*, unsigned char> live; unsigned n = 10 + c.rng.below(80);
    for(unsigned i = 0; i < n; ++i)
    {
        switch(c.rng.below(4))
        {
            case 0: { T* t = p.allocate(); c.op("allocate -> %s", t ? "block" : "null"); VF_REQ((t != nullptr) == (live.size() < N), "allocate with %zu of %u in use", live.size(), N); if(!t) { VF_EV("v1 pool exhausted"); break; }
                VF_REQ((char*)t >= (char*)&p && (char*)(t + 1) <= (char*)(&p + 1), "block outside of the pool"); for(auto& l : live) VF_REQ(t + 1 <= l.first || l.first + 1 <= t, "block overlaps one in use"); unsigned char f = (unsigned char)c.rng.next(); memset((void*)t, f, sizeof(T)); live[t] = f; VF_EV("v1 pool blocks"); break; }
            case 1: { if(live.size() == N) break; T x; unsigned char f = (unsigned char)c.rng.next(); memset((void*)&x, f, sizeof x); T& t = p.construct(x); c.op("construct"); for(auto& l : live) VF_REQ(&t + 1 <= l.first || l.first + 1 <= &t, "block overlaps one in use"); live[&t] = f; VF_EV("v1 pool constructed"); break; }
            default: { if(live.empty()) break; auto it = live.begin(); std::advance(it, c.rng.below(live.size())); for(unsigned k = 0; k < sizeof(T); ++k) VF_REQ(((unsigned char*)it->first)[k] == it->second, "content changed"); if(c.rng.coin()) p.deallocate(it->first); else p.destroy(*it->first); live.erase(it); c.op("free"); VF_EV("v1 pool freed"); }
        }
        VF_EQ((unsigned)p.count_free(), (unsigned)(N - live.size()), "count_free");
    }
    for(auto& l : live) for(unsigned k = 0; k < sizeof(T); ++k) VF_REQ(((unsigned char*)l.first)[k] == l.second, "content changed");
}
template <class P, unsigned N> void tracked(Ctx& c)
{
    Ledger::reset(); typedef typename P::value_type T; Boxed<P> bx; P& p = *bx; std::map<T*, int> live; unsigned n = 10 + c.rng.below(60);
    for(unsigned i = 0; i < n; ++i)
    {
        if(c.rng.coin() && live.size() < N) { int v = (int)c.rng.below(100000); T& t = p.construct(v); c.op("construct(%d)", v); VF_REQ(!live.count(&t), "slot in use"); live[&t] = v; VF_EV("v1 pool tracked"); }
        else if(!live.empty()) { auto it = live.begin(); std::advance(it, c.rng.below(live.size())); VF_EQ(it->first->v, it->second, "value"); p.destroy(*it->first); live.erase(it); c.op("destroy"); }
        VF_LEDGER(live.size()); VF_EQ((unsigned)p.count_free(), (unsigned)(N - live.size()), "count_free");
    }
    for(auto& l : live) { VF_EQ(l.first->v, l.second, "value"); p.destroy(*l.first); } VF_LEDGER(0);
}
template <unsigned N> void shared(Ctx& c)
{
    Ledger::reset(); typedef m1::memory_pool_1<estd::layer1::shared_ptr<Tracked>, N> P; typedef typename P::value_type SP; typedef estd::layer3::shared_ptr<Tracked> L3;
    Boxed<P> bx; P& p = *bx; struct Item { SP* owner; std::vector<std::unique_ptr<L3>> refs; int v; }; std::vector<Item> items; unsigned n = 10 + c.rng.below(60);
    auto drop = [&](size_t k) { if(!items[k].owner && items[k].refs.empty()) items.erase(items.begin() + k); };
    for(unsigned i = 0; i < n; ++i)
    {
        switch(c.rng.below(5))
        {
            case 0: { if(items.size() == N) break; int v = (int)c.rng.below(1000); SP* s; if(c.rng.coin()) s = &m1::make_shared(p, v); else { s = &p.construct(); VF_EQ((int)s->use_count(), 0, "pooled pointer is empty at first"); s->construct(v); } for(auto& it : items) VF_REQ(it.owner != s, "slot in use"); items.push_back(Item{s, {}, v}); c.op("make %d", v); VF_EV("pooled shared pointers"); break; }
            case 1: case 2: { if(items.empty()) break; auto& it = items[c.rng.below(items.size())]; if(it.owner && c.rng.coin()) it.refs.push_back(std::make_unique<L3>(*it.owner)); else if(!it.refs.empty()) it.refs.push_back(std::make_unique<L3>(*it.refs[c.rng.below(it.refs.size())])); c.op("ref"); VF_EV("pooled references"); break; }
            case 3: { if(items.empty()) break; size_t k = c.rng.below(items.size()); if(!items[k].owner) break; items[k].owner->reset(); items[k].owner = nullptr; c.op("owner reset"); drop(k); VF_EV("owners reset"); break; }
            case 4: { if(items.empty()) break; size_t k = c.rng.below(items.size()); if(items[k].refs.empty()) break; items[k].refs.pop_back(); c.op("ref dropped"); drop(k); VF_EV("references dropped"); break; }
        }
        VF_LEDGER(items.size()); VF_EQ((unsigned)p.count_free(), (unsigned)(N - items.size()), "count_free");
        for(auto& it : items) { long u = (it.owner ? 1 : 0) + (long)it.refs.size(); if(it.owner) { VF_EQ((long)it.owner->use_count(), u, "use_count"); VF_EQ((**it.owner).v, it.v, "value"); } for(auto& r : it.refs) { VF_EQ((long)r->use_count(), u, "use_count of a reference"); VF_EQ((**r).v, it.v, "value"); } }
    }
    while(!items.empty()) { if(items[0].owner) { items[0].owner->reset(); items[0].owner = nullptr; } else items[0].refs.pop_back(); drop(0); }
    VF_LEDGER(0); VF_EQ((unsigned)p.count_free(), N, "all slots free again");
}
template <unsigned N> void low(Ctx& c)
{   // items taken at the low level, and an external list threaded through the pool's own storage
    typedef m1::memory_pool_1<Blob<3>, N> P; P p; std::vector<typename P::item*> mine, in; typename P::item_ext_node_traits tr(p.node_traits().storage); typename P::ext_list_type l(tr);
    for(unsigned i = 0; i < 30; ++i) { switch(c.rng.below(4)) {
        case 0: if(mine.size() + in.size() < N) { mine.push_back(&p.allocate_item()); VF_REQ(mine.back() >= p.storage() && mine.back() < p.storage() + N, "item outside"); VF_EV("items"); } break;
        case 1: if(!mine.empty()) { in.push_back(mine.back()); l.push_front(*mine.back()); mine.pop_back(); VF_EV("items in an external list"); } break;
        case 2: if(!in.empty()) { VF_REQ(&l.front() == in.back(), "front of the external list"); l.pop_front(); mine.push_back(in.back()); in.pop_back(); } break;
        case 3: if(!mine.empty()) { p.deallocate_item(*mine.back()); mine.pop_back(); } break; }
        VF_EQ((unsigned)p.count_free(), (unsigned)(N - mine.size() - in.size()), "count_free"); VF_EQ((unsigned)estd::distance(l.begin(), l.end()), (unsigned)in.size(), "length of the external list"); if(!in.empty()) VF_REQ(&l.front() == in.back(), "front of the external list"); }
}
VF_GROUP_W(pool_v1, 20) { c.nt(); switch(c.rng.below(8)) { case 0: raw<m1::memory_pool_1<Blob<1>, 10>, 10>(c); break; case 1: raw<m1::memory_pool_1<Blob<7>, 1>, 1>(c); break; case 2: raw<m1::memory_pool_1<Blob<16>, 33>, 33>(c); break; case 3: raw<m1::memory_pool_ll<long, 10>, 10>(c); break; case 4: raw<m1::memory_pool_ll<Blob<24>, 3>, 3>(c); break; case 5: raw<m1::memory_pool_1<int, 10>, 10>(c); break; case 6: tracked<m1::memory_pool_1<Tracked, 5>, 5>(c); break; default: tracked<m1::memory_pool_ll<Tracked, 9>, 9>(c); } }
VF_GROUP_W(pool_shared, 20) { c.nt(); if(c.rng.coin()) shared<4>(c); else shared<10>(c); }
VF_GROUP_W(pool_lowlevel, 10) { c.nt(); low<10>(c); }
}
