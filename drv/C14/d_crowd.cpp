// crowds: owner counts past what 8 bits hold, released in random order
#include "vf.h"
#include <estd/memory.h>
#include <estd/internal/linked_ref.h>
using namespace vf;
namespace {
namespace l1 = estd::layer1; namespace l2 = estd::layer2; namespace l3 = estd::layer3;
VF_TLS std::vector<int> gone;
struct Obj { Tracked t; Obj(int v) : t(v) {} ~Obj() { gone.push_back(t.get()); } };
struct Tr { static int null() { return -1; } static bool null(int v) { return v == -1; } static void destruct(int v) { gone.push_back(v); } };
size_t size(Ctx& c, bool large)
{
    switch(c.rng.below(large ? 6 : 4)) { case 0: return 255 + (size_t)c.rng.below(4); case 1: return 1 + (size_t)c.rng.below(300); case 2: return 250 + (size_t)c.rng.below(1000); case 3: return 126 + (size_t)c.rng.below(5);
        case 4: return 32766 + (size_t)c.rng.below(4); default: return 65530 + (size_t)c.rng.below(5); }      // at most 65534 (16 bit count, documented by type)
}
template <class M> void drive(Ctx& c, M& m, Obj* o, bool large)
{
    typedef l3::shared_ptr<Obj> H; size_t n = size(c, large) - 1; if(n > 250) VF_EV("past 8 bits"); if(n > 32000) VF_EV("past 15 bits"); if(n == 0) n = 1; c.op("%zu handles", n);
    Raw<H> h(n); std::vector<size_t> live;
    for(size_t i = 0; i < n; ++i) { size_t k = (size_t)c.rng.below(i + 1); if(k == i || i == 0) new(&h[i]) H(m); else new(&h[i]) H(h[k]); live.push_back(i); if(i % 61 == 0 || i + 2 >= n || (i > 250 && i < 260)) { VF_EQ((long)m.use_count(), (long)i + 2, "use count growing"); VF_EQ((long)h[i].use_count(), (long)i + 2, "use count growing"); } }
    VF_REQ(gone.empty(), "released while owned"); bool master = true; size_t drop_master = (size_t)c.rng.below(n + 1); size_t owners = n + 1;
    while(!live.empty())
    {
        if(master && live.size() <= drop_master) { m.reset(); master = false; --owners; }
        size_t k = (size_t)c.rng.below(live.size()), i = live[k]; live[k] = live.back(); live.pop_back(); VF_REQ(h[i].get() == o, "object"); if(c.rng.coin()) { h[i].reset(); VF_EQ((long)h[i].use_count(), 0L, "use count after reset"); } h[i].~H(); --owners; VF_EQ((long)gone.size(), owners == 0 ? 1L : 0L, "objects destroyed");
        if(!live.empty()) { VF_EQ((long)h[live[0]].use_count(), (long)owners, "use count shrinking"); if(live.size() % 64 == 0) VF_EQ(h[live.back()]->t.get(), 7, "object"); }
    }
    if(master) { VF_REQ(gone.empty(), "released while master owns"); VF_EQ((long)m.use_count(), 1L, "use count"); m.reset(); } VF_EQ((long)gone.size(), 1L, "objects destroyed"); VF_EQ(gone[0], 7, "object destroyed"); c.mark(n); c.state(mix(n) ^ drop_master); c.nt();
}
}
VF_GROUP_W(crowd_inplace, 4) { gone.clear(); Ledger::reset(); { l1::shared_ptr<Obj> m; m.construct(7); drive(c, m, &m.provided(), true); } VF_LEDGER(0); }
VF_GROUP_W(crowd_external, 4) { gone.clear(); Ledger::reset(); { Raw<Obj> o(1); l2::shared_ptr<Obj> m(new(&o[0]) Obj(7)); drive(c, m, &o[0], false); } VF_LEDGER(0); }
VF_GROUP_W(crowd_linked, 8)
{
    gone.clear(); typedef estd::internal::linked_ref<int, Tr> R; size_t n = c.rng.chance(1, 3) ? 255 + (size_t)c.rng.below(4) : 2 + (size_t)c.rng.below(600); Raw<R> r(n); std::vector<size_t> live; size_t shared = 0; std::vector<bool> weak(n); c.op("%zu linked", n);
    for(size_t i = 0; i < n; ++i) { if(i == 0) new(&r[i]) R(7); else { R& from = r[(size_t)c.rng.below(i)]; if(c.rng.chance(1, 10)) { new(&r[i]) R(from.make_weak()); weak[i] = true; } else { bool w = weak[(size_t)(&from - &r[0])]; new(&r[i]) R((const R&)from); weak[i] = w; } } if(!weak[i]) ++shared; live.push_back(i); }
    VF_EQ((long)r[0].count_shared(), (long)shared, "owners"); if(shared > 256) VF_EV("many linked");
    while(!live.empty()) { size_t k = (size_t)c.rng.below(live.size()), i = live[k]; live[k] = live.back(); live.pop_back(); r[i].~R(); if(!weak[i]) --shared; VF_EQ((long)gone.size(), shared == 0 ? 1L : 0L, "values destructed"); if(!live.empty() && (live.size() < 3 || live.size() % 16 == 0)) VF_EQ((long)r[live[0]].count_shared(), (long)shared, "owners"); }
    c.mark(n); c.nt();
}
