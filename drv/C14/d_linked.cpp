#include "vf.h"
#include <estd/forward_list.h>
#include <estd/internal/linked_ref.h>
using namespace vf;
namespace {
VF_TLS std::vector<int> gone;
struct Tr { static int null() { return -1; } static bool null(int v) { return v == -1; } static void destruct(int v) { gone.push_back(v); } };
struct PTr { static Tracked* null() { return nullptr; } static bool null(Tracked* v) { return v == nullptr; } static void destruct(Tracked* v) { gone.push_back(v->get()); delete v; } };
template <class V> struct Val; template <> struct Val<int> { typedef Tr T; static int of(int i) { return i; } enum { live = 0 }; }; template <> struct Val<Tracked*> { typedef PTr T; static Tracked* of(int i) { return new Tracked(i); } enum { live = 1 }; };
template <class V> void linked(Ctx& c)
{
    gone.clear(); Ledger::reset();
    {
        typedef estd::internal::linked_ref<V, typename Val<V>::T> R; enum { S = 7 }; Raw<R> r(S); int grp[S]; bool weak[S]; int seq = 0; std::vector<int> want; std::vector<int> cnt(1, 0);      // grp: -1 none, 0 unlinked
        for(int i = 0; i < S; ++i) grp[i] = -1;
        auto drop = [&](int i) { if(grp[i] < 0) return; c.op("drop %d", i); r[i].~R(); memset((void*)&r[i], 0x5A, sizeof(R)); int g = grp[i]; grp[i] = -1; if(g > 0 && !weak[i] && --cnt[(size_t)g] == 0) { want.push_back(g); VF_EV("linked last owner dropped"); for(int k = 0; k < S; ++k) if(grp[k] == g) { grp[k] = 0; VF_EV("weak expired"); } } };
        auto check = [&] { VF_REQ(gone == want, "destructed %s, expected %s", show(gone).c_str(), show(want).c_str()); uint64_t x = 0; long live = 0; for(size_t g = 1; g < cnt.size(); ++g) live += cnt[g] > 0; VF_LEDGER(live * Val<V>::live); for(int k = 0; k < S; ++k) { x = x * 19 + (uint64_t)(grp[k] < 0 ? 0 : grp[k] == 0 ? 1 : 2 + (grp[k] + seq) % 8 * 2 + weak[k]); if(grp[k] < 0) continue; VF_EQ((long)r[k].count_shared(), cnt[(size_t)grp[k]], "owners seen"); VF_REQ((r[k].next() == nullptr) == (grp[k] == 0), "linked"); int ring = 0, in = 0; if(grp[k]) { R* p = &r[k]; do { ++ring; p = p->next(); VF_REQ(p != nullptr && ring <= S, "ring broken"); } while(p != &r[k]); for(int q = 0; q < S; ++q) in += grp[q] == grp[k]; VF_EQ(ring, in, "ring"); } } c.state(x); c.mark(x); };
        for(unsigned n = 15 + (unsigned)c.rng.below(60); n > 0; --n)
        {
            int i = (int)c.rng.below(S), j = (int)c.rng.below(S);
            switch(c.rng.below(6))
            {
                case 0: drop(i); ++seq; c.op("%d: new %d", i, seq); new(&r[i]) R(Val<V>::of(seq)); grp[i] = seq; weak[i] = false; cnt.push_back(1); break;
                case 1: case 2: if(i != j && grp[j] >= 0) { drop(i); if(grp[j] < 0) break; c.op("%d: copy %d", i, j); new(&r[i]) R((const R&)r[j]); grp[i] = grp[j]; weak[i] = weak[j]; if(grp[i] > 0 && !weak[i]) ++cnt[(size_t)grp[i]]; VF_EV("linked copied"); } break;
                case 3: if(i != j && grp[j] >= 0) { drop(i); c.op("%d: move %d", i, j); bool sole = grp[j] > 0; for(int k = 0; k < S; ++k) sole &= k == j || grp[k] != grp[j]; new(&r[i]) R(std::move(r[j])); grp[i] = grp[j]; weak[i] = weak[j]; grp[j] = 0; VF_EV(sole ? "moved sole owner" : "linked moved"); } break;
                case 4: if(i != j && grp[j] >= 0) { drop(i); c.op("%d: weak of %d", i, j); new(&r[i]) R(r[j].make_weak()); grp[i] = grp[j]; weak[i] = true; if(grp[i] == 0) weak[i] = true; VF_EV("weak made"); } break;
                default: drop(i);
            }
            check();
        }
        for(int i = 0; i < S; ++i) { drop(i); check(); } VF_EQ((int)want.size(), seq, "objects destructed"); c.nt();
    }
    VF_LEDGER(0);
}
struct Plain { int v; };
}
VF_REG("linked", 80, linked<int>); VF_REG("linked pointer", 80, linked<Tracked*>);
VF_GROUP_W(linked_defaults, 2) { Plain p{ 3 }; { typedef estd::internal::linked_ref<Plain*, estd::internal::linked_ref_traits<Plain> > R; R a(&p), b(a); VF_EQ((a.count_shared()), 2, "owners"); R w(b.make_weak()); VF_EQ(w.count_shared(), 2, "owners"); } VF_EQ(p.v, 3, "object"); c.mark(1); c.nt(); }
