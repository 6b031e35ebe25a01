#include "vf.h"
#include <estd/memory.h>
using namespace vf;
namespace {
namespace l1 = estd::layer1; namespace l2 = estd::layer2; namespace l3 = estd::layer3;
VF_TLS std::vector<int> gone, deleted;      // destroyed objects; deleters that ran
struct Obj { Tracked t; Obj(int v) : t(v) {} ~Obj() { gone.push_back(t.get()); } };
struct alignas(32) Big { Tracked t; char pad[40]; Big(int v) : t(v) { memset(pad, v, sizeof pad); } ~Big() { gone.push_back(t.get()); } };
struct Shut { int id; void operator()(Obj* p) const { deleted.push_back(id + p->t.get()); p->~Obj(); } };
struct Free { Tracked state; Free(int i) : state(i) {} void operator()(Obj* p) { deleted.push_back(state.get() + p->t.get()); delete p; } };
void shut(Obj* p) { deleted.push_back(-p->t.get()); p->~Obj(); }
// id: index of the master; val: value of the object
struct L1Void { typedef Obj T; typedef l1::shared_ptr<Obj> M; enum { inplace = 1, log = 0, extra = 0 }; static void make(M* m, T*, int) { new(m) M(); } static T* at(M& m) { return &m.provided(); } static int mark(int, int) { return 0; } };
struct L1Big { typedef Big T; typedef l1::shared_ptr<Big> M; enum { inplace = 1, log = 0, extra = 0 }; static void make(M* m, T*, int) { new(m) M(); } static T* at(M& m) { return &m.provided(); } static int mark(int, int) { return 0; } };
struct L1Fn { typedef Obj T; typedef l1::shared_ptr<Obj, Shut> M; enum { inplace = 1, log = 1, extra = 0 }; static void make(M* m, T*, int id) { new(m) M(Shut{ id * 1000 }); } static T* at(M& m) { return &m.provided(); } static int mark(int id, int v) { return id * 1000 + v; } };
struct L1Ptr { typedef Obj T; typedef l1::shared_ptr<Obj, void (*)(Obj*)> M; enum { inplace = 1, log = 1, extra = 0 }; static void make(M* m, T*, int) { new(m) M(&shut); } static T* at(M& m) { return &m.provided(); } static int mark(int, int v) { return -v; } };
struct L2Void { typedef Obj T; typedef l2::shared_ptr<Obj> M; enum { inplace = 0, log = 0, extra = 0 }; static void make(M* m, T* p, int) { new(m) M(p); } static int mark(int, int) { return 0; } };
struct L2Fn { typedef Obj T; typedef l2::shared_ptr<Obj, Free> M; enum { inplace = 0, log = 1, extra = 1 }; static void make(M* m, T* p, int id) { new(m) M(p, Free(id * 1000)); } static int mark(int id, int v) { return id * 1000 + v; } };
struct L2Ptr { typedef Obj T; typedef l2::shared_ptr<Obj, void (*)(Obj*)> M; enum { inplace = 0, log = 1, extra = 0 }; static void make(M* m, T* p, int) { new(m) M(p, &shut); } static int mark(int, int v) { return -v; } };
template <class K, bool Inplace> struct Ops;
template <class K> struct Ops<K, true> { static void construct(typename K::M& m, int v) { m.construct(v); } static typename K::T* at(typename K::M& m) { return K::at(m); } };
template <class K> struct Ops<K, false> { static void construct(typename K::M&, int) {} static typename K::T* at(typename K::M&) { return nullptr; } };
template <class K> struct Flow
{
    typedef typename K::T T; typedef typename K::M M; typedef l3::shared_ptr<T> H; typedef Ops<K, K::inplace != 0> O; enum { N = 3, S = 5 };
    Ctx& c; Raw<M> m; Raw<H> h; Raw<T> ext; int st[N], val[N], owners[N], seq = 0; T* obj[N]; int at[S]; std::vector<int> wgone, wdel;     // st: -1 none 0 idle 1 active 2 reset
    explicit Flow(Ctx& c_) : c(c_), m(N), h(S), ext(N) { for(int i = 0; i < N; ++i) st[i] = -1; for(int i = 0; i < S; ++i) at[i] = -2; }   // at: -2 no handle -1 empty
    void release(int i, const char* how) { if(--owners[i] == 0) { wgone.push_back(val[i]); if(K::log) wdel.push_back(K::mark(i, val[i])); VF_EV(how); } }
    void make(int i)
    {
        val[i] = ++seq; owners[i] = 0; c.op("master %d created", i); memset((void*)&m[i], 0x5A, sizeof(M));
        if(K::inplace) { K::make(&m[i], nullptr, i); st[i] = 0; obj[i] = O::at(m[i]); VF_REQ((size_t)obj[i] % alignof(T) == 0, "object misaligned"); }
        else { T* p = K::extra ? new T(val[i]) : new(&ext[i]) T(val[i]); K::make(&m[i], p, i); st[i] = 1; owners[i] = 1; obj[i] = p; }
    }
    void drop(int j) { if(at[j] == -2) return; c.op("drop %d", j); h[j].~H(); if(at[j] >= 0) release(at[j], "dropped last owner"); at[j] = -2; memset((void*)&h[j], 0x5A, sizeof(H)); }
    void unmake(int i, bool all = false)
    {
        for(int j = 0; j < S; ++j) if(at[j] == i && st[i] >= 0) { if(!all) return; drop(j); }
        if(st[i] < 0) return; c.op("drop master %d", i); bool last = st[i] == 1; m[i].~M(); if(last) release(i, "master dropped as last owner"); st[i] = -1; memset((void*)&m[i], 0x5A, sizeof(M));
    }
    void check()
    {
        VF_REQ(gone == wgone, "destroyed %s, expected %s", show(gone).c_str(), show(wgone).c_str()); VF_REQ(deleted == wdel, "deleters ran %s, expected %s", show(deleted).c_str(), show(wdel).c_str()); long live = 0; uint64_t x = 0;
        for(int i = 0; i < N; ++i) { if(st[i] < 0) continue; live += (owners[i] > 0) + (K::extra && st[i] >= 0); x = x * 7 + (uint64_t)(st[i] * 40 + owners[i]); const M& k = m[i]; VF_EQ((long)k.use_count(), st[i] == 1 ? owners[i] : 0, "use count of master"); if(st[i] == 1) { VF_REQ(k.get() == obj[i] && k.operator->() == obj[i] && &*k == obj[i], "object of master"); VF_EQ(k->t.get(), val[i], "object"); } }
        for(int j = 0; j < S; ++j) { if(at[j] == -2) continue; const H& k = h[j]; x = x * 7 + (uint64_t)(at[j] + 1); VF_EQ((long)k.use_count(), at[j] < 0 ? 0 : owners[at[j]], "use count"); VF_REQ(k.get() == (at[j] < 0 ? nullptr : obj[at[j]]), "object of handle"); if(at[j] >= 0) VF_EQ((*k).t.get(), val[at[j]], "object"); }
        VF_LEDGER(live); c.state(x); c.mark(x * 31 + gone.size());
    }
    void run()
    {
        unsigned steps = 0; for(int i = 0; i < N; ++i) make(i);
        for(unsigned n = 15 + (unsigned)c.rng.below(50); n > 0; --n)
        {
            int i = (int)c.rng.below(N), j = (int)c.rng.below(S), k = (int)c.rng.below(S); ++steps;
            switch(c.rng.below(13))
            {
                case 0: if(st[i] == 0) { c.op("construct %d", i); O::construct(m[i], val[i]); st[i] = 1; owners[i] = 1; } break;
                case 1: if(st[i] >= 0 && owners[i] == (st[i] == 1)) { unmake(i); if(st[i] < 0) { make(i); VF_EV("recreated"); } } break;
                case 2: if(st[i] == 1) { c.op("reset master %d", i); bool others = owners[i] > 1; m[i].reset(); st[i] = 2; release(i, "reset last owner"); VF_EV(others ? "master reset with owners" : "reset"); m[i].reset(); } break;
                case 3: case 4: if(st[i] >= 0) { drop(j); c.op("%d: master %d", j, i); new(&h[j]) H(m[i]); at[j] = st[i] == 1 ? i : -1; if(at[j] >= 0) { ++owners[i]; VF_EV("copied from master"); } else VF_EV("copied from idle master"); } break;
                case 5: if(at[k] != -2 && j != k) { drop(j); c.op("%d: copy %d", j, k); new(&h[j]) H(h[k]); at[j] = at[k]; if(at[j] >= 0) ++owners[at[j]]; VF_EV("copied"); } break;
                case 6: if(at[k] != -2 && j != k) { drop(j); c.op("%d: move %d", j, k); new(&h[j]) H(std::move(h[k])); at[j] = at[k]; at[k] = -1; VF_EV("moved"); } break;
                case 7: if(st[i] >= 0 && at[j] != -2) { c.op("%d = master %d", j, i); h[j] = m[i]; int old = at[j]; at[j] = st[i] == 1 ? i : -1; if(at[j] >= 0) ++owners[i]; if(old >= 0) release(old, "assigned over last owner"); VF_EV("assigned master"); } break;
                case 8: case 9: if(at[j] != -2 && at[k] != -2) { c.op("%d = %d", j, k); h[j] = h[k]; int old = at[j]; at[j] = at[k]; if(at[j] >= 0) ++owners[at[j]]; if(old >= 0) release(old, "assigned over last owner"); VF_EV(j == k ? "self assigned" : "assigned handle"); } break;
                case 10: if(at[j] != -2 && at[k] != -2) { c.op("swap %d %d", j, k); h[j].swap(h[k]); std::swap(at[j], at[k]); VF_EV("swapped"); } break;
                case 11: if(at[j] != -2) { c.op("reset %d", j); h[j].reset(); if(at[j] >= 0) release(at[j], "reset last owner"); at[j] = -1; h[j].reset(); } break;
                default: if(c.rng.coin()) drop(j); else if(at[j] != -2 && at[k] != -2) { VF_EQ(estd::operator==(h[j], h[k]), (at[j] < 0 ? nullptr : obj[at[j]]) == (at[k] < 0 ? nullptr : obj[at[k]]), "equality"); if(st[i] == 1) VF_EQ(estd::operator==(m[i], h[j]), at[j] == i, "equality with master"); if(at[j] >= 0 && at[k] >= 0) VF_REQ(!(h[j].owner_before(h[k]) && h[k].owner_before(h[j])) && (h[j].owner_before(h[k]) || h[k].owner_before(h[j])) == (at[j] != at[k]), "owner_before"); VF_EV("compared"); }
            }
            check();
        }
        for(int i = 0; i < N; ++i) { unmake(i, true); check(); } for(int j = 0; j < S; ++j) drop(j); check(); if(steps >= 15) c.nt();
    }
};
template <class K> void flow(Ctx& c) { gone.clear(); deleted.clear(); Ledger::reset(); { Flow<K> f(c); f.run(); } VF_LEDGER(0); }
// objects owning handles to one another
struct Node { Tracked t; l3::shared_ptr<Node> next; Node(int v, l3::shared_ptr<Node>& n) : t(v), next(n) {} ~Node() { gone.push_back(t.get()); } };
}
VF_REG("in-place", 60, flow<L1Void>); VF_REG("in-place over-aligned", 60, flow<L1Big>); VF_REG("in-place functor", 60, flow<L1Fn>); VF_REG("in-place pointer", 60, flow<L1Ptr>);
VF_REG("external", 60, flow<L2Void>); VF_REG("external functor", 60, flow<L2Fn>); VF_REG("external pointer", 60, flow<L2Ptr>);
VF_GROUP_W(chains, 80)
{
    gone.clear(); Ledger::reset();
    {
        typedef l1::shared_ptr<Node> M; typedef l3::shared_ptr<Node> H; enum { N = 6 }; M idle; Raw<M> m(N); int next[N], owners[N]; std::vector<int> want; H cur(idle); int at = -1; bool held[N];
        auto release = [&](int i) { while(i >= 0 && --owners[i] == 0) { want.push_back(i + 1); i = next[i]; } };
        for(int i = 0; i < N; ++i) { new(&m[i]) M(); next[i] = c.rng.chance(1, 5) || i == 0 ? -1 : (int)c.rng.below((uint64_t)i); if(next[i] < 0) { H none(idle); m[i].construct(i + 1, none); } else { H n(m[next[i]]); m[i].construct(i + 1, n); ++owners[next[i]]; } owners[i] = 1; held[i] = true; c.op("node %d -> %d", i, next[i]); }
        VF_LEDGER(N);
        for(int n = 0; n < 30; ++n)
        {
            int i = (int)c.rng.below(N); size_t before = want.size();
            switch(c.rng.below(4))
            {
                case 0: if(held[i]) { c.op("reset %d", i); m[i].reset(); held[i] = false; release(i); } break;
                case 1: if(held[i]) { c.op("cur = %d", i); cur = m[i]; ++owners[i]; int old = at; at = i; release(old); } break;
                case 2: if(at >= 0) { c.op("cur = cur->next (%d)", next[at]); cur = cur->next; int old = at; at = next[at]; if(at >= 0) ++owners[at]; release(old); VF_EV("walked"); } break;
                default: if(at >= 0 && c.rng.coin()) { c.op("reset cur"); cur.reset(); release(at); at = -1; }
            }
            if(want.size() > before + 1) VF_EV("chain released"); VF_REQ(gone == want, "destroyed %s, expected %s", show(gone).c_str(), show(want).c_str()); long live = 0; uint64_t x = (uint64_t)(at + 1); for(int k = 0; k < N; ++k) { live += owners[k] > 0; x = x * 5 + (uint64_t)owners[k]; VF_EQ((long)m[k].use_count(), held[k] ? owners[k] : 0, "use count"); } VF_LEDGER(live); VF_EQ((long)cur.use_count(), at < 0 ? 0 : owners[at], "use count"); if(at >= 0) VF_EQ(cur->t.get(), at + 1, "object"); c.state(x); c.mark(x);
        }
        cur.reset(); release(at); for(int i = N; i-- > 0;) if(held[i]) { m[i].reset(); release(i); } VF_REQ(gone == want, "destroyed %s, expected %s", show(gone).c_str(), show(want).c_str()); VF_LEDGER(0); for(int i = 0; i < N; ++i) m[i].~M(); c.nt();
    }
    VF_REQ(gone.size() == 6, "destroyed %zu objects", gone.size()); VF_LEDGER(0);
}
